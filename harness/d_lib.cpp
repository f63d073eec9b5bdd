// C29: calls through loaded libraries reach the named function, once, with their arguments; missing ones fail cleanly.
#include "contlib.h"
#include "templates/shared_lib.h"
#include <memory>
using namespace CubicleSoft::SharedLib;
using CL::Bad;
struct Big { std::int64_t A[5]; };
static std::uint64_t Mix(const void *p, size_t n, std::uint64_t h) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++)  { h ^= b[i]; h *= 0x100000001b3ull; } return h; }
template <class T> static std::uint64_t M(T v, std::uint64_t h) { return Mix(&v, sizeof(v), h); }

static std::string Dir;
static const char *const Names[12] = { "f_int0", "f_int", "f_dbl", "f_many", "f_str", "f_void0", "f_void", "f_out", "f_bool", "f_big", "f_flt", "f_i64" };

// Functions of the same names in the program itself (exported): nothing may ever reach them.
static std::uint64_t Astray;
extern "C"
{
	#define STRAY(n) __attribute__((visibility("default"), used)) long n() { Astray++; return 0; }
	STRAY(f_int0) STRAY(f_int) STRAY(f_many) STRAY(f_str) STRAY(f_void0) STRAY(f_void) STRAY(f_out) STRAY(f_bool) STRAY(f_i64) STRAY(f_big) STRAY(f_dbl) STRAY(f_flt) STRAY(f_here)
}

struct Mod
{
	std::unique_ptr<std::string> File;
	std::unique_ptr<ModuleUtil> M;
	int Lib;                                  // 0, 1: copies of the library; 2: missing; 3: not a library; 4: NULL
	bool Loaded = false;
};
struct Fun
{
	std::unique_ptr<std::string> Sym;
	std::unique_ptr<FunctionUtil> F;
	int Which;                                // 12: missing symbol
	size_t Owner;
};
static std::uint64_t SumCalls(int Lib, std::uint64_t *Each, std::uint64_t &Last, const char *Other = NULL)
{
	std::string f = Other ? Other : Dir + (Lib ? "/lib_b.so" : "/lib_a.so");
	memset(Each, 0, 12 * 8);
	Last = 0;
	void *h = dlopen(f.c_str(), RTLD_LAZY | RTLD_NOLOAD);
	if (!h)  return (std::uint64_t)-1;
	auto C = (std::uint64_t (*)(int))dlsym(h, "lt_calls");
	auto L = (std::uint64_t (*)())dlsym(h, "lt_last");
	std::uint64_t s = 0;
	for (int i = 0; i < 12; i++)  s += (Each[i] = C(i));
	Last = L();
	dlclose(h);
	return s;
}
static std::string Txt(H::Rng &R) { std::string s; for (unsigned k = (unsigned)R.Below(12); k; k--)  s += (char)R.Range(1, 255); return s; }

// One call of function Which: through F when given, else by file and name.  Returns whether it reported success.
struct Outcome { bool Ok; std::uint64_t Hash; bool ValueOk; bool Kept; };
template <class T, class... A> static bool Do(FunctionUtil *F, const char *File, const char *Sym, T &Ret, A... a)
{
	return F ? Call(*F, Ret, a...) : CallOnce(File, Sym, Ret, a...);
}
template <class... A> static bool DoV(FunctionUtil *F, const char *File, const char *Sym, A... a)
{
	return F ? CallVoid(*F, a...) : CallOnceVoid(File, Sym, a...);
}
template <class T> static bool Same(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
static Outcome One(H::Rng &R, int Which, FunctionUtil *F, const char *File, const char *Sym)
{
	Outcome o = { false, 0, true, true };
	#define RET(T, init, want, h, ...) { T r = init; T r0 = r; T Wanted = want; o.Ok = Do(F, File, Sym, r, ##__VA_ARGS__); o.Hash = h; o.ValueOk = Same(r, Wanted); o.Kept = Same(r, r0); }
	switch (Which)
	{
		case 0:  RET(int, 55, -7, 1) break;
		case 1:  { int a = (int)R.U64(), b = (int)R.U64(); RET(int, 55, (int)(3u * (unsigned)a - (unsigned)b), M(b, M(a, 2)), a, b) break; }
		case 2:  { double a = (double)R.Range(-1000, 1000) / 8; int b = (int)R.Range(-1000, 1000); float c = (float)R.Range(-1000, 1000) / 4; RET(double, 0.125, a * b + c, M(c, M(b, M(a, 3))), a, b, c) break; }
		case 3:
		{
			std::int8_t a = (std::int8_t)R.Next(); std::uint16_t b = (std::uint16_t)R.Next(); std::int32_t c = (std::int32_t)R.Next(); std::uint64_t d = R.U64();
			double e = (double)R.Range(-100, 100) / 16; float f = (float)R.Range(-100, 100) / 16; std::string g = Txt(R); void *h = &o; std::int64_t i = (std::int64_t)R.U64(); std::uint8_t j = (std::uint8_t)R.Next();
			std::uint64_t x = 4;
			x = M(a, x); x = M(b, x); x = M(c, x); x = M(d, x); x = M(e, x); x = M(f, x); x = Mix(g.data(), g.size(), x); x = M(h, x); x = M(i, x); x = M(j, x);
			RET(std::uint64_t, 3, x, x, a, b, c, d, e, f, g.c_str(), h, i, j)
			break;
		}
		case 4:  { std::string s = Txt(R); const char *p = s.c_str(); RET(const char *, NULL, (*p ? p + 1 : p), Mix(p, s.size(), 5), p) break; }
		case 5:  o.Ok = DoV(F, File, Sym); o.Hash = 6; break;
		case 6:  { int a = (int)R.Next(); double b = (double)R.Range(-99, 99) / 4; o.Ok = DoV(F, File, Sym, a, b); o.Hash = M(b, M(a, 7)); break; }
		case 7:  { int x = 1234567, v = (int)R.Below(1000); o.Ok = DoV(F, File, Sym, &x, v); o.Hash = M(v, 8); o.ValueOk = x == v; o.Kept = x == 1234567; break; }
		case 8:  { bool a = R.Chance(1, 2); RET(bool, a, !a, M(a, 9), a) break; }
		case 9:
		{
			Big b;
			for (auto &v : b.A)  v = (std::int64_t)R.U64();
			int k = (int)R.Below(1000);
			Big w = b;
			for (auto &v : w.A)  v = (std::int64_t)((std::uint64_t)v + (std::uint64_t)k);
			RET(Big, b, w, M(k, M(b, 10)), b, k)
			break;
		}
		case 10:  { float a = (float)R.Range(-1000, 1000); RET(float, 0.5f, a / 2, M(a, 11), a) break; }
		case 11:  { std::int64_t a = (std::int64_t)R.U64(); RET(std::int64_t, 5, (std::int64_t)~(std::uint64_t)a, M(a, 12), a) break; }
	}
	return o;
}
static void CopyLib(const std::string &To)
{
	char Me[4096];
	ssize_t z = readlink("/proc/self/exe", Me, sizeof(Me) - 1);
	if (z <= 0)  H::HarnessError("no executable name");
	std::string Aux(Me, (size_t)z);
	Aux = Aux.substr(0, Aux.rfind('/')) + "/lib_test.so";
	FILE *i = fopen(Aux.c_str(), "rb"), *o = fopen(To.c_str(), "wb");
	if (!i || !o)  H::HarnessError("cannot copy the library");
	char b[4096];
	size_t k;
	while ((k = fread(b, 1, sizeof(b), i)))  fwrite(b, 1, k, o);
	fclose(i);
	fclose(o);
}
// Single calls into a library nobody has loaded yet: what the first leaves there, the next finds.
static void Fresh(H::Rng &R)
{
	static unsigned Num;
	std::string File = H::Format("%s/lib_fresh%u.so", Dir.c_str(), Num++);
	CopyLib(File);
	std::uint64_t Each[12], Last, n = 0;
	bool Void = R.Chance(1, 2);
	CL::Ev(H::Format("single calls into a fresh library%s", Void ? ", nothing returned" : ""));
	for (unsigned k = (unsigned)R.Below(4) + 1; k; k--)
	{
		int W = Void ? (int)R.Range(5, 7) : (int)R.Below(12);
		Outcome o = One(R, W, NULL, File.c_str(), Names[W]);
		n++;
		if (!o.Ok)  Bad("call-result", "a call of an existing function failed");
		if (!o.ValueOk)  Bad("value", std::string("the value of ") + Names[W] + " is wrong");
		std::uint64_t s = SumCalls(0, Each, Last, File.c_str());
		if (s == (std::uint64_t)-1)  Bad("unloaded", "a library was unloaded after a single call");
		if (s != n)  Bad("calls", H::Format("%llu calls ran %llu times", (unsigned long long)n, (unsigned long long)s));
		if (Last != o.Hash)  Bad("arguments", std::string("the arguments of ") + Names[W] + " arrived differently");
	}
	H::Count("fresh-libraries");
}
static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	static unsigned nFresh;
	H::Rng FR(R.Next());
	if (FR.Chance(1, 100) && nFresh < 60)  { nFresh++; Fresh(FR); }
	std::vector<Mod> Mods;
	std::vector<Fun> Funs;
	std::uint64_t Before[12], After[12], Last;
	unsigned n = (unsigned)R.Below(30) + 3, Good = 0;
	for (int L = 0; L < 1; L++)  if (SumCalls(L, Before, Last) != (std::uint64_t)-1)  Bad("still-loaded", "the library is loaded before the first module exists");
	for (unsigned i = 0; i < n; i++)
	{
		unsigned K = (unsigned)R.Below(10);
		if (Mods.empty() || K == 0)
		{
			Mod m;
			m.Lib = R.Chance(3, 4) ? 0 : (int)R.Range(2, 4);
			m.File.reset(new std::string(m.Lib == 0 ? Dir + "/lib_a.so" : m.Lib == 2 ? Dir + "/lib_missing.so" : Dir + "/notes.txt"));
			m.M.reset(new ModuleUtil(m.Lib == 4 ? NULL : m.File->c_str()));
			CL::Ev(H::Format("module %zu of %d", Mods.size(), m.Lib));
			Mods.push_back(std::move(m));
			continue;
		}
		if (Funs.empty() || K <= 2)
		{
			Fun f;
			f.Owner = (size_t)R.Below(Mods.size());
			if (!Mods[f.Owner].M)  continue;
			f.Which = (int)R.Below(14);
			if (f.Which > 12)  f.Which = 12;
			f.Sym.reset(new std::string(f.Which == 12 ? (R.Chance(1, 3) ? "f_in" : R.Chance(1, 2) ? "f_int0x" : "f_here") : Names[f.Which]));
			f.F.reset(new FunctionUtil(*Mods[f.Owner].M, f.Sym->c_str()));
			CL::Ev(H::Format("function %zu %s of module %zu", Funs.size(), f.Sym->c_str(), f.Owner));
			Funs.push_back(std::move(f));
			continue;
		}
		if (K == 3)
		{
			// A module goes, with its functions.
			size_t m = (size_t)R.Below(Mods.size());
			if (!Mods[m].M)  continue;
			for (auto &f : Funs)  if (f.Owner == m)  f.F.reset();
			Mods[m].M.reset();
			Mods[m].Loaded = false;
			CL::Ev(H::Format("module %zu destroyed", m));
			bool Any = false, Live = false;
			for (auto &x : Mods)
			{
				if (x.Lib == 0 && x.Loaded)  Any = true;
				if (x.Lib == 0 && x.M)  Live = true;
			}
			bool Is = SumCalls(0, Before, Last) != (std::uint64_t)-1;
			if (Any && !Is)  Bad("unloaded", "a library was unloaded while another module has it loaded");
			if (!Live && Is)  Bad("still-loaded", "a library remains loaded after its last module was destroyed");
			continue;
		}
		bool Once = K == 4;
		if (Once)
		{
			int Lib = R.Chance(3, 4) ? 1 : (int)R.Range(2, 3), W = (int)R.Below(13);
			std::string File = Lib == 1 ? Dir + "/lib_b.so" : Lib == 2 ? Dir + "/lib_missing.so" : Dir + "/notes.txt";
			std::string Sym = W == 12 ? (R.Chance(1, 2) ? "f_missing" : "f_here") : Names[W];
			bool Was = SumCalls(1, Before, Last) != (std::uint64_t)-1;
			if (!Was)  memset(Before, 0, sizeof(Before));
			Outcome o = One(R, W == 12 ? (int)R.Below(12) : W, NULL, File.c_str(), Sym.c_str());
			CL::Ev(H::Format("call once %s in %d: %d", Sym.c_str(), Lib, o.Ok));
			bool Expect = Lib == 1 && W != 12;
			if (o.Ok != Expect)  Bad("call-result", Expect ? "a call of an existing function failed" : "a call of a missing function succeeded");
			bool Is = SumCalls(1, After, Last) != (std::uint64_t)-1;
			if (Expect && !Is)  Bad("unloaded", "a library was unloaded after a single call");
			for (int k = 0; k < 12; k++)  if (After[k] != Before[k] + (Expect && k == W ? 1 : 0))  Bad("calls", H::Format("%s ran %llu times", Names[k], (unsigned long long)(After[k] - Before[k])));
			if (Expect && Last != o.Hash)  Bad("arguments", std::string("the arguments of ") + Sym + " arrived differently");
			if (Expect && !o.ValueOk)  Bad("value", std::string("the value of ") + Sym + " is wrong");
			if (!Expect && !o.Kept)  Bad("value", "a failed call changed the result");
			if (Astray)  Bad("calls", "a call ran a function outside of the library");
			if (Expect)  Good++;
			continue;
		}
		Fun &f = Funs[(size_t)R.Below(Funs.size())];
		if (!f.F)  continue;
		Mod &m = Mods[f.Owner];
		bool Was = SumCalls(0, Before, Last) != (std::uint64_t)-1;
		if (!Was)  memset(Before, 0, sizeof(Before));
		Outcome o = One(R, f.Which == 12 ? (int)R.Below(12) : f.Which, f.F.get(), NULL, NULL);
		if (m.Lib == 0)  m.Loaded = true;
		bool Expect = m.Lib == 0 && f.Which != 12;
		CL::Ev(H::Format("call %s through module %zu: %d", f.Sym->c_str(), f.Owner, o.Ok));
		if (o.Ok != Expect)  Bad("call-result", Expect ? "a call of an existing function failed" : "a call of a missing function succeeded");
		SumCalls(0, After, Last);
		for (int k = 0; k < 12; k++)  if (After[k] != Before[k] + (Expect && k == f.Which ? 1 : 0))  Bad("calls", H::Format("%s ran %llu times", Names[k], (unsigned long long)(After[k] - Before[k])));
		if (Expect && Last != o.Hash)  Bad("arguments", "the arguments of " + *f.Sym + " arrived differently");
		if (Expect && !o.ValueOk)  Bad("value", "the value of " + *f.Sym + " is wrong");
		if (!Expect && !o.Kept)  Bad("value", "a failed call changed the result");
		if (Astray)  Bad("calls", "a call ran a function outside of the library");
		if (Expect)  Good++;
		H::Count(Expect ? "calls-reached" : "calls-refused");
	}
	Funs.clear();
	Mods.clear();
	if (SumCalls(0, Before, Last) != (std::uint64_t)-1)  Bad("still-loaded", "a library remains loaded after its last module was destroyed");
	if (Good)  H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(12));
}
static void Init()
{
	Dir = H::G().ScratchDir;
	CopyLib(Dir + "/lib_a.so");
	CopyLib(Dir + "/lib_b.so");
	FILE *o = fopen((Dir + "/notes.txt").c_str(), "wb");
	if (o)  { fputs("not a library\n", o); fclose(o); }
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, Init); }
