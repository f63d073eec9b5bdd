// C08: the thread allocator - disjoint blocks that keep their contents, released exactly once.
#include "alloc.h"
#include "sync/sync_tls.h"
#include <thread>
#include <mutex>
#include <condition_variable>
using namespace CubicleSoft;

// The library's heap calls; some may be refused.
static thread_local int FailPct = 0;
static thread_local H::Rng *FailRng = nullptr;
static thread_local std::uint64_t Refused = 0;
static bool Refuse(size_t n)
{
	if (n > (size_t)1 << 28 || (FailPct && FailRng && FailRng->Chance((unsigned)FailPct, 100)))  { Refused++; return true; }
	return false;
}
extern "C" void *vf_malloc(size_t n) { if (Refuse(n))  return NULL; void *p = malloc(n); if (p)  memset(p, 0xA5, n); return p; }
extern "C" void *vf_calloc(size_t a, size_t b) { return Refuse(a * b) ? NULL : calloc(a, b); }
extern "C" void *vf_realloc(void *p, size_t n) { return Refuse(n) ? NULL : realloc(p, n); }

struct Blk { unsigned char *P; size_t N; std::uint64_t Pat; };
static unsigned char PatByte(std::uint64_t Pat, size_t i) { return (unsigned char)((Pat + i * 0x9E3779B9ull) >> (8 + (i & 3))); }

struct Hist { std::vector<std::string> L; };
struct Worker
{
	H::Rng R;
	std::vector<Sync::TLS *> T;
	std::vector<int> Bits;
	std::vector<std::vector<Blk> > B;
	std::vector<std::string> Log;
	std::uint64_t nAlloc = 0, nRealloc = 0, nDup = 0, nFree = 0, nNull = 0, nRound = 0, Sig = 77;
	int Steps = 0;
	bool Faults = false;
	explicit Worker(std::uint64_t s) : R(s) {}

	[[noreturn]] void Bad(const char *Key, const std::string &m)
	{
		std::string h;
		size_t a = Log.size() > 60 ? Log.size() - 60 : 0;
		for (size_t i = a; i < Log.size(); i++)  h += Log[i] + "; ";
		H::FailStr(Key, m + " | history: " + h);
	}
	void Ev(const std::string &s) { Log.push_back(s); Sig = H::Hash(s, Sig); }
	void Fill(Blk &b) { b.Pat = R.Next(); for (size_t i = 0; i < b.N; i++)  b.P[i] = PatByte(b.Pat, i); }
	void Check(const Blk &b, size_t n, const char *When)
	{
		for (size_t i = 0; i < n; i++)
			if (b.P[i] != PatByte(b.Pat, i))  Bad("contents", H::Format("byte %zu of a %zu byte block changed (%s)", i, b.N, When));
	}
	void CheckAll()
	{
		for (auto &v : B)
			for (auto &b : v)
			{
				if (b.N <= 512)  Check(b, b.N, "sweep");
				else
				{
					for (size_t i = 0; i < 64; i++)  if (b.P[i] != PatByte(b.Pat, i) || b.P[b.N - 1 - i] != PatByte(b.Pat, b.N - 1 - i))  Bad("contents", H::Format("an end of a %zu byte block changed", b.N));
					size_t i = R.Below(b.N);
					if (b.P[i] != PatByte(b.Pat, i))  Bad("contents", H::Format("byte %zu of a %zu byte block changed", i, b.N));
				}
			}
		// Disjoint.
		std::vector<std::pair<std::uintptr_t, std::uintptr_t> > Rg;
		for (auto &v : B)  for (auto &b : v)  Rg.push_back({ (std::uintptr_t)b.P, (std::uintptr_t)b.P + b.N });
		std::sort(Rg.begin(), Rg.end());
		for (size_t i = 1; i < Rg.size(); i++)  if (Rg[i].first < Rg[i - 1].second)  Bad("overlap", "two live blocks overlap");
	}
	size_t AnySize()
	{
		switch (R.Below(8))
		{
			case 0:  if (R.Chance(1, 60))  return ((size_t)1 << R.Range(17, 21)) + (size_t)R.Range(-1, 1); return 1 + R.Below(16);
			case 1:  { size_t p = (size_t)1 << R.Range(2, 16); return p + (size_t)R.Range(-1, 1); }
			case 2:  return 1 + R.Below(70000);
			case 3:  return 1 + R.Below(3000);
			default:  return 1 + R.Below(300);
		}
	}
	// Many blocks of a kind at once, freed together and taken again.
	void Burst()
	{
		size_t t = R.Below(T.size()), n = R.Chance(1, 4) ? (size_t)R.Range(900, 1200) : (size_t)R.Range(60, 300), Most = (size_t)1 << R.Range(2, 9);
		Ev(H::Format("t%zu burst of %zu blocks of up to %zu", t, n, Most));
		std::vector<Blk> V;
		for (int Round = 0; Round < 2; Round++)
		{
			for (size_t i = 0; i < n; i++)
			{
				Blk b;
				b.N = Most / 2 + 1 + R.Below(Most / 2);
				{ A::Scope S2; b.P = (unsigned char *)T[t]->malloc(b.N); }
				if (!b.P)  Bad("null", H::Format("allocating %zu bytes failed with memory available", b.N));
				Fill(b);
				V.push_back(b);
			}
			bool Back = R.Chance(1, 2);
			for (size_t i = 0; i < n; i++)
			{
				Blk &b = V[Back ? n - 1 - i : i];
				Check(b, b.N, "burst");
				A::Scope S2;
				T[t]->free(b.P);
			}
			V.clear();
		}
		nAlloc += 2 * n;
		nFree += 2 * n;
		CheckAll();
	}
	void Step()
	{
		if (R.Chance(1, 1500))  { Burst(); return; }
		size_t t = R.Below(T.size());
		Sync::TLS *P = T[t];
		std::vector<Blk> &V = B[t];
		FailRng = &R;
		FailPct = Faults && R.Chance(1, 3) ? 50 : 0;
		std::uint64_t Ref0 = Refused;
		A::Scope Sc;
		int Op = (int)R.Below(12);
		if (V.size() > 40 && Op < 5)  Op = 9;
		if (Op < 5 || V.empty())
		{
			A::Outside O;
			size_t n = R.Chance(1, 40) ? (R.Chance(1, 2) ? (size_t)-1 - R.Below(3) : ((size_t)1 << 63) - 1 + R.Below(4)) : (R.Chance(1, 30) ? 0 : AnySize());
			Ev(H::Format("t%zu malloc %zu", t, n));
			unsigned char *p;
			bool St = R.Chance(1, 4);
			bool Rz = R.Chance(1, 5);
			{ A::Scope S2; p = (unsigned char *)(Rz ? (St ? Sync::TLS::realloc(P, NULL, n) : P->realloc(NULL, n, R.Chance(1, 2))) : (St ? Sync::TLS::malloc(P, n) : P->malloc(n))); }
			if (!p)
			{
				nNull++;
				if (n != 0 && n < ((size_t)1 << 28) && Refused == Ref0)  Bad("null", H::Format("allocating %zu bytes failed with memory available", n));
			}
			else if (n == 0)  { A::Scope S2; P->free(p); }
			else if (n > ((size_t)1 << 28))  Bad("huge", H::Format("allocating %zu bytes succeeded", n));
			else
			{
				nAlloc++;
				V.push_back({ p, n, 0 });
				Fill(V.back());
			}
		}
		else if (Op < 8)
		{
			A::Outside O;
			size_t i = R.Below(V.size());
			size_t n = R.Chance(1, 40) ? (size_t)-1 - R.Below(3) : (R.Chance(1, 20) ? 0 : (R.Chance(1, 3) ? V[i].N + (size_t)R.Range(0, 20) : AnySize()));
			bool Cache = R.Chance(3, 4);
			Ev(H::Format("t%zu realloc %zu -> %zu cache %d", t, V[i].N, n, Cache));
			unsigned char *p;
			{ A::Scope S2; p = (unsigned char *)(Cache && R.Chance(1, 4) ? Sync::TLS::realloc(P, V[i].P, n) : P->realloc(V[i].P, n, Cache)); }
			nRealloc++;
			if (n == 0)
			{
				if (p)  { A::Scope S2; P->free(p); }
				V.erase(V.begin() + (long)i);
			}
			else if (!p)
			{
				nNull++;
				if (n < ((size_t)1 << 28) && Refused == Ref0)  Bad("null", H::Format("resizing to %zu bytes failed with memory available", n));
				Check(V[i], V[i].N, "after a failed resize");
			}
			else if (n > ((size_t)1 << 28))  Bad("huge", H::Format("resizing to %zu bytes succeeded", n));
			else
			{
				V[i].P = p;
				Check(V[i], std::min(n, V[i].N), "after a resize");
				V[i].N = n;
				Fill(V[i]);
			}
		}
		else if (Op == 8)
		{
			A::Outside O;
			size_t i = R.Below(V.size());
			bool Cache = R.Chance(3, 4);
			Ev(H::Format("t%zu dup %zu cache %d", t, V[i].N, Cache));
			unsigned char *p;
			{ A::Scope S2; p = (unsigned char *)P->dup_malloc(V[i].P, Cache); }
			nDup++;
			if (!p)
			{
				if (Refused == Ref0)  Bad("null", "duplicating failed with memory available");
				Check(V[i], V[i].N, "after a failed duplication");
			}
			else
			{
				Blk b = V[i];
				b.P = p;
				Check(b, b.N, "duplicate");
				memset(p, 0x5A, b.N);
				::free(p);
				V.erase(V.begin() + (long)i);
			}
		}
		else
		{
			A::Outside O;
			size_t i = R.Below(V.size());
			Check(V[i], V[i].N, "before free");
			int How = (int)R.Below(6);
			Ev(H::Format("t%zu free %zu how %d", t, V[i].N, How));
			{
				A::Scope S2;
				if (How == 0)  { Sync::TLS::AutoFree f(P, V[i].P); }
				else if (How == 1)  Sync::TLS::free(P, V[i].P);
				else if (How == 2)  P->free(V[i].P, false);
				else  P->free(V[i].P);
			}
			nFree++;
			V.erase(V.begin() + (long)i);
			if (R.Chance(1, 20))  { A::Scope S2; P->free(NULL); AutoNull(P); }
		}
		FailPct = 0;
		size_t Nodes = 1, Size = 1;
		size_t k = R.Below(24);
		bool Info = P->GetBucketInfo(k, Nodes, Size);
		if (Info && ((Nodes == 0) != (Size == 0)))  Bad("bucket-info", H::Format("bucket %zu: %zu nodes, %zu bytes", k, Nodes, Size));
		A::Outside O;
		CheckAll();
	}
	static void AutoNull(Sync::TLS *P) { Sync::TLS::AutoFree f(P, NULL); }
	void NotInited()
	{
		for (Sync::TLS *P : T)
		{
			size_t a = 0, b = 0;
			if (P->malloc(10) != NULL || P->GetBucketInfo(0, a, b) || P->ThreadEnd())  Bad("not-initialised", "a thread without an allocator of its own got one");
		}
	}
	void Init()
	{
		A::Scope S;
		for (size_t i = 0; i < T.size(); i++)
		{
			if (!(Bits[i] < 0 ? T[i]->ThreadInit() : T[i]->ThreadInit((size_t)Bits[i])))  Bad("init", "ThreadInit failed");
			if (R.Chance(1, 8) && !T[i]->ThreadInit(3))  Bad("init", "a second ThreadInit failed");
		}
		A::Outside O;
		B.clear();
		B.resize(T.size());
	}
	void End()
	{
		for (size_t t = 0; t < T.size(); t++)
		{
			for (auto &b : B[t])
			{
				Check(b, b.N, "at the end");
				A::Scope S;
				T[t]->free(b.P, R.Chance(3, 4));
			}
			B[t].clear();
			A::Scope S;
			if (!T[t]->ThreadEnd())  Bad("end", "ThreadEnd failed");
			A::Outside O;
			size_t a, b;
			if (T[t]->ThreadEnd() || T[t]->malloc(10) != NULL || T[t]->GetBucketInfo(0, a, b))  Bad("end", "the allocator is still there after ThreadEnd");
		}
		nRound++;
	}
	void All()
	{
		int Rounds = (int)R.Range(1, 2);
		for (int r = 0; r < Rounds; r++)
		{
			if (r == 0)  NotInited();
			Init();
			for (int s = 0; s < Steps; s++)  Step();
			End();
		}
	}
};

static void RunCase(H::Rng &R, std::uint64_t)
{
	A::Reset();
	int nT = R.Chance(1, 3) ? (int)R.Range(2, 4) : 1;
	size_t nI = (size_t)R.Range(1, 2);
	std::vector<Sync::TLS *> T;
	for (size_t i = 0; i < nI; i++)  T.push_back(new Sync::TLS);
	std::vector<Worker *> W;
	bool Faults = R.Chance(1, 4);
	for (int i = 0; i < nT; i++)
	{
		Worker *w = new Worker(R.Next());
		w->T = T;
		for (size_t k = 0; k < nI; k++)  w->Bits.push_back(R.Chance(1, 3) ? -1 : (int)R.Below(19));
		w->Steps = (int)R.Range(5, 80);
		w->Faults = Faults;
		W.push_back(w);
	}
	if (nT == 1)  W[0]->All();
	else if (R.Chance(1, 2))
	{
		std::vector<std::thread> Th;
		for (auto *w : W)  Th.emplace_back([w]() { w->All(); });
		for (auto &t : Th)  t.join();
	}
	else
	{
		// Lockstep: one thread at a time in a random order, so every interleaving replays.
		std::mutex M;
		std::condition_variable C;
		int Turn = -1, Live = nT;
		std::vector<char> Fin((size_t)nT, 0);
		auto Next = [&]() { std::vector<int> c; for (int i = 0; i < nT; i++)  if (!Fin[(size_t)i])  c.push_back(i); Turn = c.empty() ? -2 : c[R.Below(c.size())]; C.notify_all(); };
		std::vector<std::thread> Th;
		for (int i = 0; i < nT; i++)
			Th.emplace_back([&, i]() {
				Worker *w = W[(size_t)i];
				auto My = [&](std::unique_lock<std::mutex> &L) { C.wait(L, [&]() { return Turn == i; }); };
				std::unique_lock<std::mutex> L(M);
				My(L);
				w->NotInited();
				w->Init();
				Next();
				for (int s = 0; s < w->Steps; s++)  { My(L); w->Step(); Next(); }
				My(L);
				w->End();
				Fin[(size_t)i] = 1;
				Live--;
				Next();
			});
		{ std::unique_lock<std::mutex> L(M); Next(); }
		for (auto &t : Th)  t.join();
	}
	std::uint64_t sg = 5;
	bool Big = false;
	for (auto *w : W)
	{
		sg = H::HashU(w->Sig, sg);
		H::Count("allocations", w->nAlloc);
		H::Count("resizes", w->nRealloc);
		H::Count("duplicates", w->nDup);
		H::Count("frees", w->nFree);
		H::Count("null results", w->nNull);
		H::Count("thread lifetimes", w->nRound);
		Big |= w->nRealloc > 0;
	}
	for (auto *p : T)  delete p;
	if (A::Live())  H::Fail("leak", "%zu blocks are still allocated after every thread ended", A::Live());
	if (H::WantSample())  { std::string s; for (auto &l : W[0]->Log)  if (s.size() < 300)  s += l + "; "; H::Sample(H::Format("%d threads: ", nT) + s); }
	for (auto *w : W)  delete w;
	if (Big)  H::Sig(sg);
}

int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
