// C25: path functions against lexical rules and the file system.
#include "faultio.h"
#include "utflib.h"
#include "utf8/utf8_file_dir.h"
using namespace CubicleSoft;
using CL::Bad;
using CL::Ev;
typedef UTF8::File File;

static std::string Cwd;
// A result buffer of exactly the given size.
struct Buf
{
	char *P; size_t N;
	explicit Buf(size_t n) : P((char *)malloc(n)), N(n) { memset(P, 0x5A, n); }
	~Buf() { free(P); }
	std::string Str(const char *What) { size_t k = strnlen(P, N); if (k == N)  Bad("terminator", std::string(What) + " gave an unterminated result"); return std::string(P, k); }
};
struct CStr { char *P; explicit CStr(const std::string &s) : P((char *)malloc(s.size() + 1)) { memcpy(P, s.c_str(), s.size() + 1); } ~CStr() { free(P); } };

// 1: a name the library must accept, 0: one it must refuse, -1: its choice.
static int Valid(const std::string &s)
{
	if (s.empty())  return 0;
	int r = 1;
	for (size_t i = 0; i < s.size(); )
	{
		std::uint32_t c;
		size_t k = UL::Seq((const std::uint8_t *)s.data() + i, s.size() - i, c);
		if (!k)  return 0;
		if (c < 0x20 || c == 0x7F || strchr("*?\"<>|", (int)c & 0xFF) && c < 0x80)  return 0;
		if (!UL::Allowed(c) || (!i && UL::Combining(c)))  r = -1;
		i += k;
	}
	return r;
}
static std::string Slashes(std::string s) { for (auto &c : s)  if (c == '\\')  c = '/'; return s; }
static std::string Normal(const std::string &Base, const std::string &Name, bool Slash)
{
	std::string p = Name[0] == '/' ? Name : Base + "/" + Name, Seg;
	std::vector<std::string> V;
	for (size_t i = 0; i <= p.size(); i++)
	{
		if (i < p.size() && p[i] != '/')  { Seg += p[i]; continue; }
		if (Seg == "..")  { if (V.size())  V.pop_back(); }
		else if (Seg != "." && Seg != "")  V.push_back(Seg);
		Seg.clear();
	}
	std::string r;
	for (auto &s : V)  r += "/" + s;
	if (r.empty())  return "/";
	return Slash ? r + "/" : r;
}
static std::string AnyPath(H::Rng &R)
{
	static const std::vector<std::string> Segs = {".", "..", "...", "a", "b", "..a", ".a", "a.", "a..", "x.tar.gz", "\xC3\xA9t\xC3\xA9", "\xE6\x96\x87", "", "", "dir", "a b", ".b.c", "\xF0\x9F\x98\x80"};
	std::string p;
	size_t n = R.Chance(1, 10) ? (size_t)R.Below(40) : (size_t)R.Below(7);
	if (R.Chance(1, 3))  p += "/";
	for (size_t i = 0; i < n; i++)
	{
		p += R.Chance(1, 30) ? std::string((size_t)R.Below(300), 'n') : R.Pick(Segs);
		if (i + 1 < n || R.Chance(1, 3))  p += R.Chance(1, 15) ? "\\" : "/";
	}
	if (R.Chance(1, 15))  { size_t i = R.Below(p.size() + 1); p.insert(i, 1, (char)R.Range(1, 255)); }
	if (R.Chance(1, 60))
	{
		std::string L = "/" + std::string((size_t)R.Range(1, 60), 'q');
		while (p.size() < 8300)  p += R.Chance(1, 20) ? "/.." : L;
		p.resize((size_t)R.Range(7900, 8250));
	}
	return p;
}
static void Absolute(H::Rng &R)
{
	std::string Name = AnyPath(R), Base = R.Chance(1, 3) ? "" : AnyPath(R);
	bool UseCwd = Base.empty();
	if (!UseCwd && R.Chance(4, 5) && Base[0] != '/')  Base = "/" + Base;
	bool Slash = R.Chance(1, 3);
	int Ok1 = Valid(Name), Ok2 = UseCwd ? 1 : Valid(Base);
	std::string N = Slashes(Name), B = UseCwd ? Cwd : Slashes(Base);
	if (Ok2 && B[0] != '/')  Ok2 = 0;
	// A base that is not needed may or may not be looked at.
	if (Ok1 && N[0] == '/' && !Ok2)  Ok2 = -1;
	int Ok = !Ok1 || !Ok2 ? 0 : Ok1 < 0 || Ok2 < 0 ? -1 : 1;
	std::string Want;
	if (Ok)  Want = Normal(B, N, Slash);
	if (Ok == 1 && N.size() + B.size() > 8000)  Ok = -1;
	size_t Size = R.Chance(1, 2) ? (size_t)R.Below(10000) : (size_t)std::max<std::int64_t>(0, (std::int64_t)Want.size() + R.Range(-6, 4));
	std::string In = H::Format("absolute \"%s\" base \"%s\" slash %d into %zu", H::Escape(Name, 200).c_str(), UseCwd ? "(none)" : H::Escape(Base, 200).c_str(), Slash, Size);
	Ev(In);
	Buf O(Size);
	CStr n(Name), b(Base);
	bool Got = Slash || R.Chance(1, 2) ? File::GetAbsoluteFilename(O.P, Size, UseCwd ? NULL : b.P, n.P, Slash) : File::GetAbsoluteFilename(O.P, Size, UseCwd ? NULL : b.P, n.P);
	if (Got && !Ok)  Bad("accepted", In + " accepted");
	if (Got && Want.size() + 1 > Size)  Bad("too-small", In + " succeeded; the result is \"" + H::Escape(Want, 200) + "\"");
	if (!Got && Ok == 1 && Want.size() + 1 <= Size)  Bad("refused", In + " failed; the result is \"" + H::Escape(Want, 200) + "\"");
	if (Got)
	{
		std::string r = O.Str("making a path absolute");
		if (r != Want)  Bad("wrong-path", In + " gave \"" + H::Escape(r, 200) + "\", not \"" + H::Escape(Want, 200) + "\"");
		H::Count("absolute");
		// Doing it again changes nothing.
		Buf O2(r.size() + 1);
		CStr n2(r);
		if (!File::GetAbsoluteFilename(O2.P, O2.N, "/", n2.P, Slash) || O2.Str("making a path absolute") != r)  Bad("not-idempotent", In + " is not stable");
	}
	else  H::Count("absolute-refused");
	if (H::WantSample())  H::Sample(In + " -> " + (Got ? Want : "refused"));
}
static void Names(H::Rng &R)
{
	std::string Name;
	if (R.Chance(1, 2))  Name = AnyPath(R);
	else
	{
		bool V;
		for (std::uint32_t c : UL::AnyText(R, 1, false, V))  Name += (char)c;
	}
	int Ok = Valid(Name);
	size_t Size = R.Chance(1, 3) ? 8192 : (size_t)std::max<std::int64_t>(0, (std::int64_t)Name.size() + R.Range(-3, 4));
	std::string In = H::Format("name \"%s\" into %zu", H::Escape(Name, 200).c_str(), Size);
	Ev(In);
	Buf O(Size);
	CStr n(Name);
	bool Got = R.Chance(1, 2) ? File::GetPlatformFilename(O.P, Size, n.P) : File::GetPlatformFilename(O.P, Size, n.P, R.Chance(1, 2));
	if (Got && (!Ok || Name.size() + 1 > Size))  Bad("accepted", In + " accepted");
	if (!Got && Ok == 1 && Name.size() + 1 <= Size)  Bad("refused", In + " refused");
	if (Got && O.Str("a platform file name") != Slashes(Name))  Bad("wrong-path", In + " gave \"" + H::Escape(O.P, 200) + "\"");
	if (Name.size() < 8000)
	{
		bool V = File::IsValidFilenameFormat(n.P);
		if (V ? !Ok : Ok == 1)  Bad(V ? "accepted" : "refused", In + ": format check says " + (V ? "valid" : "invalid"));
	}
	H::Count(Got ? "names-accepted" : "names-refused");

	File::FilenameInfo I;
	memset(&I, 0xA5, sizeof(I));
	File::GetPlatformFilenameInfo(I, n.P);
	size_t k = Name.rfind('/'), F = k == std::string::npos ? 0 : k + 1, E = Name.find('.', F), L = Name.rfind('.');
	if (E == std::string::npos)  E = Name.size();
	if (L == std::string::npos || L < F)  L = Name.size();
	if (I.Length != Name.size() || I.StartVolume || I.StartPath || I.StartFilename != F || I.StartExtension != E || I.StartLastExtension != L)
		Bad("parts", H::Format("\"%s\" is split at %zu %zu %zu (length %zu), not %zu %zu %zu", H::Escape(Name, 200).c_str(), I.StartFilename, I.StartExtension, I.StartLastExtension, I.Length, F, E, L));
}
static void Disk(H::Rng &R)
{
	FIO::Wipe();
	std::string Tgt = R.Chance(1, 2) ? "t/" + R.FromAlphabet(R.Below(60) + 1, "abc.") : "/" + R.FromAlphabet(R.Below(250) + 1, "xyz/..");
	mkdir("t", 0755);
	if (R.Chance(1, 2))  FIO::Spit("t/file", "1");
	if (R.Chance(1, 3))  Tgt = R.Chance(1, 2) ? "t/file" : "t";
	Ev("link to " + H::Escape(Tgt, 100));
	CStr t(Tgt);
	if (!File::Symlink("ln", t.P))  Bad("symlink", "making a symbolic link failed");
	if (File::Symlink("ln", t.P))  Bad("symlink", "making a symbolic link over another one succeeded");
	struct stat ls;
	if (lstat("ln", &ls) || !S_ISLNK(ls.st_mode))  Bad("symlink", "no symbolic link was made");
	{
		size_t Size = (size_t)std::max<std::int64_t>(0, (std::int64_t)Tgt.size() + R.Range(-4, 4));
		if (R.Chance(1, 4))  Size = 8192;
		Buf O(Size);
		bool Got = File::Readlink(O.P, Size, "ln");
		if (Got != (Tgt.size() + 1 <= Size))  Bad("readlink", H::Format("reading a link of %zu characters into %zu bytes returned %d", Tgt.size(), Size, Got));
		if (Got && O.Str("reading a link") != Tgt)  Bad("readlink", "the link reads as \"" + H::Escape(O.P, 200) + "\", not \"" + H::Escape(Tgt, 200) + "\"");
		Buf O2(50);
		if (File::Readlink(O2.P, 50, "t") || File::Readlink(O2.P, 50, "nothing"))  Bad("readlink", "something that is not a link was read as one");
		H::Count("links");
	}
	static const char *const Ps[] = {".", "t", "t/file", "ln", "t/../t/.", "nothing", "t/nothing", "ln/..", "/", "./t//file"};
	for (int i = 0; i < 3; i++)
	{
		const char *p = Ps[R.Below(10)];
		char *Real = realpath(p, NULL);
		std::string Want = Real ? Real : "";
		free(Real);
		size_t Size = (size_t)std::max<std::int64_t>(0, (std::int64_t)Want.size() + R.Range(-3, 5));
		Buf O(Size);
		bool Got = File::Realpath(O.P, Size, p);
		if (Got != (Want.size() && Want.size() + 1 <= Size))  Bad("realpath", H::Format("real path of \"%s\" into %zu bytes returned %d", p, Size, Got));
		if (Got && O.Str("the real path") != Want)  Bad("realpath", H::Format("real path of \"%s\" is \"%s\", not \"%s\"", p, O.P, Want.c_str()));
		struct stat a, b;
		bool There = stat(p, &a) == 0;
		if (File::Exists(p) != There)  Bad("exists", H::Format("\"%s\": exists is %d", p, !There));
		bool Link = R.Chance(1, 2);
		There = (Link ? lstat(p, &a) : stat(p, &a)) == 0;
		File::FileStat s;
		if ((R.Chance(1, 2) || Link ? File::Stat(s, p, Link) : File::Stat(s, p)) != There)  Bad("stat", H::Format("stat of \"%s\" returned %d", p, !There));
		if (There && (s.st_ino != a.st_ino || s.st_dev != a.st_dev || s.st_mode != a.st_mode || s.st_size != a.st_size))  Bad("stat", H::Format("stat of \"%s\" differs", p));
		(void)b;
		H::Count("real-paths");
	}
	{
		size_t Size = (size_t)std::max<std::int64_t>(0, (std::int64_t)Cwd.size() + R.Range(-3, 5));
		Buf O(Size);
		bool Got = UTF8::Dir::Getcwd(O.P, Size);
		if (Got != (Cwd.size() + 1 <= Size) && Size)  Bad("cwd", "asking for the working directory returned the wrong answer");
		if (Got && O.Str("the working directory") != Cwd)  Bad("cwd", "the working directory is wrong");
	}
	// Deleting removes the one name.
	const char *Del[] = {"ln", "t/file", "t", "nothing"};
	const char *d = Del[R.Below(4)];
	struct stat a;
	bool Can = lstat(d, &a) == 0 && !S_ISDIR(a.st_mode);
	bool TFile = FIO::There("t/file"), Ln = true;
	if (File::Delete(d) != Can)  Bad("delete", H::Format("deleting \"%s\" returned %d", d, !Can));
	if (FIO::There("ln") != (Ln && strcmp(d, "ln") != 0) || FIO::There("t/file") != (TFile && strcmp(d, "t/file") != 0) || !FIO::There("t"))  Bad("delete", H::Format("deleting \"%s\" removed something else, or nothing", d));
	FIO::Wipe();
}
static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	FIO::End();
	FIO::S().R = H::Rng(R.Next());
	for (int i = 0; i < 8; i++)  { Absolute(R); Names(R); }
	if (R.Chance(1, 4))  Disk(R);
	H::Sig(CL::LogSig);
}
static void Init()
{
	FIO::Init();
	char b[8192];
	Cwd = getcwd(b, sizeof(b)) ? b : "";
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, Init); }
