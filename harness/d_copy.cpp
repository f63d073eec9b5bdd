// C24: copying, moving, loading and reading by line keep the content, or report failure.
#include "faultio.h"
#include <algorithm>
#include <sys/mman.h>
#include "utf8/utf8_file_dir.h"
using namespace CubicleSoft;
using CL::Bad;
using CL::Ev;
typedef UTF8::File File;

static std::string Content(H::Rng &R)
{
	size_t n;
	if (R.Chance(1, 100))  n = (size_t)(1 << 20) * (size_t)R.Range(1, 3) + (size_t)R.Below(3);
	else if (R.Chance(1, 40))  n = (size_t)R.Range(65530, 140000);
	else  switch (R.Below(4))
	{
		case 0:  n = (size_t)R.Below(30);  break;
		case 1:  n = (size_t)(8192 * R.Range(1, 4) + R.Range(-2, 2));  break;
		default:  n = R.Size(40000);  break;
	}
	return R.Bytes(n);
}
static FIO::Plan AnyPlan(H::Rng &R, bool &MayFail)
{
	static const int OpenErrs[] = { EMFILE, EACCES, ENFILE, EIO, ENOMEM, EPERM };
	FIO::Plan P;
	MayFail = false;
	if (R.Chance(1, 2))  { P.Eintr = (unsigned)R.Below(40); P.Short = (unsigned)R.Below(60); }
	if (R.Chance(1, 3))
	{
		MayFail = true;
		switch (R.Below(5))
		{
			case 0:  P.ReadErr = (long)R.Below(4);  break;
			case 1: case 2:  P.WriteErr = (long)R.Below(4);  break;
			case 3:  P.TruncErr = 0;  break;
			case 4:  P.OpenErr = OpenErrs[R.Below(6)]; P.OpenAt = (long)R.Below(2);  break;
		}
	}
	return P;
}
static struct stat St(const std::string &p) { struct stat s; memset(&s, 0, sizeof(s)); if (lstat(p.c_str(), &s))  memset(&s, 0, sizeof(s)); return s; }

static bool CanChown;
static void CopyCase(H::Rng &R)
{
	static const mode_t Modes[] = {0644, 0600, 0444, 0755, 0640, 0400, 04755, 0666};
	FIO::Wipe();
	std::string Data = Content(R), Old = R.Chance(1, 2) ? Content(R) : Data + Content(R);
	const char *Src = R.Chance(1, 6) ? "qu\xC3\xA9lle.txt" : "src", *Dst = R.Chance(1, 6) ? "\xE6\x96\x87\xE5\xAD\x97" : "dst";
	mode_t SrcMode = Modes[R.Below(8)];
	FIO::Spit(Src, Data, SrcMode);
	if (CanChown && R.Chance(1, 2) && (chown(Src, (uid_t)R.Below(4), (gid_t)R.Below(4)) || chmod(Src, SrcMode)))  H::HarnessError("no chown");
	if (R.Chance(1, 2))  { struct timespec t[2] = {{(time_t)R.Below(2000000000), 123456789}, {(time_t)(R.Chance(1, 6) ? -R.Range(1, 2000000000) : R.Chance(1, 4) ? R.Range(1ll << 31, 9ll << 30) : (long)R.Below(2000000000)), (long)R.Below(1000000000)}}; utimensat(AT_FDCWD, Src, t, 0); }
	enum { None, There, Link, Hard, Self, SelfLink, ADir, NoDir } Kind = (decltype(None))R.Below(8);
	if (Kind > Link && R.Chance(1, 2))  Kind = There;
	std::string DstName = Dst, Real = Dst;
	switch (Kind)
	{
		case There:  FIO::Spit(Dst, Old, R.Chance(1, 2) ? 0644 : 0600);  break;
		case Link:  FIO::Spit("real", Old); if (symlink("real", Dst))  {} Real = "real";  break;
		case Hard:  if (link(Src, Dst))  {}  break;
		case Self:  DstName = Src;  break;
		case SelfLink:  if (symlink(Src, Dst))  {}  break;
		case ADir:  mkdir(Dst, 0755);  break;
		case NoDir:  DstName = std::string("missing/") + Dst;  break;
		default:  break;
	}
	bool Move = R.Chance(1, 3), MayFail;
	int SrcKind = R.Chance(1, 15) ? (int)R.Range(1, 2) : 0;  // 1 missing, 2 a directory
	if (SrcKind && (Kind == Hard || Kind == Self || Kind == SelfLink))  SrcKind = 0;
	if (SrcKind)  { unlink(Src); if (SrcKind == 2)  mkdir(Src, 0755); }
	FIO::Plan P = AnyPlan(R, MayFail);
	bool Fallback = false;
	if (Move && R.Chance(2, 3))  { Fallback = true; P.RenameErr = R.Chance(2, 3) ? EXDEV : EACCES; if (R.Chance(1, 5))  { P.UnlinkErr = EACCES; } }
	int Locker = -1, LockOn = 0;
	if (!SrcKind && R.Chance(1, 8))
	{
		LockOn = R.Chance(1, 2) ? 1 : 2;
		std::string W = LockOn == 1 ? Src : Real;
		if (LockOn == 2 && Kind != There && Kind != Link)  LockOn = 0;
		else
		{
			Locker = open(W.c_str(), O_RDONLY | O_CLOEXEC);
			int Ex = LockOn == 1 ? LOCK_EX : R.Chance(1, 2) ? LOCK_EX : LOCK_SH;
			if (flock(Locker, Ex | LOCK_NB))  H::HarnessError("cannot lock");
		}
	}
	struct stat S0 = St(Src), D0 = St(DstName);
	Ev(H::Format("%s %s (%zu bytes, mode %o, kind %d) to %s (kind %d, %zu bytes) rename %d unlink %d lock %d", Move ? "move" : "copy", Src, Data.size(), S0.st_mode & 07777, SrcKind, DstName.c_str(), Kind, Old.size(), P.RenameErr, P.UnlinkErr, LockOn));
	FIO::Begin(P);
	bool Ok = Move ? File::Move(Src, DstName.c_str()) : File::Copy(Src, DstName.c_str());
	bool Err = FIO::S().Hard;
	FIO::End();
	Ev(Ok ? "ok" : "failed");
	if (Locker >= 0)  close(Locker);
	bool Renames = Move && !Fallback;
	bool Legit = !SrcKind && (Kind == None || Kind == There || Kind == Link || (Renames && (Kind == SelfLink || Kind == Self || Kind == Hard))) && !(LockOn && !Renames);
	if (Renames)
	{
		// The system's rename decides; only what success means is ours.
		if (Legit && !Ok)  Bad("failed", "moving a file failed");
		if (SrcKind == 1 && Ok)  Bad("success", "moving a missing file reported success");
		if (Ok && !SrcKind)
		{
			if (FIO::Slurp(DstName) != Data)  Bad("content", "the moved file has different content");
			if (Kind != Self && Kind != Hard && FIO::There(Src))  Bad("source-left", "the source is still there after a move");
		}
	}
	else
	{
		if (Ok && !Legit)  Bad("success", H::Format("%s reported success", Move ? "moving" : "copying"));
		if (Ok && Err)  Bad("error-hidden", "a system call failed on the way, but success was reported");
		if (!Ok && Legit && !Err)  Bad("failed", H::Format("%s a file failed", Move ? "moving" : "copying"));
		if (Ok)
		{
			std::string Got = FIO::Slurp(Real);
			if (Got != Data)  Bad("content", H::Format("the target has %zu bytes that differ from the %zu of the source", Got.size(), Data.size()));
			struct stat D1 = St(Real);
			if ((D1.st_mode & 07777) != (S0.st_mode & 07777))  Bad("mode", H::Format("the target's mode is %o, the source's %o", D1.st_mode & 07777, S0.st_mode & 07777));
			if (CanChown && (D1.st_uid != S0.st_uid || D1.st_gid != S0.st_gid))  Bad("owner", H::Format("the target belongs to %u:%u, the source to %u:%u", D1.st_uid, D1.st_gid, S0.st_uid, S0.st_gid));
			if (D1.st_mtime != S0.st_mtime)  Bad("time", "the target's modification time differs from the source's");
			H::Count(Move ? "moved" : "copied");
			H::Count("bytes", Data.size());
		}
		else  H::Count("failed");
		if (Move && Ok)
		{
			if (FIO::There(Src))  Bad("source-left", "the source is still there after a move");
		}
		else if (!SrcKind)
		{
			if (!FIO::There(Src))  Bad("source-gone", "the source is gone");
			if (FIO::Slurp(Src) != Data)  Bad("source-changed", "the source was changed");
			struct stat S1 = St(Src);
			if (S1.st_ino != S0.st_ino || S1.st_mode != S0.st_mode || S1.st_mtime != S0.st_mtime)  Bad("source-changed", "the source's attributes were changed");
		}
		if (LockOn && !SrcKind && (Kind == There || Kind == Link) && FIO::Slurp(Real) != Old)  Bad("locked-changed", "the target was changed although a lock forbids the copy");
	}
	(void)D0;
	FIO::Wipe();
}

struct Mgr { std::map<void *, size_t> Live; };
static void *MgrMalloc(void *m, size_t n) { void *p = malloc(n); ((Mgr *)m)->Live[p] = n; return p; }
static void MgrFree(void *m, void *p) { if (!p)  return; if (!((Mgr *)m)->Live.erase(p))  Bad("allocator", "memory was freed that the allocator does not own"); free(p); }
static void *MgrRealloc(void *m, void *p, size_t n)
{
	Mgr *M = (Mgr *)m;
	char *q = (char *)malloc(n);
	memset(q, 0xA5, n);
	if (p)
	{
		auto it = M->Live.find(p);
		if (it == M->Live.end())  Bad("allocator", "memory was resized that the allocator does not own");
		memcpy(q, p, std::min(n, it->second));
		M->Live.erase(it);
		free(p);
	}
	M->Live[q] = n;
	return q;
}

static void LoadCase(H::Rng &R)
{
	std::string Data = Content(R);
	FIO::Spit("load", Data);
	bool Missing = R.Chance(1, 15), MayFail, Alt = R.Chance(1, 2);
	if (Missing)  unlink("load");
	FIO::Plan P = AnyPlan(R, MayFail);
	static std::string Less;
	if (!Missing && !MayFail && Data.size() && R.Chance(1, 6))
	{
		// The file becomes smaller while it is read.
		Less = Data.substr(0, (size_t)R.Below(Data.size()));
		P.ShrinkAt = (long)R.Below(2);
		P.Shrink = [] { FIO::S().Hard = true; if (truncate("load", (off_t)Less.size()))  H::HarnessError("cannot truncate"); };
	}
	bool Shrinks = P.Shrink;
	Mgr M;
	char *Res = (char *)&M;
	size_t Got = 0xA5A5;
	Ev(H::Format("load %zu bytes%s", Data.size(), Alt ? " with an allocator" : ""));
	size_t Live0 = A::Live();
	bool Ok;
	FIO::Begin(P);
	{
		A::Scope Sc;
		Ok = Alt ? File::LoadEntireFile("load", Res, Got, &M, MgrMalloc, MgrFree) : File::LoadEntireFile("load", Res, Got);
	}
	bool Err = FIO::S().Hard;
	FIO::End();
	if (Shrinks && Err)  H::Count("shrunk-while-read");
	if (Ok && (Missing || (Err && !Shrinks)))  Bad("error-hidden", "a file that could not be read was loaded");
	if (!Ok && !Missing && !Err)  Bad("failed", "loading a file failed");
	if (Ok)
	{
		if (Shrinks && Err && Got == Less.size() && !memcmp(Res, Less.data(), Got))  H::Count("loaded-shrunk");
		else if (Got != Data.size() || memcmp(Res, Data.data(), Got))  Bad("content", H::Format("%zu bytes were loaded that differ from the file's %zu", Got, Data.size()));
		if (Alt)  MgrFree(&M, Res);
		else  delete[] Res;
		H::Count("loaded");
	}
	else
	{
		if (Res != NULL || Got)  Bad("failed-result", "a failed load left a result");
		H::Count("load-failed");
	}
	if (M.Live.size() || A::Live() != Live0)  Bad("leak", "loading a file leaked memory");
}

static void LineCase(H::Rng &R)
{
	std::string Data;
	size_t Hint = R.Chance(1, 8) ? 0 : R.Chance(1, 2) ? (size_t)R.Range(1, 12) : R.Size(3000);
	size_t N = R.Below(12);
	static const char *const Ends[] = {"\n", "\r", "\r\n", "\n\n", "\r\r", "\n\r", "\r\n\r\n", "\r\r\n"};
	for (size_t i = 0; i < N; i++)
	{
		size_t L = R.Chance(1, 3) ? (size_t)R.Below(4) : R.Chance(1, 2) ? (size_t)std::max<std::int64_t>(0, (std::int64_t)(Hint * R.Below(4)) + R.Range(-3, 3)) : R.Size(2500);
		std::string t = R.Bytes(std::min<size_t>(L, 9000));
		for (auto &c : t)  if (c == '\r' || c == '\n')  c = 'x';
		if (t.size() && R.Chance(1, 4))  t[R.Below(t.size())] = 0;
		Data += t;
		if (i + 1 < N || R.Chance(1, 2))  Data += Ends[R.Below(8)];
	}
	FIO::Spit("lines", Data);
	File F;
	if (!F.Open("lines", O_RDONLY))  Bad("failed", "opening failed");
	size_t Pos = 0, Lines = 0, Live0 = A::Live();
	bool Alt = R.Chance(1, 3), Faults = R.Chance(1, 2);
	FIO::Plan Soft;
	if (Faults)  { Soft.Eintr = (unsigned)R.Below(40); Soft.Short = (unsigned)R.Below(60); }
	Ev(H::Format("lines of %zu bytes, hint %zu", Data.size(), Hint));
	Mgr M;
	int Past = 0;
	while (Past < 2)
	{
		if (Pos == Data.size())  Past++;
		size_t e = Pos;
		std::string Want;
		while (e < Data.size() && Data[e] != '\r' && Data[e] != '\n')  { Want += Data[e] ? Data[e] : ' '; e++; }
		size_t Next = e < Data.size() ? e + 1 : e;
		if (e + 1 < Data.size() && Data[e] == '\r' && Data[e + 1] == '\n')  Next++;
		FIO::Plan P = Soft;
		if (Faults && R.Chance(1, 8))  P.ReadErr = (long)R.Below(3);
		FIO::Begin(P);
		char *L;
		{
			A::Scope Sc;
			L = Alt ? F.LineInput(Hint, &M, MgrRealloc) : Hint == 1024 ? F.LineInput() : F.LineInput(Hint);
		}
		bool Err = FIO::S().Hard;
		FIO::End();
		if (Err)
		{
			if (L)  Bad("error-hidden", H::Format("a line that could not be read was returned as %zu characters", strlen(L)));
			if (F.GetCurrPos() != Pos)  Bad("line-position", "a failed line read moved the position");
			H::Count("lines-failed");
			if (Alt)  { for (auto &x : M.Live)  free(x.first); M.Live.clear(); }
			continue;
		}
		if (!L)  Bad("failed", "reading a line failed");
		if (Want != L)  Bad("line", H::Format("line %zu has %zu characters, not %zu, or differs", Lines, strlen(L), Want.size()));
		if (F.GetCurrPos() != Next)  Bad("line-position", H::Format("after line %zu the position is %llu, not %zu", Lines, (unsigned long long)F.GetCurrPos(), Next));
		if (Alt)
		{
			if (M.Live.size() != 1 || !M.Live.count(L))  Bad("allocator", "the line is not the one block the allocator handed out");
			free(L);
			M.Live.clear();
		}
		else  delete[] L;
		Pos = Next;
		Lines++;
		H::Count("lines");
	}
	if (A::Live() != Live0)  Bad("leak", "reading lines leaked memory");
}

static void HugeCase(H::Rng &R);
static void RunCase(H::Rng &R, std::uint64_t Case)
{
	CL::LogReset();
	FIO::End();
	FIO::S().R = H::Rng(R.Next());
	A::Reset();
	if (Case % 60000 == 7)  HugeCase(R);
	else  for (int i = 0; i < 3; i++)
	{
		switch (R.Below(4))
		{
			case 0: case 1:  CopyCase(R);  break;
			case 2:  LoadCase(R);  break;
			case 3:  LineCase(R);  break;
		}
	}
	if (FIO::S().Fds.size())  Bad("descriptor-leak", "a descriptor remains open");
	H::Count("interruptions", FIO::S().NEintr);
	H::Count("partial-transfers", FIO::S().NShort);
	H::Count("errors-injected", FIO::S().NHard);
	FIO::S().NEintr = FIO::S().NShort = FIO::S().NHard = 0;
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(6));
}

// Files beyond what 31 or 32 bits can count.  Only what is not zero is really transferred.
static void *BigMalloc(void *m, size_t n)
{
	void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED)  return NULL;
	((Mgr *)m)->Live[p] = n;
	FIO::S().ZeroMem = {p, n};
	return p;
}
static void BigFree(void *m, void *p)
{
	auto it = ((Mgr *)m)->Live.find(p);
	if (it == ((Mgr *)m)->Live.end())  Bad("allocator", "memory was freed that the allocator does not own");
	munmap(p, it->second);
	FIO::S().ZeroMem = {NULL, 0};
	((Mgr *)m)->Live.erase(it);
}
static void HugeCase(H::Rng &R)
{
	FIO::Wipe();
	std::uint64_t Size = (1ull << 32) + 6000 + R.Below(100000);
	std::vector<std::pair<off_t, std::string>> Want;
	for (unsigned long long At : {(unsigned long long)R.Below(50000), (1ull << 31) - R.Below(5000) - 6000, (1ull << 32) - 1 - R.Below(3000)})
	{
		std::string d = R.Bytes(1 + (size_t)R.Below(5000));
		for (auto &c : d)  if (!c)  c = 1;
		if (At + d.size() > Size)  d.resize((size_t)(Size - At));
		Want.push_back({(off_t)At, d});
	}
	if (R.Chance(1, 2))  Want.push_back({(off_t)Size - 1, "z"});
	auto Make = [&](const char *Name) {
		int fd = open(Name, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
		if (fd < 0 || ftruncate(fd, (off_t)Size))  { if (fd >= 0)  close(fd); unlink(Name); return false; }
		for (auto &w : Want)  if (pwrite(fd, w.second.data(), w.second.size(), w.first) != (ssize_t)w.second.size())  H::HarnessError("cannot set up");
		close(fd);
		return true;
	};
	if (!Make("huge"))  { H::Count("no-huge-files"); return; }
	FIO::S().Islands.clear();
	for (auto &w : Want)  FIO::S().Islands.push_back({w.first, w.first + (off_t)w.second.size()});
	std::sort(FIO::S().Islands.begin(), FIO::S().Islands.end());
	bool Move = R.Chance(1, 3);
	FIO::Plan P;
	if (Move)  P.RenameErr = EXDEV;
	if (R.Chance(1, 2))  FIO::Spit("huge2", R.Bytes(R.Size(20000)));
	Ev(H::Format("%s %llu bytes", Move ? "move" : "copy", (unsigned long long)Size));
	FIO::Begin(P);
	FIO::S().Virtual = true;
	bool Ok = Move ? File::Move("huge", "huge2") : File::Copy("huge", "huge2");
	FIO::S().Virtual = false;
	FIO::End();
	if (!Ok)  Bad("failed", "copying a very large file failed");
	struct stat st = St("huge2");
	if ((std::uint64_t)st.st_size != Size)  Bad("content", H::Format("the target has %llu bytes, the source %llu", (unsigned long long)st.st_size, (unsigned long long)Size));
	int fd = open("huge2", O_RDONLY | O_CLOEXEC);
	for (auto &w : Want)
	{
		std::string Got(w.second.size() + 2, '?');
		off_t From = w.first ? w.first - 1 : 0;
		ssize_t n = pread(fd, &Got[0], Got.size(), From);
		std::string Exp = (w.first ? std::string(1, '\0') : std::string()) + w.second + std::string(2, '\0');
		if (n < (ssize_t)(Exp.size() - 2) || memcmp(Got.data(), Exp.data(), Exp.size() - 2))  Bad("content", H::Format("a very large target differs at %lld", (long long)w.first));
	}
	close(fd);
	if (Move && FIO::There("huge"))  Bad("source-left", "the source is still there after a move");
	unlink("huge2");
	if (Move && !Make("huge"))  H::HarnessError("cannot set up");
	H::Count("huge-copied");

	Mgr M;
	char *Res = NULL;
	size_t Got = 0;
	FIO::Begin();
	FIO::S().Virtual = true;
	Ok = File::LoadEntireFile("huge", Res, Got, &M, BigMalloc, BigFree);
	FIO::S().Virtual = false;
	FIO::End();
	if (!Ok)  Bad("failed", "loading a very large file failed");
	if (Got != Size)  Bad("content", H::Format("%zu of %llu bytes were loaded", Got, (unsigned long long)Size));
	for (auto &w : Want)  if (memcmp(Res + w.first, w.second.data(), w.second.size()))  Bad("content", H::Format("a very large file differs at %lld", (long long)w.first));
	BigFree(&M, Res);
	H::Count("huge-loaded");

	// Lines far behind the start.
	{
		fd = open("huge", O_RDWR | O_CLOEXEC);
		std::uint64_t At = (R.Chance(1, 2) ? 1ull << 31 : 1ull << 32) - R.Below(300);
		std::vector<std::string> Lines;
		std::string All;
		for (int i = 0; i < 8; i++)  { std::string l((size_t)R.Below(200), (char)('a' + i)); Lines.push_back(l); All += l; All += R.Chance(1, 3) ? "\r\n" : "\n"; }
		if (ftruncate(fd, (off_t)At) || pwrite(fd, All.data(), All.size(), (off_t)At) != (ssize_t)All.size())  H::HarnessError("cannot set up");
		close(fd);
		File F;
		if (!F.Open("huge", O_RDONLY) || !F.Seek(File::SeekStart, At) || F.GetCurrPos() != At)  Bad("failed", "opening a very large file failed");
		size_t Hint = 1 + (size_t)R.Below(100);
		for (size_t i = 0; i < Lines.size(); i++)
		{
			if (R.Chance(1, 4))
			{
				FIO::Plan Q;
				Q.ReadErr = 0;
				FIO::Begin(Q);
				char *l = F.LineInput(Hint);
				FIO::End();
				if (l)  Bad("error-hidden", "a line was returned although reading failed");
			}
			char *l = F.LineInput(Hint);
			if (!l || Lines[i] != l)  Bad("line", H::Format("line %zu far behind the start of the file differs", i));
			delete[] l;
		}
	}
	unlink("huge");
	H::Count("huge-lines", 8);
}
static void Init() { FIO::Init(); A::Install(); FIO::Spit("t", "x"); CanChown = !chown("t", 1, 1) && !chown("t", 0, 0); unlink("t"); }
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, Init); }
