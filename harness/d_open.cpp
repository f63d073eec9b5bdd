// C30: several handles on several files: what opens, what is locked, what remains; and changes of file attributes.
#include "faultio.h"
#include "utf8/utf8_file_dir.h"
#include <grp.h>
#include <memory>
#include <pwd.h>
using CubicleSoft::UTF8::File;
using namespace CL;

static const char *const Paths[] = { "a", "b", "c", "link-a", "link-new", "link-dangling", "dir", "dir/x", "dir/y", "none/x", "a/x", "hard-b", "loop" };
enum { NP = 13 };

struct Handle
{
	File *F = NULL;
	void *Room = NULL;
	bool Open = false, Ex = false;
	int Acc = 0;
	dev_t Dev = 0;
	ino_t Ino = 0;
};
struct Raw { int fd; bool Ex; ino_t Ino; };

struct World
{
	H::Rng &R;
	std::vector<Handle> Hs;
	std::vector<Raw> Raws;
	size_t Base;
	unsigned Opened = 0, Umask = 022;
	explicit World(H::Rng &r) : R(r) { }
	void Make(Handle &h)
	{
		h.Room = malloc(sizeof(File));
		memset(h.Room, 0xA5, sizeof(File));
		h.F = new (h.Room) File;
		h.Open = false;
	}
	void Drop(Handle &h) { h.F->~File(); free(h.Room); h.F = NULL; h.Open = false; }
	// What is locked on this file: 0 nothing, 1 shared, 2 exclusively.
	int Held(ino_t i, const Handle *But = NULL)
	{
		int r = 0;
		for (auto &h : Hs)  if (&h != But && h.Open && h.Ino == i)  r = std::max(r, h.Ex ? 2 : 1);
		for (auto &w : Raws)  if (w.Ino == i)  r = std::max(r, w.Ex ? 2 : 1);
		return r;
	}
	static std::string State()
	{
		std::string r;
		for (int i = 0; i < NP; i++)
		{
			struct stat st;
			if (lstat(Paths[i], &st))  { r += std::string(Paths[i]) + ": none\n"; continue; }
			r += H::Format("%s: %o %ld %lu", Paths[i], (unsigned)st.st_mode, S_ISREG(st.st_mode) ? (long)st.st_size : 0L, (unsigned long)st.st_ino);
			if (S_ISREG(st.st_mode))  r += " " + H::Escape(FIO::Slurp(Paths[i]), 5000);
			r += "\n";
		}
		return r;
	}
	// Are the locks and descriptors exactly those of the open handles?
	void Probe()
	{
		size_t n = 0;
		for (auto &h : Hs)
		{
			if (h.F && h.F->IsOpen() != h.Open)  Bad("is-open", h.Open ? "an open file says it is closed" : "a closed file says it is open");
			if (h.Open)  n++;
		}
		if (FIO::OpenFds() != Base + n + Raws.size())  Bad("descriptors", H::Format("%zu descriptors for %zu open files", FIO::OpenFds() - Base - Raws.size(), n));
		for (int x : FIO::S().Fds)
		{
			int f = fcntl(x, F_GETFD);
			if (f >= 0 && !(f & FD_CLOEXEC))  Bad("inherited", "an open file and its lock would be passed on to every program started meanwhile");
		}
		for (int i = 0; i < NP; i++)
		{
			struct stat st;
			if (stat(Paths[i], &st) || !(S_ISREG(st.st_mode) || S_ISDIR(st.st_mode)))  continue;
			int fd = open(Paths[i], O_RDONLY | O_CLOEXEC);
			if (fd < 0)  continue;
			int Want = Held(st.st_ino);
			bool Sh = !flock(fd, LOCK_SH | LOCK_NB);
			if (Sh)  flock(fd, LOCK_UN);
			bool Ex = !flock(fd, LOCK_EX | LOCK_NB);
			close(fd);
			if (Sh != (Want < 2) || Ex != (Want < 1))  Bad("locks", H::Format("%s can be locked shared %d and exclusively %d, although open handles hold it %s", Paths[i], Sh, Ex, Want == 2 ? "exclusively" : Want ? "shared" : "not at all"));
		}
		H::Count("probes");
	}
	void DoOpen(Handle &h)
	{
		const char *P = Paths[R.Chance(3, 4) ? R.Below(4) : R.Below(NP)];
		static const int Accs[] = { O_RDONLY, O_WRONLY, O_RDWR, O_RDWR, O_RDONLY };
		int Acc = R.Chance(1, 30) ? O_ACCMODE : Accs[R.Below(5)], Flags = Acc;
		if (R.Chance(1, 2))  Flags |= O_CREAT;
		if (R.Chance(1, 5))  Flags |= O_EXCL;
		if (Acc != O_RDONLY && R.Chance(1, 3))  Flags |= O_TRUNC;
		if (R.Chance(1, 6))  Flags |= O_APPEND;
		if ((Flags & O_EXCL) && !(Flags & O_CREAT))  Flags &= ~O_EXCL;  // Undefined.
		File::ShareType Share = R.Chance(1, 2) ? File::ShareBoth : (File::ShareType)R.Range(File::ShareBoth, File::ShareNone);
		static const int Modes[] = { 0666, 0600, 0644, 0777, 0400, 0 };
		int Mode = Modes[R.Below(6)];
		bool Default = R.Chance(1, 6);
		if (Default)  { Share = File::ShareBoth; Mode = 0666; }
		FIO::Plan Plan;
		unsigned Inject = (unsigned)R.Below(12);
		static const int LockErrs[] = { EWOULDBLOCK, ENOLCK, EINTR, EIO, EINVAL, ENOSYS }, OpenErrs[] = { EMFILE, EACCES, ENFILE, ENOSPC, EROFS, EIO, ENOMEM, ENXIO, ETXTBSY, EPERM };
		if (Inject == 0)  { Plan.FlockErr = 0; Plan.FlockErrno = LockErrs[R.Below(6)]; }
		if (Inject == 1)  Plan.TruncErr = 0;
		if (Inject == 2)  { Plan.OpenErr = OpenErrs[R.Below(10)]; Plan.OpenAt = 0; }
		// What the file system says.
		struct stat st, lst;
		bool LExists = !lstat(P, &lst), Exists = !stat(P, &st);
		std::string Before = State();
		FIO::Begin(Plan);
		bool Ok = Default ? h.F->Open(P, Flags) : Mode == 0666 && R.Chance(1, 2) ? h.F->Open(P, Flags, Share) : h.F->Open(P, Flags, Share, Mode);
		bool Hard = FIO::S().Hard;
		FIO::End();
		h.Open = false;  // Whatever it had open before is closed first.
		static const char *const Shares[] = { "both", "read", "write", "none" };
		Ev(H::Format("handle %d opens %s flags %o share %s mode %o fault %u: %d", (int)(&h - &Hs[0]), P, (unsigned)Flags, Shares[Share], (unsigned)Mode, Hard ? Inject : 99, Ok));
		bool Write = Acc == O_WRONLY || Acc == O_RDWR, Created = false, Can = true;
		const char *Why = "";
		if (Acc == O_ACCMODE)  { Can = false; Why = "the access mode is invalid"; }
		else if ((Flags & O_EXCL) && LExists)  { Can = false; Why = "the file exists already"; }
		else if (!Exists)
		{
			std::string p = P;
			bool Parent = p != "none/x" && p != "a/x" && p != "loop";
			if (p == "link-dangling")  Parent = false;
			if (p == "a/x")  Parent = false;
			if (!(Flags & O_CREAT) || !Parent)  { Can = false; Why = "the file does not exist"; }
			else  Created = true;
		}
		else if (S_ISDIR(st.st_mode) && (Write || (Flags & O_CREAT)))  { Can = false; Why = "it is a directory"; }
		if (Can && !Created && Held(st.st_ino) > (Share == File::ShareBoth ? 1 : 0))  { Can = false; Why = "another handle has it locked"; }
		if (Hard)
		{
			// A system call failed.  (One the open could do without may be survived.)
			H::Count("faulted-opens");
			if (Ok && Inject == 2)  Bad("open-result", "an open succeeded that the system refused");
			if (Ok && Inject == 0 && Plan.FlockErrno != EINTR)  Bad("open-result", "an open succeeded without its lock");
			if (Ok && Inject == 1)
			{
				struct stat z;
				if (!stat(P, &z) && S_ISREG(z.st_mode) && z.st_size)  Bad("open-result", "an open that could not empty the file succeeded");
			}
			if (!Can && Ok)  Bad("open-result", std::string("an open succeeded although ") + Why);
		}
		else if (Ok != Can)  Bad("open-result", Can ? std::string("an open failed: ") + P : std::string("an open succeeded although ") + Why);
		if (!Ok)
		{
			std::string Now = State();
			if (Now != Before && !Created)  Bad("failed-open-changed", "a failed open changed the files\nfrom " + Before + "to " + Now);
			std::uint8_t b[4] = { 1, 2, 3, 4 };
			size_t k = 77;
			if (h.F->Read(b, 4, k))  Bad("closed-read", "a file that did not open can be read");
			k = 77;
			if (h.F->Write(b, 4, k))  Bad("closed-write", "a file that did not open can be written");
			H::Count("opens-refused");
			return;
		}
		Opened++;
		H::Count("opens-granted");
		if (stat(P, &st))  Bad("open-result", std::string("an open succeeded but there is no ") + P);
		h.Open = true;
		h.Ex = Share != File::ShareBoth;
		h.Acc = Acc;
		h.Ino = st.st_ino;
		if (Created && ((st.st_mode & 0777) != ((unsigned)Mode & ~Umask)))  Bad("created-mode", H::Format("%s was created with mode %o instead of %o", P, (unsigned)(st.st_mode & 0777), (unsigned)Mode & ~Umask));
		if ((Created || (Write && (Flags & O_TRUNC))) && S_ISREG(st.st_mode) && st.st_size)  Bad("not-empty", std::string("a new or emptied file has content: ") + P);
		if (!Created && !(Write && (Flags & O_TRUNC)))
		{
			if (State() != Before)  Bad("open-changed", std::string("opening an existing file changed something: ") + P);
		}
		if (S_ISREG(st.st_mode))
		{
			if (h.F->GetMaxPos() != (std::uint64_t)st.st_size)  Bad("size", H::Format("an open file of %ld bytes says %llu", (long)st.st_size, (unsigned long long)h.F->GetMaxPos()));
			std::string Was = FIO::Slurp(P);
			std::uint8_t b[3] = { 'x', 'y', 'z' };
			size_t k = 0;
			if (Acc == O_WRONLY && h.F->Read(b, 3, k))  Bad("access", "a file opened for writing can be read");
			if (Acc == O_RDONLY && h.F->Write(b, 3, k))  Bad("access", "a file opened for reading can be written");
			if (FIO::Slurp(P) != Was)  Bad("access", "a refused write changed the file");
			if (Write && R.Chance(1, 2))
			{
				std::uint8_t d[3] = { (std::uint8_t)R.Range('a', 'z'), (std::uint8_t)R.Range('a', 'z'), 'q' };
				if (!h.F->Write(d, 3, k) || k != 3)  Bad("write", "a write to a newly opened file failed");
				std::string Now = FIO::Slurp(P), Want = Was;
				if (Flags & O_APPEND)  Want += std::string((char *)d, 3);
				else
				{
					if (Want.size() < 3)  Want.resize(3);
					Want.replace(0, 3, std::string((char *)d, 3));
				}
				if (Now != Want)  Bad("write", "a write to a newly opened file went wrong");
			}
			if (Acc != O_WRONLY && R.Chance(1, 2))
			{
				std::string All = FIO::Slurp(P);
				h.F->Seek(File::SeekStart, 0);
				std::vector<std::uint8_t> c(All.size() + 4);
				k = 0;
				if (All.size() && (!h.F->Read(c.data(), c.size(), k) || k != All.size() || memcmp(c.data(), All.data(), k)))  Bad("read", "an open file does not read as its content");
			}
		}
	}
	void Step()
	{
		switch (R.Below(8))
		{
			case 0:
			{
				// Somebody else opens and locks a file, or lets go.
				if (Raws.size() < 2 && R.Chance(1, 2))
				{
					Raw w;
					const char *P = Paths[R.Below(4)];
					w.fd = open(P, O_RDONLY | O_CLOEXEC);
					if (w.fd < 0)  break;
					w.Ex = R.Chance(1, 2);
					struct stat st;
					fstat(w.fd, &st);
					w.Ino = st.st_ino;
					if (flock(w.fd, (w.Ex ? LOCK_EX : LOCK_SH) | LOCK_NB))  { close(w.fd); break; }
					Raws.push_back(w);
					Ev(H::Format("%s locked from outside %s", P, w.Ex ? "exclusively" : "shared"));
				}
				else if (Raws.size())
				{
					close(Raws.back().fd);
					Raws.pop_back();
					Ev("outside lock released");
				}
				break;
			}
			case 1:  case 2:
			{
				Handle &h = Hs[(size_t)R.Below(Hs.size())];
				if (!h.F)  break;
				bool Was = h.Open;
				bool Ok = h.F->Close();
				h.Open = false;
				Ev(H::Format("handle %d closed", (int)(&h - &Hs[0])));
				if (Was && !Ok)  Bad("close", "closing an open file failed");
				break;
			}
			case 3:
			{
				Handle &h = Hs[(size_t)R.Below(Hs.size())];
				Drop(h);
				Ev(H::Format("handle %d destroyed", (int)(&h - &Hs[0])));
				Make(h);
				break;
			}
			default:  DoOpen(Hs[(size_t)R.Below(Hs.size())]);  break;
		}
		Probe();
	}
};

struct Attr
{
	struct stat S;
	std::string C;
	explicit Attr(const char *P) { if (lstat(P, &S))  H::HarnessError("no %s", P); if (S_ISREG(S.st_mode))  C = FIO::Slurp(P); if (lstat(P, &S))  H::HarnessError("no %s", P); }
};
static std::string Diff(const Attr &a, const Attr &b, bool Times = true)
{
	std::string r;
	if (a.S.st_mode != b.S.st_mode)  r += H::Format(" mode %o/%o", (unsigned)a.S.st_mode, (unsigned)b.S.st_mode);
	if (a.S.st_uid != b.S.st_uid)  r += H::Format(" owner %u/%u", a.S.st_uid, b.S.st_uid);
	if (a.S.st_gid != b.S.st_gid)  r += H::Format(" group %u/%u", a.S.st_gid, b.S.st_gid);
	if (a.S.st_size != b.S.st_size || a.C != b.C)  r += " content";
	if (a.S.st_ino != b.S.st_ino)  r += " file";
	if (Times && (a.S.st_mtim.tv_sec != b.S.st_mtim.tv_sec || a.S.st_mtim.tv_nsec != b.S.st_mtim.tv_nsec))  r += H::Format(" modification time %lld.%09ld/%lld.%09ld", (long long)a.S.st_mtim.tv_sec, a.S.st_mtim.tv_nsec, (long long)b.S.st_mtim.tv_sec, b.S.st_mtim.tv_nsec);
	if (Times && (a.S.st_atim.tv_sec != b.S.st_atim.tv_sec || a.S.st_atim.tv_nsec != b.S.st_atim.tv_nsec))  r += H::Format(" access time %lld.%09ld/%lld.%09ld", (long long)a.S.st_atim.tv_sec, a.S.st_atim.tv_nsec, (long long)b.S.st_atim.tv_sec, b.S.st_atim.tv_nsec);
	return r;
}
static std::vector<std::string> Users, Groups;
static bool CanChown;
// Reading the content for the comparison must not move the access time: set it again afterwards.
static void SetTimes(const char *P, const struct timespec *t) { utimensat(AT_FDCWD, P, t, AT_SYMLINK_NOFOLLOW); }
static void Meta(H::Rng &R)
{
	FIO::Spit("m", R.Bytes((size_t)R.Below(60)), (mode_t)R.Below(01000));
	FIO::Spit("m2", "other", 0640);
	mkdir("md", 0755);
	if (symlink("m", "ml"))  H::HarnessError("no link");
	if (CanChown && R.Chance(1, 2) && chown("m", (uid_t)R.Below(3), (gid_t)R.Below(3)))  H::HarnessError("no chown");
	unsigned n = (unsigned)R.Below(6) + 1;
	for (unsigned i = 0; i < n; i++)
	{
		struct timespec T[2];
		for (auto &t : T)  { t.tv_sec = (time_t)R.Below(4000000000u); t.tv_nsec = (long)R.Below(1000000000u); }
		unsigned PK = (unsigned)R.Below(8);
		const char *P = PK == 0 ? "md" : PK == 1 ? "ml" : PK == 2 ? "gone" : "m";
		const char *Real = PK == 1 ? "m" : P;
		bool There = PK != 2;
		SetTimes("m", T);
		SetTimes("m2", T);
		SetTimes("md", T);
		struct stat S0, S2, L0;
		memset(&S0, 0, sizeof(S0));
		std::string C0;
		if (There && PK != 0)  { C0 = FIO::Slurp("m"); SetTimes("m", T); }
		if (There)  stat(Real, &S0);
		lstat("ml", &L0);
		stat("m2", &S2);
		unsigned K = (unsigned)R.Below(4);
		bool Ok;
		struct stat W = S0;
		bool Expect = There;
		std::string What;
		if (K == 0)
		{
			int Mode = (int)R.Below(R.Chance(1, 4) ? 010000 : 01000);
			What = H::Format("chmod %s %o", P, (unsigned)Mode);
			Ok = File::Chmod(P, Mode);
			W.st_mode = (S0.st_mode & (mode_t)S_IFMT) | (mode_t)Mode;
		}
		else if (K == 1 || K == 2)
		{
			std::vector<std::string> &Names = K == 1 ? Users : Groups;
			std::string N = R.Chance(1, 8) ? "no-such-name" : R.Chance(1, 8) ? "" : R.Pick(Names);
			if (S0.st_mode & 06000)  { chmod(Real, S0.st_mode & 0777); stat(Real, &S0); W = S0; }
			What = H::Format("%s %s to \"%s\"", K == 1 ? "chown" : "chgrp", P, N.c_str());
			Ok = K == 1 ? File::Chown(P, N.c_str()) : File::Chgrp(P, N.c_str());
			if (K == 1)  { struct passwd *u = getpwnam(N.c_str()); if (u)  W.st_uid = u->pw_uid; else  Expect = false; }
			else  { struct group *g = getgrnam(N.c_str()); if (g)  W.st_gid = g->gr_gid; else  Expect = false; }
			if (!CanChown && Expect)  { H::Count("no-chown"); continue; }
		}
		else
		{
			auto Time = [&]() { return R.Chance(1, 3) ? R.Below(4000000000u) * 1000000ull + (R.Chance(1, 2) ? 999999 : 0) : R.Below(4000000000000000ull); };
			std::uint64_t c = Time(), a = Time(), u = Time();
			bool Hc = R.Chance(1, 3), Ha = R.Chance(2, 3), Hu = R.Chance(2, 3);
			What = H::Format("times of %s: access %s, update %s", P, Ha ? std::to_string(a).c_str() : "kept", Hu ? std::to_string(u).c_str() : "kept");
			std::uint64_t a0 = a, u0 = u;
			Ok = File::SetFileTimes(P, Hc ? &c : NULL, Ha ? &a : NULL, Hu ? &u : NULL);
			if (a != a0 || u != u0)  Bad("arguments", "setting times changed the arguments");
			if (Ha)  { W.st_atim.tv_sec = (time_t)(a / 1000000); W.st_atim.tv_nsec = (long)(a % 1000000) * 1000; }
			if (Hu)  { W.st_mtim.tv_sec = (time_t)(u / 1000000); W.st_mtim.tv_nsec = (long)(u % 1000000) * 1000; }
		}
		Ev(What + (Ok ? ": 1" : ": 0"));
		if (Ok != Expect)  Bad("attribute-result", What + (Ok ? " succeeded" : " failed"));
		struct stat Now;
		if (There)
		{
			if (!Ok)  W = S0;
			stat(Real, &Now);
			Attr A0(Real), A1(Real);
			A0.S = W;
			A1.S = Now;
			A0.C = A1.C;
			std::string d = Diff(A0, A1);
			if (!d.empty())  Bad("attributes", What + ": expected/found" + d);
			if (PK != 0 && FIO::Slurp("m") != C0)  Bad("attributes", What + " changed the content");
		}
		else if (FIO::There("gone"))  Bad("attributes", What + " created a file");
		struct stat X;
		stat("m2", &X);
		if (X.st_mode != S2.st_mode || X.st_uid != S2.st_uid || X.st_gid != S2.st_gid || memcmp(&X.st_mtim, &S2.st_mtim, sizeof(X.st_mtim)) || memcmp(&X.st_atim, &S2.st_atim, sizeof(X.st_atim)))  Bad("attributes", What + " changed another file");
		lstat("ml", &X);
		if (X.st_uid != L0.st_uid || X.st_gid != L0.st_gid || memcmp(&X.st_mtim, &L0.st_mtim, sizeof(X.st_mtim)))  Bad("attributes", What + " changed the link itself");
		H::Count("attribute-changes");
	}
	for (const char *x : { "m", "m2", "ml" })  unlink(x);
	rmdir("md");
}
static void RunCase(H::Rng &R, std::uint64_t)
{
	LogReset();
	FIO::S().R = H::Rng(R.Next());
	umask(022);
	// The sanitizer's own thread may hold descriptor 0 for a moment.
	for (int i = 0; fcntl(0, F_GETFD) == -1; i++)
	{
		int f = open("/dev/null", O_RDONLY);
		if (f < 0 || i > 1000)  H::HarnessError("no standard input");
		if (f > 0)  { close(f); usleep(100); }
	}
	if (R.Chance(1, 4))
	{
		Meta(R);
		H::Sig(LogSig);
		if (H::WantSample())  H::Sample(Tail(8));
		return;
	}
	for (const char *x : { "a", "b" })  FIO::Spit(x, R.Bytes((size_t)R.Below(20)), 0644);
	mkdir("dir", 0755);
	FIO::Spit("dir/x", "in the directory");
	if (symlink("a", "link-a") || symlink("c", "link-new") || symlink("nowhere/x", "link-dangling") || symlink("loop", "loop") || link("b", "hard-b"))  H::HarnessError("no links");
	{
		static const unsigned Umasks[] = { 022, 022, 0, 077, 027 };
		World W(R);
		// The program may have closed its standard input: then the first file opened gets descriptor 0.
		if (R.Chance(1, 3))  { close(0); Ev("no standard input"); H::Count("descriptor-0-free"); }
		W.Umask = Umasks[R.Below(5)];
		umask(W.Umask);
		W.Base = FIO::OpenFds();
		W.Hs.resize((size_t)R.Below(4) + 1);
		for (auto &h : W.Hs)  W.Make(h);
		for (unsigned n = (unsigned)R.Below(14) + 3; n; n--)  W.Step();
		for (auto &w : W.Raws)  close(w.fd);
		W.Raws.clear();
		for (auto &h : W.Hs)  W.Drop(h);
		if (FIO::OpenFds() != W.Base)  Bad("descriptors", "a file remains open after its object was destroyed");
		umask(022);
		if (W.Opened)  H::Sig(LogSig);
	}
	if (H::WantSample())  H::Sample(Tail(10));
	for (const char *x : { "a", "b", "c", "link-a", "link-new", "link-dangling", "loop", "hard-b", "dir/x", "dir/y" })  unlink(x);
	rmdir("dir");
	FIO::Wipe();
}
static void Init()
{
	umask(022);
	FIO::Init();
	setpwent();
	while (struct passwd *p = getpwent())  if (Users.size() < 12)  Users.push_back(p->pw_name);
	endpwent();
	setgrent();
	while (struct group *g = getgrent())  if (Groups.size() < 40)  Groups.push_back(g->gr_name);
	endgrent();
	if (Users.empty())  Users.push_back("root");
	if (Groups.empty())  Groups.push_back("root");
	FIO::Spit("t", "");
	CanChown = !chown("t", 1, 1) && !chown("t", 0, 0);
	unlink("t");
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, Init); }
