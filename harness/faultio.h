// Stand-ins for the system calls the file code makes: they pass the call on to the real file system, but inject
// interruptions, partial transfers and errors, count what was transferred, and refuse anything that would change
// the file system outside the scratch directory.
#ifndef VERIF_FAULTIO_H
#define VERIF_FAULTIO_H
#include "contlib.h"
#include <cerrno>
#include <dirent.h>
#include <set>
#include <sys/file.h>
#include <sys/stat.h>

namespace FIO
{
	inline unsigned long &Syncs() { static unsigned long n; return n; }     // requests to commit data to the disk
	struct Plan
	{
		unsigned Eintr = 0, Short = 0;              // percent of reads and writes
		long ReadErr = -1, WriteErr = -1;           // this many more calls, then one hard error
		long TruncErr = -1, SeekErr = -1, FlockErr = -1;
		int RenameErr = 0, UnlinkErr = 0, OpenErr = 0;
		int FlockErrno = EWOULDBLOCK;
		long ShrinkAt = -1;                         // this many more reads, then the file is made smaller
		void (*Shrink)() = NULL;
		long OpenAt = -1;                           // this many more opens, then OpenErr
	};
	struct State
	{
		Plan P;
		H::Rng R;
		size_t Read = 0, Written = 0;               // bytes really transferred since Begin()
		bool Hard = false;                          // a hard error was injected since Begin()
		std::uint64_t NEintr = 0, NShort = 0, NHard = 0, NCalls = 0;
		bool Virtual = false;                       // very large files: zeros are skipped instead of transferred
		std::vector<std::pair<off_t, off_t>> MemIslands; // what is not zero in the very large block of memory
		std::pair<void *, size_t> ZeroMem;          // memory fresh from the system, where they need not even be stored
		std::map<int, off_t> High;                  // how far such a file reaches
		std::vector<std::pair<off_t, off_t>> Islands;   // what of the file read from is not zero
		std::set<int> Fds;                          // descriptors the library holds
		std::vector<std::string> Removed;           // what was removed, in order
		std::string Root;                           // only paths below may be changed
	};
	inline State &S() { static State s; return s; }
	inline void Begin(const Plan &P = Plan()) { State &s = S(); s.P = P; s.Read = s.Written = 0; s.Hard = false; s.Removed.clear(); }
	inline void End() { S().P = Plan(); }
	inline bool Hit(long &n)
	{
		if (n < 0)  return false;
		if (n-- > 0)  return false;
		S().Hard = true;
		S().NHard++;
		return true;
	}
	// Would a change to this path stay inside the scratch directory?  Judged on the path as the kernel would resolve its directory.
	inline bool Inside(const char *Path)
	{
		const std::string &Root = S().Root;
		std::string p = Path ? Path : "";
		while (p.size() > 1 && p.back() == '/')  p.pop_back();
		size_t k = p.rfind('/');
		std::string Parent = k == std::string::npos ? "." : k ? p.substr(0, k) : "/", Last = k == std::string::npos ? p : p.substr(k + 1);
		char *Real = realpath(Parent.c_str(), NULL);
		if (!Real)  return true;  // The call fails by itself.
		std::string r = Real;
		free(Real);
		if (Last == ".." || Last == "." || Last.empty())
		{
			Real = realpath(p.c_str(), NULL);
			if (!Real)  return true;
			r = Real;
			free(Real);
			return r.size() > Root.size() && r.compare(0, Root.size() + 1, Root + "/") == 0;
		}
		return r == Root || r.compare(0, Root.size() + 1, Root + "/") == 0;
	}
	inline void Guard(const char *What, const char *Path)
	{
		if (!Inside(Path))  CL::Bad("outside", H::Format("%s(\"%s\") outside the directory that was to be changed", What, Path));
	}
	inline void Init()
	{
		char b[4096];
		if (!getcwd(b, sizeof(b)))  H::HarnessError("no working directory");
		if (H::G().ScratchDir.empty())  H::HarnessError("no scratch directory");
		if (chdir(H::G().ScratchDir.c_str()) || !getcwd(b, sizeof(b)))  H::HarnessError("cannot enter the scratch directory");
		S().Root = b;
		if (S().Root.size() < 4)  H::HarnessError("bad scratch directory");
	}
	inline int Opened(int fd) { if (fd >= 0)  S().Fds.insert(fd); return fd; }
	inline int DoOpen(int At, const char *Path, int Flags, mode_t Mode)
	{
		State &s = S();
		s.NCalls++;
		if (s.P.OpenErr && Hit(s.P.OpenAt))  { errno = s.P.OpenErr; return -1; }
		if ((Flags & O_ACCMODE) != O_RDONLY || (Flags & (O_CREAT | O_TRUNC)))  Guard("open", Path);
		return Opened(openat(At, Path, Flags, Mode));
	}
	template <class F> ssize_t Io(bool W, size_t n, F Real)
	{
		State &s = S();
		s.NCalls++;
		if (Hit(W ? s.P.WriteErr : s.P.ReadErr))  { static const int WE[] = { ENOSPC, EIO, EFBIG, EDQUOT, ENOSPC }, RE[] = { EIO, EINVAL, ESTALE, EIO, ENXIO }; errno = (W ? WE : RE)[s.R.Below(5)]; return -1; }
		if (!W && s.P.ShrinkAt >= 0 && s.P.ShrinkAt-- == 0)  s.P.Shrink();
		if (s.P.Eintr && s.R.Chance(s.P.Eintr, 100))  { s.NEintr++; errno = EINTR; return -1; }
		if (n > 1 && s.P.Short && s.R.Chance(s.P.Short, 100))  { s.NShort++; n = s.R.Chance(1, 4) ? 1 : (size_t)s.R.Below(n - 1) + 1; }
		ssize_t r = Real(n);
		if (r > 0)  (W ? s.Written : s.Read) += (size_t)r;
		return r;
	}
	inline int OnRemove(int r, const char *Path) { if (!r)  S().Removed.push_back(Path); return r; }
}

namespace FIO
{
	inline void Settle(int fd)
	{
		auto it = S().High.find(fd);
		if (it == S().High.end())  return;
		struct stat st;
		if (!fstat(fd, &st) && st.st_size < it->second && ftruncate(fd, it->second))  H::HarnessError("cannot extend");
		S().High.erase(it);
	}
	inline ssize_t RawRead(int fd, void *b, size_t n)
	{
		if (!S().Virtual)  return read(fd, b, n);
		if (n > 0x7ffff000)  n = 0x7ffff000;
		off_t Pos = lseek(fd, 0, SEEK_CUR);
		struct stat st;
		if (Pos < 0 || fstat(fd, &st))  return read(fd, b, n);
		if (Pos >= st.st_size)  return 0;
		if ((off_t)n > st.st_size - Pos)  n = (size_t)(st.st_size - Pos);
		for (auto &i : S().Islands)
		{
			if (Pos >= i.second || Pos + (off_t)n <= i.first)  continue;
			if (Pos >= i.first)  return read(fd, b, std::min(n, (size_t)(i.second - Pos)));
			n = (size_t)(i.first - Pos);
		}
		char *c = (char *)b, *z = (char *)S().ZeroMem.first;
		if (c < z || c >= z + S().ZeroMem.second)  memset(b, 0, n);
		return lseek(fd, (off_t)n, SEEK_CUR) < 0 ? -1 : (ssize_t)n;
	}
	inline ssize_t RawWrite(int fd, const void *b, size_t n)
	{
		if (!S().Virtual)  return write(fd, b, n);
		const char *c = (const char *)b, *z = (const char *)S().ZeroMem.first;
		if (n > 0x7ffff000)  n = 0x7ffff000;
		if (z && c >= z && c < z + S().ZeroMem.second)
		{
			off_t At = c - z;
			for (auto &i : S().MemIslands)
			{
				if (At >= i.second || At + (off_t)n <= i.first)  continue;
				if (At >= i.first)  { Settle(fd); return write(fd, b, std::min(n, (size_t)(i.second - At))); }
				n = (size_t)(i.first - At);
			}
			off_t p = lseek(fd, (off_t)n, SEEK_CUR);
			if (p < 0)  return write(fd, b, n);
			S().High[fd] = std::max(S().High[fd], p);
			return (ssize_t)n;
		}
		if (!n || c[0] || memcmp(c, c + 1, n - 1))  { Settle(fd); return write(fd, b, n); }
		off_t p = lseek(fd, (off_t)n, SEEK_CUR);
		if (p < 0)  return write(fd, b, n);
		S().High[fd] = std::max(S().High[fd], p);
		return (ssize_t)n;
	}
}
extern "C"
{
	int vf_open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = (mode_t)va_arg(a, int); va_end(a); return FIO::DoOpen(AT_FDCWD, p, f, m); }
	int vf_open64(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = (mode_t)va_arg(a, int); va_end(a); return FIO::DoOpen(AT_FDCWD, p, f, m); }
	int vf_openat(int at, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = (mode_t)va_arg(a, int); va_end(a); return FIO::DoOpen(at, p, f, m); }
	int vf_openat64(int at, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = (mode_t)va_arg(a, int); va_end(a); return FIO::DoOpen(at, p, f, m); }
	int vf_creat64(const char *p, mode_t m) { return FIO::DoOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
	int vf_creat(const char *p, mode_t m) { return FIO::DoOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
	int vf_close(int fd) { if (FIO::S().Virtual)  FIO::Settle(fd); FIO::S().Fds.erase(fd); return close(fd); }
	ssize_t vf_read(int fd, void *b, size_t n) { return FIO::Io(false, n, [&](size_t k) { return FIO::RawRead(fd, b, k); }); }
	ssize_t vf_write(int fd, const void *b, size_t n) { return FIO::Io(true, n, [&](size_t k) { return FIO::RawWrite(fd, b, k); }); }
	ssize_t vf_pread(int fd, void *b, size_t n, off_t o) { return FIO::Io(false, n, [&](size_t k) { return pread(fd, b, k, o); }); }
	ssize_t vf_pwrite(int fd, const void *b, size_t n, off_t o) { return FIO::Io(true, n, [&](size_t k) { return pwrite(fd, b, k, o); }); }
	off_t vf_lseek(int fd, off_t o, int w) { if (FIO::Hit(FIO::S().P.SeekErr))  { errno = EIO; return -1; } return lseek(fd, o, w); }
	int vf_ftruncate(int fd, off_t n) { if (FIO::Hit(FIO::S().P.TruncErr))  { errno = EIO; return -1; } if (FIO::S().Virtual)  FIO::Settle(fd); return ftruncate(fd, n); }
	int vf_truncate(const char *p, off_t n) { FIO::Guard("truncate", p); if (FIO::Hit(FIO::S().P.TruncErr))  { errno = EIO; return -1; } return truncate(p, n); }
	int vf_rename(const char *a, const char *b)
	{
		FIO::Guard("rename", a);
		FIO::Guard("rename", b);
		if (FIO::S().P.RenameErr)  { errno = FIO::S().P.RenameErr; return -1; }
		return rename(a, b);
	}
	int vf_renameat(int x, const char *a, int y, const char *b) { FIO::Guard("rename", a); FIO::Guard("rename", b); if (FIO::S().P.RenameErr)  { errno = FIO::S().P.RenameErr; return -1; } return renameat(x, a, y, b); }
	int vf_unlink(const char *p)
	{
		FIO::Guard("unlink", p);
		if (FIO::S().P.UnlinkErr)  { FIO::S().Hard = true; errno = FIO::S().P.UnlinkErr; return -1; }
		return FIO::OnRemove(unlink(p), p);
	}
	int vf_unlinkat(int at, const char *p, int f) { if (at == AT_FDCWD || *p == '/')  FIO::Guard("unlink", p); if (FIO::S().P.UnlinkErr)  { FIO::S().Hard = true; errno = FIO::S().P.UnlinkErr; return -1; } return FIO::OnRemove(unlinkat(at, p, f), p); }
	int vf_rmdir(const char *p) { FIO::Guard("rmdir", p); return FIO::OnRemove(rmdir(p), p); }
	int vf_remove(const char *p) { FIO::Guard("remove", p); if (FIO::S().P.UnlinkErr)  { FIO::S().Hard = true; errno = FIO::S().P.UnlinkErr; return -1; } return FIO::OnRemove(remove(p), p); }
	int vf_mkdir(const char *p, mode_t m) { struct stat st; if (stat(p, &st) != 0)  FIO::Guard("mkdir", p); return mkdir(p, m); }
	int vf_link(const char *a, const char *b) { FIO::Guard("link", b); return link(a, b); }
	int vf_symlink(const char *a, const char *b) { FIO::Guard("symlink", b); return symlink(a, b); }
	int vf_chmod(const char *p, mode_t m) { FIO::Guard("chmod", p); return chmod(p, m); }
	int vf_chown(const char *p, uid_t u, gid_t g) { FIO::Guard("chown", p); return chown(p, u, g); }
	ssize_t vf_pread64(int fd, void *b, size_t n, off_t o) { return vf_pread(fd, b, n, o); }
	ssize_t vf_pwrite64(int fd, const void *b, size_t n, off_t o) { return vf_pwrite(fd, b, n, o); }
	off_t vf_lseek64(int fd, off_t o, int w) { return vf_lseek(fd, o, w); }
	int vf_ftruncate64(int fd, off_t n) { return vf_ftruncate(fd, n); }
	int vf_truncate64(const char *p, off_t n) { return vf_truncate(p, n); }
	int vf_lchown(const char *p, uid_t u, gid_t g) { FIO::Guard("chown", p); return lchown(p, u, g); }
	int vf_fdatasync(int) { FIO::Syncs()++; return 0; }
	void vf_sync(void) { FIO::Syncs()++; }
	int vf_fsync(int) { FIO::Syncs()++; return 0; }
	int vf_syncfs(int) { FIO::Syncs()++; return 0; }
	int vf_flock(int fd, int op)
	{
		if (FIO::Hit(FIO::S().P.FlockErr))  { errno = FIO::S().P.FlockErrno; return -1; }
		if (!(op & (LOCK_NB | LOCK_UN)) && flock(fd, op | LOCK_NB) && errno == EWOULDBLOCK)  CL::Bad("blocks", "a file lock waits for another handle");
		return flock(fd, op);
	}
}

namespace FIO
{
	inline std::string Slurp(const std::string &p)
	{
		std::string r;
		int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
		if (fd < 0)  H::HarnessError("cannot read %s", p.c_str());
		char b[65536];
		ssize_t n;
		while ((n = read(fd, b, sizeof(b))) > 0)  r.append(b, (size_t)n);
		close(fd);
		return r;
	}
	inline void Spit(const std::string &p, const std::string &d, mode_t m = 0644)
	{
		unlink(p.c_str());
		int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, m);
		if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t)d.size())  H::HarnessError("cannot write %s", p.c_str());
		fchmod(fd, m);
		close(fd);
	}
	inline bool There(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
	// Removes everything in the scratch directory.
	inline void Wipe(int At = -1)
	{
		int fd = At < 0 ? open(S().Root.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC) : At;
		DIR *d = fdopendir(fd);
		if (!d)  { close(fd); return; }
		std::vector<std::string> N;
		while (struct dirent *e = readdir(d))  if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))  N.push_back(e->d_name);
		for (auto &n : N)
		{
			if (!unlinkat(fd, n.c_str(), 0))  continue;
			fchmodat(fd, n.c_str(), 0700, 0);
			int sub = openat(fd, n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
			if (sub >= 0)  Wipe(sub);
			unlinkat(fd, n.c_str(), AT_REMOVEDIR);
		}
		closedir(d);
	}
	// How many descriptors are open, other than on /proc: the sanitizer's memory limit thread opens /proc/self/statm now and then.
	inline size_t OpenFds()
	{
		size_t n = 0;
		for (int x = 0; x < 96; x++)
		{
			if (fcntl(x, F_GETFD) == -1)  continue;
			char p[64], b[16];
			snprintf(p, sizeof(p), "/proc/self/fd/%d", x);
			ssize_t k = readlink(p, b, sizeof(b));
			if (k > 0 && (k < 6 || memcmp(b, "/proc/", 6)))  n++;
		}
		return n;
	}
}
#endif
