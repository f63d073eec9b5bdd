// C28: application paths for any buffer size, environment and executable.
#include "contlib.h"
#include <sys/wait.h>
#include <pthread.h>
#include <sys/time.h>
#include "utf8/utf8_appinfo.h"
#include "environment/environment_appinfo.h"
#include <cerrno>
#include <pwd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
using CubicleSoft::UTF8::AppInfo;
using CL::Bad;

namespace
{
	unsigned TimeAsked;
	bool ProcOk = true, PwOk = true, TimeOk = true;
	std::string Exe, PwDir, Root;
	struct timeval Now;
	struct passwd Pw;
	const struct passwd *Pwd()
	{
		if (!PwOk)  return NULL;
		memset(&Pw, 0, sizeof(Pw));
		Pw.pw_name = (char *)"user";
		Pw.pw_dir = (char *)PwDir.c_str();
		return &Pw;
	}
}
extern "C"
{
	ssize_t vf_readlink(const char *p, char *b, size_t n)
	{
		if (strncmp(p, "/proc/", 6))  return readlink(p, b, n);
		if (strcmp(p, "/proc/self/exe") || !ProcOk)  { errno = ENOENT; return -1; }
		if (!n)  { errno = EINVAL; return -1; }
		size_t k = std::min(n, Exe.size());
		memcpy(b, Exe.data(), k);
		return (ssize_t)k;
	}
	struct passwd *vf_getpwuid(uid_t) { return (struct passwd *)Pwd(); }
	int vf_getpwuid_r(uid_t, struct passwd *o, char *, size_t, struct passwd **r) { *r = NULL; if (Pwd())  { *o = Pw; *r = o; } return 0; }
	int vf_clock_gettime(clockid_t c, struct timespec *t) { if (c != CLOCK_REALTIME)  return clock_gettime(c, t); TimeAsked++; if (!TimeOk)  { errno = EFAULT; return -1; } t->tv_sec = Now.tv_sec; t->tv_nsec = Now.tv_usec * 1000; return 0; }
	int vf_gettimeofday(struct timeval *t, void *) { TimeAsked++; if (!TimeOk)  { errno = EFAULT; return -1; } *t = Now; return 0; }
}
// Calls F with an exact-size buffer; the result must be Want, when there is room for it.
template <class F> static void Check(H::Rng &R, const char *What, bool Possible, const std::string &Want, F Call)
{
	size_t n = Want.size() + 1, Size;
	if (R.Chance(1, 2))  Size = (size_t)std::max<long long>(0, (long long)n + R.Range(-3, 3));
	else  Size = (size_t)R.Below(n + 20);
	char *b = (char *)malloc(Size);
	memset(b, 'x', Size);
	size_t s = Size;
	bool Ok = Call(b, s);
	CL::Ev(H::Format("%s into %zu bytes (%s): %d", What, Size, H::Escape(Want, 60).c_str(), Ok));
	bool Expect = Possible && Size >= n;
	if (Ok && !Expect)  Bad("fits", H::Format("%s succeeded with %zu bytes, needing %zu", What, Size, Possible ? n : 0));
	if (!Ok && Expect)  Bad("refused", H::Format("%s failed with %zu bytes, needing %zu", What, Size, n));
	if (Ok)
	{
		if (s != n)  Bad("length", H::Format("%s reported %zu bytes for a path of %zu", What, s, n));
		if (memcmp(b, Want.c_str(), n))  Bad("path", H::Format("%s gave %s instead of %s", What, H::Escape(std::string(b, strnlen(b, Size))).c_str(), H::Escape(Want).c_str()));
		H::Count("paths");
	}
	else
	{
		if (s)  Bad("length", H::Format("%s failed and reported %zu bytes", What, s));
		H::Count("refusals");
	}
	free(b);
}
static std::string Name(H::Rng &R, size_t Max)
{
	static const char *const A[] = { "a", "b", ".", "-", " ", "\xC3\xA9", "app", "x.y", "Z" };
	std::string r;
	size_t n = 1 + (size_t)R.Below(Max);
	while (r.size() < n)  r += A[R.Below(9)];
	if (r == "." || r == "..")  r += "a";
	return r;
}
static std::string Slash(std::string s) { if (s.empty() || s.back() != '/')  s += '/'; return s; }
// The same queries from other threads and from a child process.
static void Elsewhere(H::Rng &R)
{
	using CubicleSoft::Environment::AppInfo;
	struct Seen { pthread_t Self, Told[2]; pid_t Pid; } s[3];
	pthread_t t[3];
	for (int i = 0; i < 3; i++)  if (pthread_create(&t[i], NULL, [](void *p) -> void * { Seen *s = (Seen *)p; s->Told[0] = AppInfo::GetCurrentThreadID(); s->Self = pthread_self(); s->Pid = AppInfo::GetCurrentProcessID(); s->Told[1] = AppInfo::GetCurrentThreadID(); return NULL; }, &s[i]))  H::HarnessError("no thread");
	for (int i = 0; i < 3; i++)  pthread_join(t[i], NULL);
	for (auto &x : s)
	{
		if (!pthread_equal(x.Self, x.Told[0]) || !pthread_equal(x.Self, x.Told[1]))  Bad("thread-id", "a thread is told the id of another");
		if (x.Pid != getpid())  Bad("process-id", "a thread is told another process id");
	}
	H::Count("threads-asked", 3);
	if (R.Chance(3, 4))  return;
	pid_t c = fork();
	if (c < 0)  { H::Count("no-fork"); return; }
	if (!c)
	{
		bool Ok = AppInfo::GetCurrentProcessID() == getpid() && pthread_equal(AppInfo::GetCurrentThreadID(), pthread_self());
		_exit(Ok ? 0 : 9);
	}
	int st = 0;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 9)  Bad("process-id", "a child process is told its parent's ids");
	if (AppInfo::GetCurrentProcessID() != getpid())  Bad("process-id", "wrong process id after a child was started");
	H::Count("processes-asked");
}
static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	bool HasApp = !R.Chance(1, 4);
	std::string App;
	if (HasApp)
	{
		App = R.Chance(1, 12) ? "" : Name(R, R.Chance(1, 4) ? 200 : 12);
		if (R.Chance(1, 5))  App += "/" + Name(R, 8);
		if (R.Chance(1, 6))  App += "/";
	}
	const char *AppP = HasApp ? App.c_str() : NULL;
	auto Sub = [&](std::string Base, const char *Prefix) { Base = Slash(Base); if (HasApp)  Base = Slash(Base + Prefix + App); return Base; };
	// System and temporary directories.  (An empty application name ends on the directory itself.)
	auto SysWant = [&](const std::string &Base, const char *Prefix) { return Sub(Base, Prefix); };
	Check(R, "system directory", true, SysWant("/var/lib/", ""), [&](char *b, size_t &s) { return AppInfo::GetSystemAppStorageDir(b, s, AppP); });
	Check(R, "temporary directory", true, "/tmp/", [&](char *b, size_t &s) { return AppInfo::GetTempStorageDir(b, s); });
	// Per-user directory.
	auto Dir = [&]() { std::string d; for (unsigned k = (unsigned)R.Below(4); k; k--)  d += "/" + Name(R, R.Chance(1, 8) ? 300 : 10); if (d.empty() || R.Chance(1, 5))  d += "/"; return d; };
	unsigned HK = (unsigned)R.Below(6);
	std::string Home = HK == 0 || HK == 1 ? "" : R.Chance(1, 20) ? "rel" : Dir();
	if (HK == 0)  unsetenv("HOME");
	else  setenv("HOME", Home.c_str(), 1);
	PwOk = !R.Chance(1, 4);
	PwDir = Dir();
	{
		std::string H0 = Home.empty() ? PwDir : Home;
		bool Can = !Home.empty() || PwOk;
		CL::Ev(HK == 0 ? "no HOME" : "HOME=" + H::Escape(Home, 60));
		Check(R, "user directory", Can, SysWant(Can ? H0 : std::string("/none"), "."), [&](char *b, size_t &s) { return AppInfo::GetCurrentUserAppStorageDir(b, s, AppP); });
	}
	// The executable: a file in the scratch directory, found through /proc or by the name it was started with.
	std::string D = Root;
	for (unsigned k = (unsigned)R.Below(4); k; k--)
	{
		D += "/" + Name(R, R.Chance(1, 6) ? 60 : 8);
		mkdir(D.c_str(), 0755);
	}
	struct stat st;
	std::string File = D + "/prog" + Name(R, 12);
	int fd = open(File.c_str(), O_CREAT | O_WRONLY, 0755);
	if (fd < 0)  { H::Inconclusive("no executable"); return; }
	close(fd);
	Exe = File;
	ProcOk = R.Chance(2, 3);
	unsigned AK = (unsigned)R.Below(5);
	std::string Arg = File, Link;
	if (AK == 1)  Arg = File.substr(Root.size() + 1);
	else if (AK == 2)  Arg = "./" + File.substr(Root.size() + 1);
	else if (AK == 3)  { Link = Root + "/link" + Name(R, 5); if (symlink(File.c_str(), Link.c_str()))  Link.clear(); else  Arg = Link; }
	else if (AK == 4)  Arg = File + ".missing";
	bool HasArg = R.Chance(4, 5), Can = ProcOk || (HasArg && AK != 4);
	const char *ArgP = HasArg ? Arg.c_str() : NULL;
	CL::Ev(H::Format("executable, proc %d, argv[0] %s", ProcOk, HasArg ? H::Escape(Arg.substr(Arg.size() > 40 ? Arg.size() - 40 : 0)).c_str() : "none"));
	Check(R, "executable", Can, File, [&](char *b, size_t &s) { return AppInfo::GetExecutableFilename(b, s, ArgP); });
	// A buffer that cuts the name at a directory above it.
	if (Can)
	{
		size_t k = 0;
		for (unsigned j = (unsigned)R.Below(8) + 1; j; j--)  { size_t q = File.find('/', k + 1); if (q == std::string::npos)  break; k = q; }
		size_t s = k + (size_t)R.Below(2), Was = s;
		char *b = (char *)malloc(s);
		if (AppInfo::GetExecutableFilename(b, s, ArgP))  Bad("cut-off", H::Format("a buffer of %zu gave \"%.*s\" for %s", Was, (int)Was, b, H::Escape(File).c_str()));
		free(b);
	}
	{
		// The directory needs room for the whole name on the way.
		size_t Size = R.Chance(1, 2) ? File.size() + 1 + (size_t)R.Below(10) : (size_t)R.Below(File.size() + 2), s = Size;
		char *b = (char *)malloc(Size);
		memset(b, 'x', Size);
		bool Ok = AppInfo::GetExecutablePath(b, s, ArgP);
		CL::Ev(H::Format("executable path into %zu: %d", Size, Ok));
		std::string Want = D + "/";
		if (Ok && (!Can || Size <= Want.size()))  Bad("fits", "the executable's directory does not fit, but was returned");
		if (!Ok && Can && Size >= File.size() + 1)  Bad("refused", H::Format("the executable's directory was refused with %zu bytes", Size));
		if (Ok && (s != Want.size() + 1 || memcmp(b, Want.c_str(), Want.size() + 1)))  Bad("path", "the executable's directory is " + H::Escape(std::string(b, strnlen(b, Size))) + " instead of " + H::Escape(Want));
		free(b);
	}
	if (!Link.empty())  unlink(Link.c_str());
	unlink(File.c_str());
	while (D.size() > Root.size())  { rmdir(D.c_str()); D = D.substr(0, D.rfind('/')); }
	(void)st;
	// Process and time.
	Now.tv_sec = (time_t)R.Below(R.Chance(1, 2) ? 5000000000ull : 200000000000ull);
	Now.tv_usec = (suseconds_t)(R.Chance(1, 3) ? R.Below(3) : R.Chance(1, 2) ? 999999 : R.Below(1000000));
	for (unsigned k = (unsigned)R.Below(4) + 1; k; k--)
	{
		TimeOk = !R.Chance(1, 10);
		struct timeval r0, r1;
		gettimeofday(&r0, NULL);
		unsigned Asked = TimeAsked;
		std::uint64_t T = CubicleSoft::Environment::AppInfo::GetUnixMicrosecondTime(), TW = (std::uint64_t)Now.tv_sec * 1000000 + (std::uint64_t)Now.tv_usec;
		gettimeofday(&r1, NULL);
		// A clock that has no stand-in here tells the real time.
		bool Other = Asked == TimeAsked && T + 10000 >= (std::uint64_t)r0.tv_sec * 1000000 + (std::uint64_t)r0.tv_usec && T <= (std::uint64_t)r1.tv_sec * 1000000 + (std::uint64_t)r1.tv_usec + 10000;
		if (T != TW && TimeOk && !Other)  Bad("time", H::Format("%llu us instead of %llu", (unsigned long long)T, (unsigned long long)TW));
		H::Count("time-queries");
		// Some time passes, or the clock is set back.
		std::int64_t Us = (std::int64_t)Now.tv_usec + (R.Chance(1, 2) ? R.Range(0, 3) : R.Chance(1, 2) ? R.Range(0, 2000000) : -R.Range(0, 2000000));
		Now.tv_sec += (time_t)(Us >= 0 ? Us / 1000000 : -((999999 - Us) / 1000000));
		Now.tv_usec = (suseconds_t)(((Us % 1000000) + 1000000) % 1000000);
		if (Now.tv_sec < 0)  Now.tv_sec = 0;
	}
	if (CubicleSoft::Environment::AppInfo::GetCurrentProcessID() != getpid())  Bad("process-id", "wrong process id");
	if (!pthread_equal(CubicleSoft::Environment::AppInfo::GetCurrentThreadID(), pthread_self()))  Bad("thread-id", "wrong thread id");
	if (R.Chance(1, 200))  Elsewhere(R);
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(10));
}
static void Init()
{
	char b[4096];
	if (H::G().ScratchDir.empty() || chdir(H::G().ScratchDir.c_str()) || !getcwd(b, sizeof(b)))  H::HarnessError("no scratch directory");
	Root = b;
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, Init); }
