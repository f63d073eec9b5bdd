// C27: random bytes and integers, from a stand-in source that splits, interrupts, fails and ends.
#include "contlib.h"
#include "security/security_csprng.h"
#include <cerrno>
#include <cmath>
#include <fcntl.h>
#include <set>
#include <sys/types.h>
using CubicleSoft::Security::CSPRNG;
using CL::Bad;

namespace
{
	struct Source
	{
		H::Rng R;                                  // content
		H::Rng F;                                  // faults
		bool HasRandom = true, HasUrandom = true, HasArandom = false;
		unsigned Eintr = 0, Short = 0;
		long FailAt = -1;                          // this many more reads, then it is broken for good
		int FailErr = 0;                           // 0: end of file
		bool Broken = false;
		unsigned long After = 0, Calls = 0;
		std::string Given;                         // everything delivered so far
		std::set<int> Open;
		std::vector<std::string> Paths;
		int Next = 100;
		bool Blocking = false;                     // something was read from a source that is not /dev/random
		std::set<int> Weak;
	} *Src;
	int DoOpen(const char *p, int Flags)
	{
		if ((Flags & O_ACCMODE) != O_RDONLY || (Flags & (O_CREAT | O_TRUNC)))  Bad("open-mode", std::string("the source is opened for writing: ") + p);
		std::string s = p;
		Src->Paths.push_back(s);
		bool Has = s == "/dev/random" ? Src->HasRandom : s == "/dev/urandom" ? Src->HasUrandom : s == "/dev/arandom" ? Src->HasArandom : false;
		if (s != "/dev/random" && s != "/dev/urandom" && s != "/dev/arandom")  H::Inconclusive("unknown source");
		if (!Has)  { static const int E[] = { ENOENT, EACCES, EMFILE, ENFILE, ENODEV, ENXIO, ENOENT, EPERM, ENOMEM }; errno = E[Src->F.Below(9)]; return -1; }
		int fd = Src->Next++;
		Src->Open.insert(fd);
		if (s != "/dev/random")  Src->Weak.insert(fd);
		return fd;
	}
	ssize_t Deliver(void *b, size_t n)
	{
		Source &s = *Src;
		s.Calls++;
		if (s.FailAt >= 0 && s.FailAt-- == 0)  s.Broken = true;
		if (s.Broken)
		{
			if (++s.After > 20000)  Bad("endless", "the source failed for good, and the call keeps asking it");
			if (!s.FailErr)  return 0;
			errno = s.FailErr;
			return -1;
		}
		if (s.Eintr && s.F.Chance(s.Eintr, 100))  { H::Count("interrupted"); errno = EINTR; return -1; }
		if (n > 1 && s.Short && s.F.Chance(s.Short, 100))  { H::Count("partial-reads"); n = s.F.Chance(1, 4) ? 1 : (size_t)s.F.Below(n - 1) + 1; }
		for (size_t i = 0; i < n; i++)
		{
			char c = (char)s.R.Next();
			((char *)b)[i] = c;
			s.Given += c;
		}
		return (ssize_t)n;
	}
}
extern "C"
{
	int vf_open(const char *p, int f, ...) { return DoOpen(p, f); }
	int vf_open64(const char *p, int f, ...) { return DoOpen(p, f); }
	int vf_close(int fd)
	{
		if (fd < 0)  { errno = EBADF; return -1; }
		if (!Src->Open.erase(fd))  Bad("close", H::Format("closed descriptor %d, which is not open", fd));
		return 0;
	}
	ssize_t vf_read(int fd, void *b, size_t n)
	{
		if (!Src->Open.count(fd))  Bad("read-closed", H::Format("read from descriptor %d, which is not open", fd));
		if (Src->Weak.count(fd))  Src->Blocking = true;
		return Deliver(b, n);
	}
	ssize_t vf_getrandom(void *b, size_t n, unsigned) { return Deliver(b, n); }
	int vf_getentropy(void *b, size_t n) { char *p = (char *)b; while (n) { ssize_t r = Deliver(p, n); if (r <= 0)  return -1; p += r; n -= (size_t)r; } return 0; }
}

static void Chi(const std::vector<unsigned long> &Seen, unsigned long Draws, const std::string &What)
{
	double e = (double)Draws / (double)Seen.size(), x = 0;
	for (unsigned long s : Seen)  x += ((double)s - e) * ((double)s - e) / e;
	double k = (double)Seen.size() - 1;
	// Far beyond any plausible statistic: more than 12 standard deviations and 40 on top.
	if (x > k + 12 * std::sqrt(2 * k) + 40)  Bad("biased", H::Format("%lu draws are unevenly spread (statistic %.1f for %.0f degrees of freedom): ", Draws, x, k) + What);
}
static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	Source S;
	Src = &S;
	S.R = H::Rng(R.Next());
	S.F = H::Rng(R.Next());
	if (R.Chance(1, 6))  S.Next = (int)R.Below(3);      // the program may have closed its standard streams
	unsigned Kind = (unsigned)R.Below(8);
	bool Safe = R.Chance(1, 2);
	if (Kind == 0)  { S.HasRandom = R.Chance(1, 2); S.HasUrandom = R.Chance(1, 2); }
	S.HasArandom = R.Chance(1, 4);
	if (Kind >= 2)  { S.Eintr = R.Chance(1, 2) ? (unsigned)R.Below(80) : 0; S.Short = R.Chance(1, 2) ? (unsigned)R.Below(90) : 0; }
	if (Kind == 3 || Kind == 4)
	{
		S.FailAt = (long)R.Below(R.Chance(1, 2) ? 3 : 20);
		static const int Errs[] = { EIO, EBADF, EISDIR, EFAULT, EINVAL, EPERM, EAGAIN, ENXIO, ENODEV };
		S.FailErr = Kind == 3 ? Errs[R.Below(9)] : 0;
	}
	bool Have = Safe ? S.HasRandom : S.HasArandom || S.HasUrandom;
	alignas(CSPRNG) unsigned char Room[sizeof(CSPRNG)];
	memset(Room, (int)R.Below(256), sizeof(Room));
	CSPRNG *G = new (Room) CSPRNG(Safe);
	CL::Ev(H::Format("source: safe %d, present %d, fault kind %u", Safe, Have, Kind));
	size_t Used = 0;
	unsigned Ok = 0;
	if (Kind == 1)
	{
		// Spread of integers.
		std::uint64_t Min = R.Chance(1, 3) ? 0 : R.U64(), Width;
		unsigned long Draws;
		std::vector<unsigned long> Seen;
		bool Small = R.Chance(2, 3);
		if (Small)  { Width = R.Below(40); Seen.resize((size_t)Width + 1); Draws = 80 * (Width + 1); }
		else
		{
			static const std::uint64_t Tops[] = { 0xBFFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xAAAAAAAAAAAAAAAAull, 0x180000000ull, 0x17FFFull, 0xC0000000ull, 0x300ull };
			Width = R.Chance(1, 2) ? Tops[R.Below(8)] : R.U64() | 0xFF;
			Seen.resize(8);
			Draws = 1200;
		}
		if (Min > ~0ull - Width)  Min = ~0ull - Width;
		std::uint64_t Max = Min + Width;
		CL::Ev(H::Format("%lu integers of %llu..%llu", Draws, (unsigned long long)Min, (unsigned long long)Max));
		for (unsigned long i = 0; i < Draws; i++)
		{
			std::uint64_t v = R.Next();
			bool Swap = R.Chance(1, 4);
			bool Got = Swap ? G->GetInteger(v, Max, Min) : G->GetInteger(v, Min, Max);
			if (Got != Have)  Bad("integer-result", Have ? "an integer was refused by a healthy source" : "an integer without a source");
			if (!Got)  break;
			if (v < Min || v > Max)  Bad("integer-range", H::Format("%llu is outside %llu..%llu", (unsigned long long)v, (unsigned long long)Min, (unsigned long long)Max));
			if (Small)  Seen[(size_t)(v - Min)]++;
			else  Seen[(size_t)((unsigned __int128)(v - Min) * 8 / ((unsigned __int128)Width + 1))]++;
			Ok++;
		}
		if (Have)
		{
			if (Small)
			{
				for (size_t i = 0; i < Seen.size(); i++)  if (!Seen[i])  Bad("never", H::Format("%lu draws of %llu..%llu never gave %llu", Draws, (unsigned long long)Min, (unsigned long long)Max, (unsigned long long)(Min + i)));
			}
			Chi(Seen, Draws, H::Format("%llu..%llu", (unsigned long long)Min, (unsigned long long)Max));
			H::Count("spreads");
		}
	}
	else
	{
		unsigned n = (unsigned)R.Below(12) + 1;
		for (unsigned i = 0; i < n; i++)
		{
			bool WasBroken = S.Broken;
			S.After = 0;
			if (R.Chance(1, 4))
			{
				std::uint64_t a = R.U64(), b = R.Chance(1, 3) ? a + R.Below(20) : R.Chance(1, 4) ? a : R.U64(), v = 0;
				std::uint64_t Lo = std::min(a, b), Hi = std::max(a, b);
				bool Got = G->GetInteger(v, a, b);
				CL::Ev(H::Format("integer of %llu..%llu: %d", (unsigned long long)a, (unsigned long long)b, Got));
				if (Got && (v < Lo || v > Hi))  Bad("integer-range", H::Format("%llu is outside %llu..%llu", (unsigned long long)v, (unsigned long long)Lo, (unsigned long long)Hi));
				if (Got && !Have)  Bad("integer-result", "an integer without a source");
				if (Got && WasBroken)  Bad("integer-result", "an integer from a source that is broken");
				if (!Got && Have && !S.Broken)  Bad("integer-result", "an integer was refused by a healthy source");
				if (Got)  Ok++;
				Used = S.Given.size() >= 7 ? std::max(Used, S.Given.size() - 7) : Used;
				if (!WasBroken)  H::Count("integers");
				continue;
			}
			size_t Size = R.Chance(1, 2) ? (size_t)R.Below(40) : R.Chance(1, 5) ? (size_t)R.Below(R.Chance(1, 4) ? 70000 : 3000) : (size_t)R.Below(300);
			unsigned char *b = (unsigned char *)malloc(Size);
			memset(b, 0xA5, Size);
			unsigned long C0 = S.Calls;
			bool Got = G->GetBytes(b, Size);
			CL::Ev(H::Format("%zu bytes: %d after %lu reads", Size, Got, S.Calls - C0));
			if (Got && !Have)  Bad("bytes-result", "bytes without a source");
			if (Got && WasBroken && Size)  Bad("bytes-result", "bytes from a source that is broken");
			if (!Got && Have && !S.Broken)  Bad("bytes-result", "bytes were refused by a healthy source");
			if (Got && Size)
			{
				size_t At = S.Given.find(std::string((char *)b, Size), Used);
				if (At == std::string::npos)  Bad("unfilled", H::Format("%zu bytes are not what the source gave", Size));
				Used = Size >= 8 ? At + Size : Used;
				Ok++;
			}
			if (!Got && S.Broken)  H::Count("failures-reported");
			free(b);
		}
	}
	if (Safe && S.Blocking)  Bad("weak-source", "a crypto-safe generator read from another source than /dev/random");
	G->~CSPRNG();
	if (!S.Open.empty())  Bad("descriptor-leak", "the source remains open");
	H::Count("requests-filled", Ok);
	if (Ok || !Have || S.Broken)  H::Sig(H::HashU(S.Calls, H::HashU(S.Given.size(), CL::LogSig)));
	if (H::WantSample())  H::Sample(CL::Tail(12));
	Src = NULL;
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
