// Shared driver scaffolding: seeded cases, counters, signatures, verdict reporting.
//
// A driver implements  void RunCase(H::Rng &R, std::uint64_t CaseID)  and calls H::Main().
// Every random choice comes from the case's generator, so (--seed, case id) replays a case.
// Verdicts:  H::Fail(key, ...) prints one VIOL line and ends the process with status 3.
//            H::Inconclusive(...) counts a case that could not be judged.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

namespace H
{
	struct Rng
	{
		std::uint64_t S[4];
		static std::uint64_t Mix(std::uint64_t &x)
		{
			std::uint64_t z = (x += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		explicit Rng(std::uint64_t Seed = 1) { for (int i = 0; i < 4; i++)  S[i] = Mix(Seed); }
		static std::uint64_t Rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
		std::uint64_t Next()
		{
			std::uint64_t r = Rotl(S[1] * 5, 7) * 9, t = S[1] << 17;
			S[2] ^= S[0]; S[3] ^= S[1]; S[1] ^= S[2]; S[0] ^= S[3]; S[2] ^= t; S[3] = Rotl(S[3], 45);
			return r;
		}
		std::uint64_t Below(std::uint64_t n) { return n ? Next() % n : 0; }
		std::int64_t Range(std::int64_t lo, std::int64_t hi) { return lo + (std::int64_t)Below((std::uint64_t)(hi - lo) + 1); }
		bool Chance(unsigned num, unsigned den) { return Below(den) < num; }
		std::string Bytes(size_t n) { std::string s(n, '\0'); for (size_t i = 0; i < n; i++)  s[i] = (char)Next(); return s; }
		std::string FromAlphabet(size_t n, const std::string &a) { std::string s(n, '\0'); for (size_t i = 0; i < n; i++)  s[i] = a[Below(a.size())]; return s; }
		template <class T> const T &Pick(const std::vector<T> &v) { return v[Below(v.size())]; }
		// Sizes biased to small values and to the neighbourhood of powers of two.
		size_t Size(size_t Max)
		{
			switch (Below(4))
			{
				case 0:  return (size_t)Below(std::min<std::uint64_t>(Max, 8) + 1);
				case 1:
				{
					size_t p = (size_t)1 << Below(20);
					std::int64_t v = (std::int64_t)p + Range(-2, 2);
					if (v < 0)  v = 0;
					return (size_t)v > Max ? (size_t)Below(Max + 1) : (size_t)v;
				}
				case 2:  return (size_t)Below(std::min<std::uint64_t>(Max, 64) + 1);
			}
			return (size_t)Below(Max + 1);
		}
		// 64-bit values biased to boundaries.
		std::uint64_t U64()
		{
			switch (Below(5))
			{
				case 0:  return Below(300);
				case 1:  { std::uint64_t p = 1ull << Below(64); return p + (std::uint64_t)Range(-2, 2); }
				case 2:  return (std::uint64_t)0 - Below(300);
				case 3:  { std::uint64_t v = 1; for (std::uint64_t k = Below(20); k; k--)  v *= 10; return v + (std::uint64_t)Range(-2, 2); }
			}
			return Next() >> Below(64);
		}
	};

	struct State
	{
		const char *Prop = "?";
		std::uint64_t Seed = 1, CurrCase = 0, Evaluations = 0, Nontrivial = 0, Inconclusive = 0;
		bool Replay = false, Thorough = false;
		std::map<std::string, std::uint64_t> Counters;
		std::unordered_set<std::uint64_t> Sigs;
		std::vector<std::string> Samples;
		std::string SigFile, StatsFile, ScratchDir;
		volatile std::uint64_t *CaseShared = nullptr;
		pid_t MainPid = 0;
		unsigned CaseTimeout = 60;
	};
	inline State &G() { static State s; return s; }

	inline std::string Escape(const std::string &s, size_t Max = 400)
	{
		std::string r;
		char b[8];
		for (size_t i = 0; i < s.size() && r.size() < Max; i++)
		{
			unsigned char c = (unsigned char)s[i];
			if (c == '\\')  r += "\\\\";
			else if (c >= 0x20 && c < 0x7F && c != '"')  r += (char)c;
			else  { snprintf(b, sizeof(b), "\\x%02X", c); r += b; }
		}
		if (r.size() >= Max)  r += "...";
		return r;
	}

	inline std::string VFormat(const char *Fmt, va_list ap)
	{
		char b[4096];
		vsnprintf(b, sizeof(b), Fmt, ap);
		return b;
	}
	inline std::string Format(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));
	inline std::string Format(const char *Fmt, ...)
	{
		va_list ap; va_start(ap, Fmt); std::string s = VFormat(Fmt, ap); va_end(ap); return s;
	}

	[[noreturn]] inline void FailStr(const std::string &Key, const std::string &Msg)
	{
		std::string m = Msg;
		for (char &c : m)  if (c == '\n' || c == '\t')  c = ' ';
		char Head[256];
		snprintf(Head, sizeof(Head), "\nVIOL\t%s\t%llu\t", Key.c_str(), (unsigned long long)G().CurrCase);
		std::string Line = std::string(Head) + m + "\n";
		ssize_t r = ::write(1, Line.data(), Line.size());
		(void)r;
		_exit(3);
	}
	[[noreturn]] inline void Fail(const char *Key, const char *Fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] inline void Fail(const char *Key, const char *Fmt, ...)
	{
		va_list ap; va_start(ap, Fmt); std::string s = VFormat(Fmt, ap); va_end(ap);
		FailStr(Key, s);
	}
	[[noreturn]] inline void HarnessError(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));
	[[noreturn]] inline void HarnessError(const char *Fmt, ...)
	{
		va_list ap; va_start(ap, Fmt); std::string s = VFormat(Fmt, ap); va_end(ap);
		fprintf(stderr, "HARNESS-ERROR case=%llu %s\n", (unsigned long long)G().CurrCase, s.c_str());
		fflush(stderr);
		_exit(7);
	}

	inline void Count(const char *Name, std::uint64_t n = 1) { G().Counters[Name] += n; }
	inline void Inconclusive(const char *Why) { G().Inconclusive++; Count((std::string("inconclusive:") + Why).c_str()); }

	inline std::uint64_t Hash(const void *p, size_t n, std::uint64_t h = 0xcbf29ce484222325ull)
	{
		const unsigned char *b = (const unsigned char *)p;
		for (size_t i = 0; i < n; i++)  { h ^= b[i]; h *= 0x100000001b3ull; }
		return h;
	}
	inline std::uint64_t Hash(const std::string &s, std::uint64_t h = 0xcbf29ce484222325ull) { return Hash(s.data(), s.size(), h); }
	inline std::uint64_t HashU(std::uint64_t v, std::uint64_t h) { return Hash(&v, sizeof(v), h); }

	// Records that this evaluation was non-trivial (by the driver's rule) with the given signature.
	inline void Sig(std::uint64_t h)
	{
		G().Nontrivial++;
		if (G().Sigs.size() < 400000)  G().Sigs.insert(h);
	}
	inline void Sample(const std::string &s) { if (G().Samples.size() < 3)  G().Samples.push_back(s.substr(0, 1500)); }
	inline bool WantSample() { return G().Samples.size() < 3; }

	inline void OnAlarm(int)
	{
		char b[128];
		int n = snprintf(b, sizeof(b), "\nHANG\t%llu\n", (unsigned long long)G().CurrCase);
		ssize_t r = ::write(1, b, (size_t)n);
		(void)r;
		_exit(5);
	}

	inline std::string JStr(const std::string &s)
	{
		std::string r = "\"";
		char b[8];
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\')  { r += '\\'; r += (char)c; }
			else if (c < 0x20 || c >= 0x7F)  { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
			else  r += (char)c;
		}
		return r + "\"";
	}

	inline void WriteStats()
	{
		State &g = G();
		if (g.StatsFile.empty())  return;
		FILE *fp = fopen(g.StatsFile.c_str(), "w");
		if (!fp)  return;
		fprintf(fp, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"inconclusive\":%llu,\"counters\":{", (unsigned long long)g.Evaluations, (unsigned long long)g.Nontrivial, (unsigned long long)g.Inconclusive);
		bool First = true;
		for (auto &c : g.Counters)  { fprintf(fp, "%s%s:%llu", First ? "" : ",", JStr(c.first).c_str(), (unsigned long long)c.second); First = false; }
		fprintf(fp, "},\"samples\":[");
		First = true;
		for (auto &s : g.Samples)  { fprintf(fp, "%s%s", First ? "" : ",", JStr(s).c_str()); First = false; }
		fprintf(fp, "]}\n");
		fclose(fp);
		fp = fopen(g.SigFile.c_str(), "wb");
		if (!fp)  return;
		for (std::uint64_t h : g.Sigs)  fwrite(&h, 8, 1, fp);
		fclose(fp);
	}

	inline int OpenCaseFile(const std::string &n) { return ::open(n.c_str(), O_RDWR | O_CREAT, 0666); }

	// --seed S --from A --to B --step K (cases A, A+K, ... < B) --out PREFIX --scratch DIR [--thorough] [--timeout S]
	inline int Main(int argc, char **argv, void (*RunCase)(Rng &, std::uint64_t), void (*Init)() = nullptr)
	{
		State &g = G();
		std::uint64_t From = 0, To = 1, Step = 1;
		std::string Out;
		for (int i = 1; i < argc; i++)
		{
			std::string a = argv[i];
			auto Val = [&]() -> const char * { if (i + 1 >= argc)  { fprintf(stderr, "missing value\n"); _exit(7); } return argv[++i]; };
			if (a == "--seed")  g.Seed = strtoull(Val(), nullptr, 10);
			else if (a == "--from")  From = strtoull(Val(), nullptr, 10);
			else if (a == "--to")  To = strtoull(Val(), nullptr, 10);
			else if (a == "--step")  Step = strtoull(Val(), nullptr, 10);
			else if (a == "--out")  Out = Val();
			else if (a == "--scratch")  g.ScratchDir = Val();
			else if (a == "--thorough")  g.Thorough = true;
			else if (a == "--replay")  g.Replay = true;
			else if (a == "--timeout")  g.CaseTimeout = (unsigned)atoi(Val());
			else  { fprintf(stderr, "unknown option %s\n", a.c_str()); return 7; }
		}
		if (!Out.empty())  { g.StatsFile = Out + ".json"; g.SigFile = Out + ".sig"; }
		g.MainPid = getpid();
		signal(SIGALRM, OnAlarm);
		if (Init)  Init();
		for (std::uint64_t c = From; c < To; c += Step)
		{
			g.CurrCase = c;
			std::uint64_t s = g.Seed * 0x9E3779B97F4A7C15ull ^ (c + 0x1234567) * 0xD1B54A32D192ED03ull;
			Rng R(s);
			// The case about to run, for crashes that give us no chance to say.
			if (!Out.empty())
			{
				static int fd = -1;
				if (fd < 0)  fd = OpenCaseFile(Out + ".case");
				if (pwrite(fd, &c, 8, 0) != 8)  {}
			}
			alarm(g.CaseTimeout);
			RunCase(R, c);
			if (g.Replay)  { Rng R2(s); RunCase(R2, c); }   // once more, for what does not count the first time
			g.Evaluations++;
		}
		alarm(0);
		WriteStats();
		printf("\nDONE\t%llu\n", (unsigned long long)g.Evaluations);
		fflush(stdout);
		return 0;
	}
}


#endif
