// Shared by the container drivers: keys, a value type that owns memory, history.
#ifndef VERIF_CONTLIB_H
#define VERIF_CONTLIB_H
#include "alloc.h"
#include <new>
#include <list>
#include <deque>

namespace CL
{
	struct Key
	{
		bool Str = false;
		std::int64_t I = 0;
		std::string S;
		bool operator==(const Key &o) const { return Str == o.Str && (Str ? S == o.S : I == o.I); }
		bool operator<(const Key &o) const { return Str != o.Str ? Str < o.Str : (Str ? S < o.S : I < o.I); }
		std::string Text() const { return Str ? "\"" + H::Escape(S, 40) + "\"" : std::to_string((long long)I); }
	};

	// A value that owns heap memory: double destruction, lost copies and shallow copies all show up.
	// It may be moved in memory bit by bit (the packed hash does that).
	static std::int64_t Instances = 0;
	struct V
	{
		std::int64_t *P;
		V() : P(new std::int64_t(-1)) { Instances++; }
		V(std::int64_t v) : P(new std::int64_t(v)) { Instances++; }
		V(const V &o) : P(new std::int64_t(*o.P)) { Instances++; }
		V &operator=(const V &o) { *P = *o.P; return *this; }
		bool operator==(const V &o) const { return *P == *o.P; }
		~V() { *P = -99; delete P; Instances--; }
		std::int64_t Get() const { return *P; }
	};

	static std::vector<std::string> Log;
	static std::uint64_t LogSig;
	inline void LogReset() { Log.clear(); LogSig = 99; }
	inline void Ev(const std::string &s) { if (Log.size() < 4000)  Log.push_back(s); LogSig = H::Hash(s, LogSig); }
	inline std::string Tail(size_t n = 60)
	{
		std::string r;
		for (size_t i = Log.size() > n ? Log.size() - n : 0; i < Log.size(); i++)  r += Log[i] + "; ";
		return r;
	}
	[[noreturn]] inline void Bad(const char *k, const std::string &m) { A::Outside O; H::FailStr(k, m + " | history: " + Tail()); }

	// Keys that collide in interesting ways: integers, the same bytes as strings, prefixes, embedded and trailing NULs, empty.
	struct Keys
	{
		std::vector<Key> K;
		Keys(H::Rng &R, size_t n)
		{
			bool Big = R.Chance(1, 25);           // a few very long keys in this case
			while (K.size() < n)
			{
				Key k;
				if (Big && R.Chance(1, 6))
				{
					static const size_t L[] = { 255, 256, 4096, 65535, 65536, 65540, 131072 };
					k.Str = true;
					k.S = std::string(R.Pick(std::vector<size_t>(L, L + 7)) + R.Below(2), 'k');
					if (R.Chance(1, 2))  k.S[k.S.size() - 1 - R.Below(3)] ^= (char)R.Below(4);
					K.push_back(k);
					continue;
				}
				switch (R.Below(9))
				{
					case 8:
					{
						// Another key of eight bytes with the same (default, weak) hash as an earlier one.
						std::uint32_t a[2], b[2];
						const Key *o = K.size() ? &R.Pick(K) : nullptr;
						if (!o || (o->Str && o->S.size() != 8))  { k.I = R.Range(0, 9); break; }
						memcpy(a, o->Str ? o->S.data() : (const char *)&o->I, 8);
						b[0] = a[0] ^ (std::uint32_t)(1 + R.Below(5));
						std::uint32_t h = 5381u * 33;
						b[1] = (h ^ a[0]) * 33 ^ a[1] ^ (h ^ b[0]) * 33;
						k.Str = R.Chance(1, 2);
						if (k.Str)  k.S = std::string((char *)b, 8);
						else  memcpy(&k.I, b, 8);
						break;
					}
					case 0:  k.I = (std::int64_t)R.U64();  break;
					case 1:  k.I = R.Range(-3, 20);  break;
					case 2:  k.I = (std::int64_t)(R.Below(6) << 32 | R.Below(3));  break;
					case 3:  k.Str = true; k.S = std::to_string(R.Below(30));  break;
					case 4:  { std::int64_t v = R.Range(-3, 20); k.Str = true; k.S = std::string((char *)&v, 8); break; }
					case 5:  k.Str = true; k.S = std::string(R.Below(12), R.Chance(1, 2) ? '\0' : 'a');  break;
					case 6:  k.Str = true; k.S = R.Bytes(R.Below(24));  break;
					case 7:
						if (K.size())
						{
							k = R.Pick(K);
							if (!k.Str)  k.I ^= (std::int64_t)1 << R.Below(64);
							else if (k.S.size() && R.Chance(1, 2))  k.S[R.Below(k.S.size())] ^= (char)(1 << R.Below(8));
							else if (R.Chance(1, 2))  k.S += (char)R.Below(2);
							else if (k.S.size())  k.S.pop_back();
						}
						break;
				}
				K.push_back(k);
			}
		}
	};
	// A string key in a buffer of exactly its size, so that reading past it is noticed.
	struct Exact
	{
		char *P;
		size_t N;
		explicit Exact(const std::string &s) : P(new char[s.size()]), N(s.size()) { memcpy(P, s.data(), N); }
		~Exact() { memset(P, 0xEE, N); delete[] P; }
		Exact(const Exact &) = delete;
	};
}
#endif
