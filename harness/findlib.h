// Shared by the find and replace drivers: element types, texts that stress the search strategies, an allocator that watches.
#ifndef VERIF_FINDLIB_H
#define VERIF_FINDLIB_H
#include "contlib.h"
#include "templates/fast_find_replace.h"

namespace FL
{
	using namespace CL;
	// A structure with padding, only comparable element by element.
	struct Pair
	{
		char A;
		std::int32_t B;
		bool operator==(const Pair &o) const { return A == o.A && B == o.B; }
		bool operator!=(const Pair &o) const { return !(*this == o); }
		explicit operator bool() const { return A || B; }
	};
	// With a constructor, so that elements behind a result can be told from raw memory.
	struct Made
	{
		std::int32_t V;
		Made() : V(0x600DBEEF) {}
		explicit Made(unsigned v) : V((std::int32_t)v) {}
		bool operator==(const Made &o) const { return V == o.V; }
		bool operator!=(const Made &o) const { return V != o.V; }
		explicit operator bool() const { return V != 0; }
	};
	template <class T> void CheckMade(const T &) {}
	template <> inline void CheckMade<Made>(const Made &m) { if (m.V != 0x600DBEEF)  Bad("extra-not-constructed", "an extra element behind the result was not constructed"); }
	template <class T> T Make(unsigned v, H::Rng &) { return (T)v; }
	template <> inline double Make<double>(unsigned v, H::Rng &R) { return v ? (double)v / 4 : (R.Chance(1, 2) ? 0.0 : -0.0); }
	template <> inline Pair Make<Pair>(unsigned v, H::Rng &R)
	{
		Pair p;
		memset(&p, (int)R.Below(256), sizeof(p));
		p.A = (char)(v & 3);
		p.B = (std::int32_t)(v >> 2);
		return p;
	}
	template <> inline std::int64_t Make<std::int64_t>(unsigned v, H::Rng &) { return (std::int64_t)v << 32 | (v & 1); }
	template <class T> struct Bitwise { static const bool Value = true; };
	template <> struct Bitwise<double> { static const bool Value = false; };
	template <> struct Bitwise<Pair> { static const bool Value = false; };
	template <class T> bool Same(const T &a, const T &b) { return a == b; }
	// Equality looser than identity.
	template <class T> bool Loose(const T &a, const T &b) { return a == b; }
	template <> inline bool Loose<char>(const char &a, const char &b) { return a == b || ((a | 32) == (b | 32) && (a | 32) >= 'a' && (a | 32) <= 'z'); }
	template <> inline bool Loose<std::int64_t>(const std::int64_t &a, const std::int64_t &b) { return a >> 32 == b >> 32; }
	template <class T> using EqFn = bool (*)(const T &, const T &);

	// Allocator in the style the templates expect: static functions taking the manager.
	struct Mgr
	{
		std::map<void *, size_t> Live;
		std::uint64_t Calls = 0;
		static void *malloc(void *m, size_t n)
		{
			if (!m)  Bad("allocator-manager", "the custom allocator was called without its manager");
			A::Outside O;
			Mgr *M = (Mgr *)m;
			M->Calls++;
			void *p = ::malloc(n);
			memset(p, 0xA5, n);
			M->Live[p] = n;
			return p;
		}
		static void free(void *m, void *p)
		{
			if (!m)  Bad("allocator-manager", "the custom allocator was called without its manager");
			A::Outside O;
			Mgr *M = (Mgr *)m;
			if (!p)  return;
			if (!M->Live.erase(p))  Bad("allocator-free", "memory the custom allocator does not own (or has freed) was freed through it");
			::free(p);
		}
		static void *realloc(void *m, void *p, size_t n)
		{
			if (!m)  Bad("allocator-manager", "the custom allocator was called without its manager");
			Mgr *M = (Mgr *)m;
			if (p && !M->Live.count(p))  Bad("allocator-free", "memory the custom allocator does not own (or has freed) was resized through it");
			void *q = malloc(m, n);
			if (p)
			{
				memcpy(q, p, std::min(n, M->Live[p]));
				free(m, p);
			}
			return q;
		}
	};

	// A needle and a haystack made to nearly match.
	template <class T> struct Text
	{
		std::vector<T> Needle, Hay;
		static size_t NeedleLen(H::Rng &R)
		{
			switch (R.Below(12))
			{
				case 0:  return 1;
				case 1:  return 2;
				case 2:  return (size_t)R.Range(3, 4);
				case 3:  case 4:  return (size_t)R.Range(5, 9);
				case 5:  case 6:  return (size_t)R.Range(10, 14);
				case 7:  case 8:  return (size_t)R.Range(15, 20);
				case 9:  return (size_t)R.Range(15, 70);
				case 10:  return R.Chance(1, 20) ? 0 : (size_t)R.Range(1, 6);
			}
			return R.Chance(1, 6) ? (size_t)R.Range(1020, 1034) : (size_t)R.Range(1, 40);
		}
		explicit Text(H::Rng &R)
		{
			unsigned Alpha = R.Pick(std::vector<unsigned>{1, 2, 2, 3, 4, 26, 120, 256});
			unsigned Off = R.Chance(1, 2) ? 0 : (unsigned)R.Below(256);
			auto Val = [&]() { return Make<T>((unsigned)((Off + R.Below(Alpha)) % 256), R); };
			size_t n = NeedleLen(R);
			switch (R.Below(4))
			{
				case 0:  for (size_t i = 0; i < n; i++)  Needle.push_back(Val());  break;
				case 1:
				{
					// Periodic, with perhaps one odd value.
					size_t p = (size_t)R.Range(1, 6);
					std::vector<T> u;
					for (size_t i = 0; i < p; i++)  u.push_back(Val());
					for (size_t i = 0; i < n; i++)  Needle.push_back(u[i % p]);
					if (n && R.Chance(1, 2))  Needle[R.Below(n)] = Val();
					break;
				}
				case 2:  for (size_t i = 0; i < n; i++)  Needle.push_back(Make<T>((unsigned)((Off + i) % 256), R));  break;
				case 3:
				{
					// Runs.
					while (Needle.size() < n)  { T v = Val(); for (std::uint64_t k = R.Range(1, 5); k && Needle.size() < n; k--)  Needle.push_back(v); }
					break;
				}
			}
			for (std::uint64_t k = R.Below(12); k; k--)
			{
				switch (R.Below(6))
				{
					case 0:  for (std::uint64_t j = R.Below(30); j; j--)  Hay.push_back(Val());  break;
					case 1:  case 2:  Hay.insert(Hay.end(), Needle.begin(), Needle.end());  break;
					case 3:
					{
						// One element off.
						std::vector<T> c = Needle;
						if (c.size())  c[R.Below(c.size())] = Val();
						Hay.insert(Hay.end(), c.begin(), c.end());
						break;
					}
					case 4:
					{
						// Cut short.
						size_t m = R.Below(n + 1);
						if (R.Chance(1, 2))  Hay.insert(Hay.end(), Needle.begin(), Needle.begin() + m);
						else  Hay.insert(Hay.end(), Needle.begin() + m, Needle.end());
						break;
					}
					case 5:  if (Needle.size())  for (std::uint64_t j = R.Below(20); j; j--)  Hay.push_back(R.Pick(Needle));  break;
				}
			}
		}
	};
	// Elements in a heap block of exactly their size.
	template <class T> struct Block
	{
		T *P;
		size_t N;
		explicit Block(const std::vector<T> &v) : P((T *)::malloc(v.size() * sizeof(T))), N(v.size()) { if (N)  memcpy((void *)P, v.data(), N * sizeof(T)); }
		Block(size_t n) : P((T *)::malloc(n * sizeof(T))), N(n) { memset((void *)P, 0xA5, n * sizeof(T)); }
		~Block() { ::free((void *)P); }
		Block(const Block &) = delete;
	};
	template <class T> bool MatchAt(const std::vector<T> &h, size_t i, const std::vector<T> &n, EqFn<T> Eq)
	{
		if (n.empty() || h.size() < n.size() || i > h.size() - n.size())  return false;
		for (size_t k = 0; k < n.size(); k++)  if (!Eq(n[k], h[i + k]))  return false;
		return true;
	}
	template <class T> size_t NextMatch(const std::vector<T> &h, size_t i, const std::vector<T> &n, EqFn<T> Eq)
	{
		for (; i < h.size(); i++)  if (MatchAt(h, i, n, Eq))  return i;
		return (size_t)-1;
	}
	template <class T> std::string Show(const std::vector<T> &v)
	{
		std::string r = H::Format("%zu:", v.size());
		for (size_t i = 0; i < v.size() && i < 80; i++)  r += H::Escape(std::string((const char *)&v[i], sizeof(T)), 40) + (sizeof(T) > 1 ? "," : "");
		return r;
	}
}
#endif
