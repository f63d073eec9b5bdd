// C13: FastFind against a naive left-to-right scan.
#include "findlib.h"
using namespace FL;
using namespace CubicleSoft;

// One interface over the four variants.
template <class T> struct Plain
{
	FastFind<T> F; bool M;
	Plain(H::Rng &R) : M(Bitwise<T>::Value && R.Chance(1, 2)) {}
	EqFn<T> Eq() { return Same<T>; }
	void SetPattern(const T *p, size_t n) { F.SetPattern(p, n); }
	const T *Next() { return F.FindNext(M); }
};
template <class T> struct Alloc
{
	FastFindAlloc<T, Mgr> F; Mgr G; bool M;
	Alloc(H::Rng &R) : M(Bitwise<T>::Value && R.Chance(1, 2)) {}
	EqFn<T> Eq() { return Same<T>; }
	void SetPattern(const T *p, size_t n) { F.SetPattern(p, n, &G); if (G.Live.size())  Bad("allocator-leak", "setting a pattern kept memory of the custom allocator"); }
	const T *Next() { return F.FindNext(M); }
};
template <class T> struct Compare
{
	FastFindCompare<T, EqFn<T>> F;
	Compare(H::Rng &) {}
	EqFn<T> Eq() { return Loose<T>; }
	void SetPattern(const T *p, size_t n) { F.SetPattern(p, n, Loose<T>); }
	const T *Next() { return F.FindNext(Loose<T>); }
};
template <class T> struct AllocCompare
{
	FastFindAllocCompare<T, Mgr, EqFn<T>> F; Mgr G;
	AllocCompare(H::Rng &) {}
	EqFn<T> Eq() { return Loose<T>; }
	void SetPattern(const T *p, size_t n) { F.SetPattern(p, n, &G, Loose<T>); if (G.Live.size())  Bad("allocator-leak", "setting a pattern kept memory of the custom allocator"); }
	const T *Next() { return F.FindNext(Loose<T>); }
};

template <class T, template <class> class W> static void Go(H::Rng &R, const char *Name)
{
	LogReset();
	Ev(Name);
	static_assert(sizeof(W<T>) < 65536, "");
	alignas(16) static char Mem[65536];
	memset(Mem, 0xA5, sizeof(W<T>));
	A::Scope S;
	W<T> *X = new (Mem) W<T>(R);
	std::uint64_t Found = 0;
	{
		A::Outside O;
		for (std::uint64_t Round = R.Range(1, 4); Round; Round--)
		{
			Text<T> X1(R);
			Block<T> N(X1.Needle);
			Ev("pattern " + Show(X1.Needle));
			{ A::Scope S2; X->SetPattern(N.P, N.N); }
			if (A::Live())  Bad("leak", "setting a pattern kept memory");
			if (R.Chance(1, 6) && X->Next())  Bad("found-without-data", "a match was reported before any data was set for the pattern");
			for (std::uint64_t D = R.Range(1, 3); D; D--)
			{
				std::vector<T> H1 = X1.Hay;
				if (D > 1)
				{
					// The same pattern on a part of the text.
					size_t a = R.Below(H1.size() + 1), b = R.Below(H1.size() + 1);
					H1.assign(X1.Hay.begin() + std::min(a, b), X1.Hay.begin() + std::max(a, b));
				}
				Block<T> B(H1);
				Ev("data " + Show(H1));
				X->F.SetData(B.P, B.N);
				size_t Cur = 0, n = N.N;
				auto F2 = X->F;
				bool Done = false;
				size_t Stop = R.Chance(1, 8) ? R.Below(4) : (size_t)-1;
				unsigned SkipOdds = (unsigned)R.Below(4);
				for (size_t Steps = 0; !Done && Steps < Stop; Steps++)
				{
					size_t Want = NextMatch(H1, Cur, X1.Needle, X->Eq());
					const T *P = X->Next();
					if (Want == (size_t)-1)
					{
						if (P)  Bad("false-match", H::Format("a match at %td that a naive scan from %zu does not find", P - B.P, Cur));
						Done = true;
						break;
					}
					if (!P)  Bad("missed-match", H::Format("no match reported, but there is one at %zu (scanning from %zu)", Want, Cur));
					if (P != B.P + Want)  Bad("wrong-match", H::Format("match reported at %td; the first from %zu is at %zu", P - B.P, Cur, Want));
					Found++;
					Cur = Want + 1;
					if (R.Chance(SkipOdds, 3))
					{
						size_t Extra = R.Chance(1, 3) ? R.Below(5) : 0;
						if (Want + n + Extra > H1.size())  Extra = H1.size() - Want - n;
						const T *Q = X->F.SkipMatch(Extra);
						Cur = Want + n + Extra;
						Ev(H::Format("at %zu skip +%zu", Want, Extra));
						if (Q != B.P + Cur)  Bad("wrong-skip", H::Format("skipping the match at %zu and %zu more led to %td, not %zu", Want, Extra, Q ? Q - B.P : (ptrdiff_t)-1, Cur));
					}
					else  Ev(H::Format("at %zu", Want));
					if (R.Chance(1, 10))
					{
						// A copy carries on from where the original is, without moving it.
						auto Keep = X->F;
						size_t W2 = NextMatch(H1, Cur, X1.Needle, X->Eq());
						const T *P2 = X->Next();
						if (P2 != (W2 == (size_t)-1 ? nullptr : B.P + W2))  Bad("wrong-match", H::Format("next match after %zu is not %zu", Cur, W2));
						X->F = Keep;
					}
				}
				if (Done)
				{
					if (X->Next())  Bad("match-after-end", "a match was reported after the end had been reported");
					if (X->F.SkipMatch())  Bad("skip-after-end", "skipping after the end did not report the end");
				}
				(void)F2;
			}
			if (!Bitwise<T>::Value)  H::Count("elementwise-rounds");
			H::Count(N.N == 0 ? "needle:0" : N.N == 1 ? "needle:1" : N.N < 5 ? "needle:2-4" : N.N < 10 ? "needle:5-9" : N.N < 15 ? "needle:10-14" : N.N < 1000 ? "needle:15+" : "needle:1000+");
		}
	}
	X->~W<T>();
	if (A::Live())  Bad("leak", "the searcher leaked memory");
	A::Outside O;
	H::Count("matches", Found);
	H::Count((std::string("variant:") + Name).c_str());
	if (Found)  H::Sig(LogSig);
	if (Found && H::WantSample())  H::Sample(Tail(12));
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	A::Reset();
	switch (R.Below(20))
	{
		case 0: case 1: case 2: case 3:  Go<char, Plain>(R, "char");  break;
		case 4: case 5:  Go<char, Alloc>(R, "char/alloc");  break;
		case 6: case 7:  Go<char, Compare>(R, "char/compare");  break;
		case 8: case 9:  Go<char, AllocCompare>(R, "char/alloc/compare");  break;
		case 10:  Go<unsigned char, Plain>(R, "uchar");  break;
		case 11:  Go<short, Plain>(R, "short");  break;
		case 12:  Go<std::int64_t, Plain>(R, "int64");  break;
		case 13:  Go<std::int64_t, AllocCompare>(R, "int64/alloc/compare");  break;
		case 14:  Go<std::int64_t, Compare>(R, "int64/compare");  break;
		case 15:  Go<double, Plain>(R, "double");  break;
		case 16:  Go<double, Alloc>(R, "double/alloc");  break;
		case 17:  Go<Pair, Plain>(R, "pair");  break;
		case 18:  Go<Pair, Compare>(R, "pair/compare");  break;
		case 19:  Go<wchar_t, Alloc>(R, "wchar/alloc");  break;
	}
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
