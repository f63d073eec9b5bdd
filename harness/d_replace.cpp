// C14: FastReplace (one-shot, into fixed buffers, in place, and step by step) against naive replacement.
#include "findlib.h"
using namespace FL;
using namespace CubicleSoft;

static const size_t None = (size_t)-1;

template <class T> struct Plain
{
	typedef FastReplace<T> Cls;
	Mgr G; bool M;
	Plain(H::Rng &R) : M(Bitwise<T>::Value && R.Chance(1, 2)) {}
	EqFn<T> Eq() { return Same<T>; }
	size_t All(T *&r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::ReplaceAll(r, rs, d, ds, p, ps, w, ws, lim, gr, ex, M); }
	size_t Static(T *r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::StaticReplaceAll(r, rs, d, ds, p, ps, w, ws, lim, gr, ex, M); }
	void SetPattern(Cls &c, const T *p, size_t n) { c.SetPattern(p, n); }
	const T *Next(Cls &c) { return c.FindNext(M); }
	void Free(T *p) { delete[] reinterpret_cast<char *>(p); }
	size_t Room(T *) { return None; }
};
template <class T> struct Alloc
{
	typedef FastReplaceAlloc<T, Mgr> Cls;
	Mgr G; bool M;
	Alloc(H::Rng &R) : M(Bitwise<T>::Value && R.Chance(1, 2)) {}
	EqFn<T> Eq() { return Same<T>; }
	size_t All(T *&r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::ReplaceAll(r, rs, d, ds, p, ps, w, ws, &G, lim, gr, ex, M); }
	size_t Static(T *r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::StaticReplaceAll(r, rs, d, ds, p, ps, w, ws, &G, lim, gr, ex, M); }
	void SetPattern(Cls &c, const T *p, size_t n) { c.SetPattern(p, n, &G); }
	const T *Next(Cls &c) { return c.FindNext(M); }
	void Free(T *p) { Mgr::free(&G, p); }
};
template <class T> struct Compare
{
	typedef FastReplaceCompare<T, EqFn<T>> Cls;
	Mgr G;
	Compare(H::Rng &) {}
	EqFn<T> Eq() { return Loose<T>; }
	size_t All(T *&r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::ReplaceAll(r, rs, d, ds, p, ps, w, ws, Loose<T>, lim, gr, ex); }
	size_t Static(T *r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::StaticReplaceAll(r, rs, d, ds, p, ps, w, ws, Loose<T>, lim, gr, ex); }
	void SetPattern(Cls &c, const T *p, size_t n) { c.SetPattern(p, n, Loose<T>); }
	const T *Next(Cls &c) { return c.FindNext(Loose<T>); }
	void Free(T *p) { delete[] reinterpret_cast<char *>(p); }
};
template <class T> struct AllocCompare
{
	typedef FastReplaceAllocCompare<T, Mgr, EqFn<T>> Cls;
	Mgr G;
	AllocCompare(H::Rng &) {}
	EqFn<T> Eq() { return Loose<T>; }
	size_t All(T *&r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::ReplaceAll(r, rs, d, ds, p, ps, w, ws, &G, Loose<T>, lim, gr, ex); }
	size_t Static(T *r, size_t &rs, const T *d, size_t ds, const T *p, size_t ps, const T *w, size_t ws, size_t lim, size_t gr, size_t ex) { return Cls::StaticReplaceAll(r, rs, d, ds, p, ps, w, ws, &G, Loose<T>, lim, gr, ex); }
	void SetPattern(Cls &c, const T *p, size_t n) { c.SetPattern(p, n, &G, Loose<T>); }
	const T *Next(Cls &c) { return c.FindNext(Loose<T>); }
	void Free(T *p) { Mgr::free(&G, p); }
};

template <class T> static std::vector<T> Naive(const std::vector<T> &h, const std::vector<T> &n, const std::vector<T> &w, size_t Limit, EqFn<T> Eq, size_t &Num)
{
	std::vector<T> r;
	Num = 0;
	for (size_t i = 0; i < h.size(); )
	{
		if (Num < Limit && MatchAt(h, i, n, Eq))  { r.insert(r.end(), w.begin(), w.end()); i += n.size(); Num++; }
		else  r.push_back(h[i++]);
	}
	return r;
}
// Elements passed with a length, or ended by a zero element and passed without.
template <class T> struct Arg
{
	bool Z;
	std::vector<T> V;
	Block<T> B;
	static bool CanEnd(const std::vector<T> &v) { for (const T &t : v)  if (!t)  return false; return true; }
	static std::vector<T> With(std::vector<T> v, bool z) { if (z)  { T t; memset((void *)&t, 0, sizeof(t)); v.push_back(t); } return v; }
	Arg(const std::vector<T> &v, H::Rng &R) : Z(CanEnd(v) && R.Chance(1, 4)), V(With(v, Z)), B(V) { if (Z)  H::Count("zero-ended-argument"); }
	size_t N() { return Z ? None : B.N; }
};
template <class T> static void CheckOut(const char *What, const T *Got, size_t GotN, const std::vector<T> &Want, size_t Cap)
{
	size_t n = std::min(Want.size(), Cap);
	if (GotN != n)  Bad("wrong-size", H::Format("%s: %zu elements, expected %zu (capacity %zu): %s", What, GotN, n, Cap, Show(Want).c_str()));
	for (size_t i = 0; i < n; i++)
	{
		if (!(Got[i] == Want[i]))  Bad("wrong-content", H::Format("%s: element %zu of %zu differs from %s", What, i, n, Show(Want).c_str()));
	}
}

template <class T, template <class> class W> static void Go(H::Rng &R, const char *Name)
{
	LogReset();
	Ev(Name);
	typedef typename W<T>::Cls Cls;
	W<T> X(R);
	std::uint64_t Changed = 0;
	auto MakeRepl = [&](const std::vector<T> &Needle, size_t Max) {
		std::vector<T> w;
		size_t n = std::min(Max, R.Chance(1, 3) ? (size_t)R.Below(4) : R.Chance(1, 3) ? Needle.size() : (size_t)R.Below(Needle.size() + 12));
		for (size_t i = 0; i < n; i++)  w.push_back(Needle.size() && R.Chance(1, 2) ? R.Pick(Needle) : Make<T>((unsigned)R.Below(256), R));
		return w;
	};
	auto MakeLimit = [&]() { return R.Chance(1, 2) ? None : (size_t)R.Below(6); };
	auto MakeGrowth = [&]() { return R.Chance(1, 3) ? (size_t)1024 : (size_t)R.Below(6); };

	switch (R.Below(4))
	{
		case 0:
		{
			Text<T> X1(R);
			std::vector<T> Wv = MakeRepl(X1.Needle, 100000);
			size_t Lim = MakeLimit(), Gr = MakeGrowth(), Ex = R.Below(4), Num;
			std::vector<T> Want = Naive(X1.Hay, X1.Needle, Wv, Lim, X.Eq(), Num);
			Block<T> D(X1.Hay);
			Arg<T> P(X1.Needle, R), Wb(Wv, R);
			Ev(H::Format("all limit %zd growth %zu extra %zu pattern ", (ssize_t)Lim, Gr, Ex) + Show(X1.Needle) + " with " + Show(Wv) + " in " + Show(X1.Hay));
			T *Res = (T *)0x10;
			size_t ResN = 0xA5A5, Got;
			{ A::Scope S; Got = X.All(Res, ResN, D.P, D.N, P.B.P, P.N(), Wb.B.P, Wb.N(), Lim, Gr, Ex); }
			if (Got != Num)  Bad("wrong-count", H::Format("reported %zu replacements, not %zu", Got, Num));
			CheckOut("replace all", Res, ResN, Want, None);
			// The extra elements asked for belong to the caller.
			for (size_t i = 0; i < Ex; i++)  { CheckMade<T>(Res[ResN + i]); Res[ResN + i] = Make<T>(7, R); }
			X.Free(Res);
			if (X1.Hay.size() != D.N || (D.N && memcmp((void *)D.P, (void *)X1.Hay.data(), D.N * sizeof(T))))  Bad("input-changed", "the input text was changed");
			Changed = Num;
			H::Count("mode:all");
			if (Lim != None && Num == Lim)  H::Count("limit-reached");
			break;
		}
		case 1:
		{
			// Into a fixed buffer, apart from the input.
			Text<T> X1(R);
			std::vector<T> Wv = MakeRepl(X1.Needle, 100000);
			size_t Lim = MakeLimit(), Num;
			std::vector<T> Want = Naive(X1.Hay, X1.Needle, Wv, Lim, X.Eq(), Num);
			size_t Cap = R.Chance(1, 3) ? Want.size() : R.Chance(1, 2) ? R.Below(Want.size() + 3) : (size_t)std::max<std::int64_t>(0, (std::int64_t)Want.size() + R.Range(-3, 30));
			Block<T> D(X1.Hay), Out(Cap);
			Arg<T> P(X1.Needle, R), Wb(Wv, R);
			Ev(H::Format("static cap %zu limit %zd pattern ", Cap, (ssize_t)Lim) + Show(X1.Needle) + " with " + Show(Wv) + " in " + Show(X1.Hay));
			size_t N = Cap, Got;
			{ A::Scope S; Got = X.Static(Out.P, N, D.P, D.N, P.B.P, P.N(), Wb.B.P, Wb.N(), Lim, MakeGrowth(), R.Below(3)); }
			CheckOut("static replace", Out.P, N, Want, Cap);
			if (Cap >= Want.size() ? Got != Num : Got > Num)  Bad("wrong-count", H::Format("reported %zu replacements, not %zu", Got, Num));
			if (D.N && memcmp((void *)D.P, (void *)X1.Hay.data(), D.N * sizeof(T)))  Bad("input-changed", "the input text was changed");
			Changed = Num;
			H::Count(Cap < Want.size() ? "mode:static-truncated" : "mode:static");
			break;
		}
		case 2:
		{
			// In place: the replacement is no longer than the needle.
			Text<T> X1(R);
			std::vector<T> Wv = MakeRepl(X1.Needle, X1.Needle.size());
			size_t Lim = MakeLimit(), Num;
			std::vector<T> Want = Naive(X1.Hay, X1.Needle, Wv, Lim, X.Eq(), Num);
			Block<T> D(X1.Hay);
			Arg<T> P(X1.Needle, R), Wb(Wv, R);
			Ev(H::Format("in place limit %zd pattern ", (ssize_t)Lim) + Show(X1.Needle) + " with " + Show(Wv) + " in " + Show(X1.Hay));
			size_t N = D.N, Got;
			{ A::Scope S; Got = X.Static(D.P, N, D.P, D.N, P.B.P, P.N(), Wb.B.P, Wb.N(), Lim, MakeGrowth(), R.Below(3)); }
			if (Got != Num)  Bad("wrong-count", H::Format("reported %zu replacements, not %zu", Got, Num));
			CheckOut("in-place replace", D.P, N, Want, None);
			Changed = Num;
			H::Count("mode:in-place");
			break;
		}
		case 3:
		{
			// Step by step, with a replacement chosen per match, some matches left alone, the object reused.
			alignas(16) static char Mem[4096];
			static_assert(sizeof(Cls) <= sizeof(Mem), "");
			memset(Mem, 0xA5, sizeof(Cls));
			Cls *C;
			{ A::Scope S; C = new (Mem) Cls; }
			if (R.Chance(1, 10) && X.Next(*C))  Bad("found-without-data", "a match was reported before anything was set");
			for (std::uint64_t Round = R.Range(1, 3); Round; Round--)
			{
				Text<T> X1(R);
				Block<T> P(X1.Needle);
				Ev("pattern " + Show(X1.Needle));
				{ A::Scope S; X.SetPattern(*C, P.P, P.N); }
				for (std::uint64_t Again = R.Range(1, 2); Again; Again--)
				{
					C->SetGrowthSize(MakeGrowth());
					size_t Ex = R.Below(4);
					C->SetExtraAlloc(Ex);
					bool Fixed = R.Chance(1, 3);
					size_t Cap = Fixed ? R.Below(X1.Hay.size() + 40) : None;
					Block<T> D(X1.Hay), Out(Fixed ? Cap : 0);
					Ev(H::Format("data cap %zd ", (ssize_t)Cap) + Show(X1.Hay));
					{
						A::Scope S;
						if (Fixed)  C->SetData(D.P, D.N, Out.P, Cap);
						else  C->SetData(D.P, D.N);
					}
					std::vector<T> Want;
					size_t Cur = 0, Copied = 0;
					bool Full = false, End = false;
					size_t Quit = R.Chance(1, 8) ? R.Below(3) : None;
					for (size_t k = 0; !End && k < Quit; k++)
					{
						size_t At = NextMatch(X1.Hay, Cur, X1.Needle, X.Eq());
						size_t To = At == None ? X1.Hay.size() : At;
						if (Copied < To)  { Want.insert(Want.end(), X1.Hay.begin() + Copied, X1.Hay.begin() + To); Copied = To; }
						const T *N;
						{ A::Scope S; N = X.Next(*C); }
						if (Fixed && Want.size() > Cap)  Full = true;
						if (Full)
						{
							if (N)  Bad("match-after-full", "a match was reported although the fixed buffer could not take the text before it");
							break;
						}
						if (N != (At == None ? nullptr : D.P + At))  Bad("wrong-match", H::Format("match reported at %td, expected %td", N ? N - D.P : (ptrdiff_t)-1, (ptrdiff_t)At));
						CheckOut("text so far", C->GetData(), C->GetDataSize(), Want, Cap);
						if (At == None)  { End = true; break; }
						Cur = At + 1;
						if (R.Chance(1, 5))  { Ev(H::Format("leave %zu", At)); continue; }
						std::vector<T> Wv = MakeRepl(X1.Needle, 100000);
						Block<T> Wb(Wv);
						size_t Extra = R.Chance(1, 4) ? R.Below(8) : 0;
						Ev(H::Format("at %zu +%zu put ", At, Extra) + Show(Wv));
						{ A::Scope S; C->Replace(Wb.P, Wb.N, Extra); }
						Want.insert(Want.end(), Wv.begin(), Wv.end());
						Cur = Copied = std::min(X1.Hay.size(), At + P.N + Extra);
						Changed++;
						CheckOut("text so far", C->GetData(), C->GetDataSize(), Want, Cap);
						if (Fixed && Want.size() > Cap)  { Full = true; break; }
					}
					if (!End && !Full)  { H::Count("steps-abandoned"); continue; }
					CheckOut("stepwise replace", C->GetData(), C->GetDataSize(), Want, Cap);
					if (End && R.Chance(1, 3))
					{
						const T *N;
						{ A::Scope S; N = X.Next(*C); }
						if (N)  Bad("match-after-end", "a match was reported after the end had been reported");
						CheckOut("after the end", C->GetData(), C->GetDataSize(), Want, Cap);
					}
					if (!Fixed && R.Chance(1, 2))
					{
						T *r = C->DetachData();
						for (size_t i = 0; i < Ex; i++)  { if (End)  CheckMade<T>(r[Want.size() + i]); r[Want.size() + i] = Make<T>(7, R); }
						CheckOut("detached", r, C->GetDataSize(), Want, Cap);
						X.Free(r);
						H::Count("detached");
					}
					H::Count(Fixed ? "mode:steps-fixed" : "mode:steps");
				}
			}
			{ A::Scope S; C->~Cls(); }
			break;
		}
	}
	if (A::Live())  Bad("leak", "memory was leaked");
	if (X.G.Live.size())  Bad("allocator-leak", "memory of the custom allocator was leaked");
	H::Count("replacements", Changed);
	H::Count((std::string("variant:") + Name).c_str());
	if (Changed)  H::Sig(LogSig);
	if (Changed && H::WantSample())  H::Sample(Tail(12));
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	A::Reset();
	switch (R.Below(22))
	{
		case 0: case 1: case 2: case 3:  Go<char, Plain>(R, "char");  break;
		case 4: case 5: case 6:  Go<char, Alloc>(R, "char/alloc");  break;
		case 7: case 8:  Go<char, Compare>(R, "char/compare");  break;
		case 9: case 10:  Go<char, AllocCompare>(R, "char/alloc/compare");  break;
		case 11:  Go<unsigned char, Plain>(R, "uchar");  break;
		case 12:  Go<short, Plain>(R, "short");  break;
		case 13:  Go<std::int64_t, Plain>(R, "int64");  break;
		case 14:  Go<std::int64_t, AllocCompare>(R, "int64/alloc/compare");  break;
		case 15:  Go<std::int64_t, Compare>(R, "int64/compare");  break;
		case 16:  Go<double, Plain>(R, "double");  break;
		case 17:  Go<double, Alloc>(R, "double/alloc");  break;
		case 18:  Go<Pair, Plain>(R, "pair");  break;
		case 19:  Go<Pair, AllocCompare>(R, "pair/alloc/compare");  break;
		case 20:  Go<Made, Plain>(R, "constructed");  break;
		case 21:  if (R.Chance(1, 2))  Go<Made, Alloc>(R, "constructed/alloc");  else  Go<Made, Compare>(R, "constructed/compare");  break;
	}
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
