// C12: cache, fixed-size vector and fixed-size 2-D array.
#include "contlib.h"
#include <cstddef>
#include "templates/cache.h"
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
using namespace CubicleSoft;
using namespace CL;

static std::uint64_t nIns, nHit, nMiss, nRem, nEvictSeen, nCopy, nCells, nCmp;

template <class T> T *Raw() { void *m = malloc(sizeof(T)); memset(m, 0xA5, sizeof(T)); return (T *)m; }

struct SKey { std::string S; bool operator==(const SKey &o) const { return S == o.S; } };

template <class C, class K, bool CanCopy> struct CopyC { static C *Copy(C *) { return nullptr; } static void Assign(C *, C *) {} };
template <class C, class K> struct CopyC<C, K, true> { static C *Copy(C *c) { return new (Raw<C>()) C(*c); } static void Assign(C *a, C *b) { *a = *b; } };

template <class C, class K, bool CanCopy> static void CacheCase(H::Rng &R)
{
	// A key always comes with its own hash; several keys share slots.
	struct KI { K Key; size_t Hash; };
	size_t nK = (size_t)R.Range(2, 30);
	std::vector<KI> Ks;
	bool SmallHash = R.Chance(1, 2);
	for (size_t i = 0; i < nK; i++)
	{
		KI k;
		std::string s = "k" + std::to_string(i) + R.FromAlphabet(R.Below(6), "ab");
		k.Key.S = s;
		if (SmallHash)  k.Hash = R.Below(20);
		else if (R.Chance(1, 2))  { std::vector<char> b(s.begin(), s.end()); b.push_back(0); k.Hash = CacheUtil::GetHashKey(b.data()); }
		else  { std::vector<std::uint8_t> b(s.begin(), s.end()); k.Hash = CacheUtil::GetHashKey(b.data(), b.size()); }
		if (R.Chance(1, 10))  k.Hash = (size_t)-1 - R.Below(3);
		Ks.push_back(k);
	}
	struct Inst { C *P; size_t Size; std::vector<std::int64_t> Last; std::vector<char> May, Must; };
	std::vector<Inst> L;
	auto Make = [&]() {
		static const size_t Pr[] = { 1, 2, 3, 5, 11, 23, 47, 97 };
		Inst x;
		x.Size = Pr[R.Below(8)];
		{ A::Scope S; x.P = new (Raw<C>()) C(x.Size); }
		x.Last.assign(nK, 0);
		x.May.assign(nK, 0);
		x.Must.assign(nK, 0);
		Ev(H::Format("cache of %zu", x.Size));
		L.push_back(x);
	};
	auto Kill = [&](Inst &x) { A::Scope S; x.P->~C(); free(x.P); };
	Make();
	std::int64_t NextVal = 1;
	auto Look = [&](Inst &x, size_t k) {
		V Res((std::int64_t)-7);
		bool E = x.P->Exists(Ks[k].Hash, Ks[k].Key);
		bool F;
		{ A::Scope S; F = x.P->Find(Res, Ks[k].Hash, Ks[k].Key); }
		if (E != F)  Bad("find", "exists and find disagree");
		if (F)
		{
			nHit++;
			if (!x.May[k])  Bad("find", "a key that was removed, evicted or never inserted is found");
			if (Res.Get() != x.Last[k])  Bad("value", H::Format("the value found is %lld, last inserted was %lld", (long long)Res.Get(), (long long)x.Last[k]));
		}
		else
		{
			nMiss++;
			if (Res.Get() != -7)  Bad("find", "a failed find changed the result");
			if (x.Must[k])  Bad("lost", "a key that must be there is not found");
		}
		return F;
	};
	int Steps = (int)R.Range(5, 120);
	for (int s = 0; s < Steps; s++)
	{
		size_t li = R.Below(L.size());
		Inst &x = L[li];
		size_t k = R.Below(nK);
		switch (R.Below(10))
		{
			case 0: case 1: case 2: case 3:
			{
				std::int64_t v = NextVal++;
				Ev(H::Format("c%zu insert k%zu", li, k));
				// What is found now may be evicted by this insert; what is found after it stays.
				std::vector<char> Before(nK);
				for (size_t j = 0; j < nK; j++)  Before[j] = Look(x, j);
				{ V Val(v); A::Scope S; x.P->Insert(Ks[k].Hash, Ks[k].Key, Val); }
				nIns++;
				x.Last[k] = v;
				x.May[k] = x.Must[k] = 1;
				size_t Gone = 0;
				for (size_t j = 0; j < nK; j++)
				{
					if (j == k)  continue;
					x.Must[j] = 0;
					bool Now = Look(x, j);
					if (Before[j] && !Now)  { Gone++; x.May[j] = 0; }
					if (!Before[j] && Now)  Bad("find", "inserting one key made another appear");
					x.Must[j] = Now;
				}
				if (Gone > 1)  Bad("evict", "one insert evicted several keys");
				nEvictSeen += Gone;
				if (!Look(x, k))  Bad("lost", "the key just inserted is not found");
				break;
			}
			case 4: case 5:
			{
				bool Was = Look(x, k);
				Ev(H::Format("c%zu remove k%zu", li, k));
				bool Ok;
				{ A::Scope S; Ok = x.P->Remove(Ks[k].Hash, Ks[k].Key); }
				if (Ok != Was)  Bad("remove", "remove reported the wrong result");
				x.May[k] = x.Must[k] = 0;
				nRem++;
				break;
			}
			case 6:
				if (R.Chance(1, 4))
				{
					Ev(H::Format("c%zu empty", li));
					{ A::Scope S; x.P->Empty(); }
					x.May.assign(nK, 0);
					x.Must.assign(nK, 0);
				}
				break;
			case 7:
			{
				if (!CanCopy)  break;
				Ev(H::Format("copy c%zu", li));
				Inst y = x;
				{ A::Scope S; y.P = CopyC<C, K, CanCopy>::Copy(x.P); }
				nCopy++;
				L.push_back(y);
				if (L.size() > 4)  { Kill(L[0]); L.erase(L.begin()); }
				break;
			}
			case 8:
			{
				if (!CanCopy)  break;
				if (L.size() < 3)  Make();
				size_t j = R.Below(L.size());
				Ev(H::Format("c%zu = c%zu", li, j));
				{ A::Scope S; CopyC<C, K, CanCopy>::Assign(L[li].P, L[j].P); }
				nCopy++;
				C *P = L[li].P;
				L[li] = L[j];
				L[li].P = P;
				break;
			}
			default:  Look(x, k);  break;
		}
		for (auto &y : L)
		{
			if (y.P->GetSize() != y.Size)  Bad("size", "the size changed");
			for (size_t j = 0; j < nK; j++)  Look(y, j);
		}
	}
	for (auto &y : L)  Kill(y);
}

static void VectorCase(H::Rng &R)
{
	typedef StaticVector<V> C;
	struct Inst { C *P; std::vector<std::int64_t> M; };
	std::vector<Inst> L;
	auto Make = [&]() {
		Inst x;
		size_t n = R.Chance(1, 6) ? 0 : R.Below(20);
		{ A::Scope S; x.P = new (Raw<C>()) C(n); }
		x.M.assign(n, -1);
		Ev(H::Format("vector of %zu", n));
		L.push_back(x);
	};
	auto Check = [&](Inst &x) {
		if (x.P->GetSize() != x.M.size())  Bad("size", "the vector's size is wrong");
		for (size_t i = 0; i < x.M.size(); i++)
		{
			if ((*x.P)[i].Get() != x.M[i])  Bad("value", H::Format("cell %zu is %lld instead of %lld", i, (long long)(*x.P)[i].Get(), (long long)x.M[i]));
			if (x.P->RawData() + i != &(*x.P)[i])  Bad("value", "raw data and index disagree");
		}
	};
	Make();
	Make();
	int Steps = (int)R.Range(5, 80);
	std::int64_t NextVal = 1;
	for (int s = 0; s < Steps; s++)
	{
		size_t a = R.Below(L.size()), b = R.Below(L.size());
		switch (R.Below(6))
		{
			case 0: case 1: case 2:
			{
				if (L[a].M.empty())  break;
				size_t i = R.Below(L[a].M.size());
				std::int64_t v = R.Chance(1, 2) ? NextVal++ : (std::int64_t)R.Below(2);
				Ev(H::Format("v%zu[%zu] = %lld", a, i, (long long)v));
				(*L[a].P)[i] = V(v);
				L[a].M[i] = v;
				nCells++;
				break;
			}
			case 3:
			{
				Ev(H::Format("v%zu = v%zu", a, b));
				{ A::Scope S; *L[a].P = *L[b].P; }
				L[a].M = L[b].M;
				nCopy++;
				break;
			}
			case 4:
			{
				Ev(H::Format("copy v%zu", a));
				Inst y;
				y.M = L[a].M;
				{ A::Scope S; y.P = new (Raw<C>()) C(*L[a].P); }
				nCopy++;
				L.push_back(y);
				if (L.size() > 4)  { { A::Scope S; L[0].P->~C(); free(L[0].P); } L.erase(L.begin()); }
				break;
			}
			case 5:  if (L.size() < 4)  Make();  break;
		}
		for (auto &x : L)
		{
			Check(x);
			for (auto &y : L)
			{
				nCmp++;
				if ((*x.P == *y.P) != (x.M == y.M) || (*x.P != *y.P) != (x.M != y.M))  Bad("compare", "comparison does not agree with the cells");
			}
		}
	}
	for (auto &x : L)  { A::Scope S; x.P->~C(); free(x.P); }
}

static void ArrayCase(H::Rng &R)
{
	typedef Static2DArray<V> C;
	struct Inst { C *P; size_t W, Ht; std::vector<std::int64_t> M; };
	std::vector<Inst> L;
	auto Make = [&]() {
		Inst x;
		x.W = 1 + R.Below(6);
		x.Ht = 1 + R.Below(6);
		if (L.size() && R.Chance(1, 3))  { x.W = L[0].Ht; x.Ht = L[0].W; }
		{ A::Scope S; x.P = new (Raw<C>()) C(x.W, x.Ht); }
		x.M.assign(x.W * x.Ht, -1);
		Ev(H::Format("array %zu x %zu", x.W, x.Ht));
		L.push_back(x);
	};
	Make();
	Make();
	int Steps = (int)R.Range(5, 80);
	std::int64_t NextVal = 1;
	for (int s = 0; s < Steps; s++)
	{
		size_t a = R.Below(L.size()), b = R.Below(L.size());
		switch (R.Below(6))
		{
			case 0: case 1: case 2:
			{
				size_t i = R.Below(L[a].W), j = R.Below(L[a].Ht);
				std::int64_t v = R.Chance(1, 2) ? NextVal++ : (std::int64_t)R.Below(2);
				Ev(H::Format("a%zu[%zu][%zu] = %lld", a, j, i, (long long)v));
				(*L[a].P)[j][i] = V(v);
				L[a].M[j * L[a].W + i] = v;
				nCells++;
				break;
			}
			case 3:
			{
				Ev(H::Format("a%zu = a%zu", a, b));
				{ A::Scope S; *L[a].P = *L[b].P; }
				C *P = L[a].P;
				L[a] = L[b];
				L[a].P = P;
				nCopy++;
				break;
			}
			case 4:
			{
				Ev(H::Format("copy a%zu", a));
				Inst y = L[a];
				{ A::Scope S; y.P = new (Raw<C>()) C(*L[a].P); }
				nCopy++;
				L.push_back(y);
				if (L.size() > 4)  { { A::Scope S; L[0].P->~C(); free(L[0].P); } L.erase(L.begin()); }
				break;
			}
			case 5:  if (L.size() < 4)  Make();  break;
		}
		for (auto &x : L)
		{
			if (x.P->GetWidth() != x.W || x.P->GetHeight() != x.Ht)  Bad("size", "the array's shape is wrong");
			for (size_t j = 0; j < x.Ht; j++)
				for (size_t i = 0; i < x.W; i++)
				{
					if ((*x.P)[j][i].Get() != x.M[j * x.W + i])  Bad("value", H::Format("cell [%zu][%zu] is %lld instead of %lld", j, i, (long long)(*x.P)[j][i].Get(), (long long)x.M[j * x.W + i]));
					if (&x.P->RawData()[j][i] != &(*x.P)[j][i])  Bad("value", "raw data and index disagree");
				}
			for (auto &y : L)
			{
				nCmp++;
				bool Eq = x.W == y.W && x.Ht == y.Ht && x.M == y.M;
				if ((*x.P == *y.P) != Eq || (*x.P != *y.P) == Eq)  Bad("compare", "comparison does not agree with the cells");
			}
		}
	}
	for (auto &x : L)  { A::Scope S; x.P->~C(); free(x.P); }
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	A::Reset();
	LogReset();
	std::int64_t I0 = Instances;
	switch (R.Below(6))
	{
		case 0: case 1:  CacheCase<Cache<SKey, V>, SKey, true>(R);  break;
		case 2:  CacheCase<CacheNoCopy<SKey, V>, SKey, false>(R);  break;
		case 3:  VectorCase(R);  break;
		default:  ArrayCase(R);  break;
	}
	if (Instances != I0)  Bad("leak", H::Format("%lld values are still alive", (long long)(Instances - I0)));
	if (A::Live())  Bad("leak", H::Format("%zu blocks are still allocated", A::Live()));
	if (H::WantSample())  H::Sample(Tail(30));
	H::Sig(LogSig);
	auto &c = H::G().Counters;
	c["cache inserts"] = nIns; c["cache hits"] = nHit; c["cache misses"] = nMiss; c["cache removals"] = nRem; c["evictions seen"] = nEvictSeen; c["copies and assignments"] = nCopy; c["cells written"] = nCells; c["comparisons"] = nCmp;
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
