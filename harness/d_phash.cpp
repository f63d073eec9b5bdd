// C10: the packed ordered hash against an insertion-ordered map.
#include "contlib.h"
#include "templates/packed_ordered_hash.h"
using namespace CubicleSoft;
using namespace CL;

typedef PackedOrderedHashNode<V> Node;
struct Ent { Key K; std::int64_t Val; };
static std::uint64_t nSet, nUnset, nCopy, nOpt, nGrow, MaxSize;

template <class Tab> struct Copier { static bool Can() { return false; } static Tab *Copy(Tab *) { return nullptr; } static void Assign(Tab *, Tab *) {} };
template <> struct Copier<PackedOrderedHash<V> >
{
	static bool Can() { return true; }
	static PackedOrderedHash<V> *Copy(PackedOrderedHash<V> *t)
	{
		void *m = malloc(sizeof(*t));
		memset(m, 0xA5, sizeof(*t));
		return new (m) PackedOrderedHash<V>(*t);
	}
	static void Assign(PackedOrderedHash<V> *a, PackedOrderedHash<V> *b) { *a = *b; }
};

template <class Tab> struct Run
{
	H::Rng &R;
	struct Table { Tab *T = nullptr; std::list<Ent> M; std::map<Key, std::list<Ent>::iterator> Ix; };
	std::vector<Table *> Ts;
	Keys Ks;
	std::int64_t NextVal = 1;
	bool Long;
	Run(H::Rng &r, size_t nk, bool l) : R(r), Ks(r, nk), Long(l) {}

	Table *MakeTable()
	{
		Table *t = new Table;
		size_t Est = R.Chance(1, 3) ? R.Below(4) : (R.Chance(1, 10) ? 600 : R.Below(40));
		void *m;
		{ A::Scope S; m = malloc(sizeof(Tab)); }
		memset(m, 0xA5, sizeof(Tab));
		int How = (int)R.Below(4);
		Ev(H::Format("new table est %zu how %d", Est, How));
		A::Scope S;
		if (How == 0)  t->T = new (m) Tab();
		else if (How == 1)  t->T = new (m) Tab(Est);
		else if (How == 2)  t->T = new (m) Tab(Est, R.Chance(1, 2) ? R.Below(2) : R.Next());
		else  t->T = new (m) Tab(Est, R.Next(), R.Next());
		return t;
	}
	void Kill(Table *t) { { A::Scope S; t->T->~Tab(); free(t->T); } delete t; }
	void CheckNode(Node *n, const Ent &e, const char *w)
	{
		if (e.K.Str)
		{
			if (!n->GetStrKey() || n->GetStrLen() != e.K.S.size() || memcmp(n->GetStrKey(), e.K.S.data(), e.K.S.size()))  Bad("key", std::string("wrong key, ") + w + ", expected " + e.K.Text());
		}
		else if (n->GetStrKey() || n->GetIntKey() != e.K.I)  Bad("key", std::string("wrong key, ") + w + ", expected " + e.K.Text());
		if (n->Value.Get() != e.Val)  Bad("value", H::Format("the value is %lld instead of %lld, %s, key ", (long long)n->Value.Get(), (long long)e.Val, w) + e.K.Text());
	}
	Node *Find(Table &t, const Key &k, size_t *Pos = nullptr)
	{
		Exact e(k.S);
		if (!k.Str)  return Pos ? t.T->Find(k.I, *Pos) : t.T->Find(k.I);
		return Pos ? t.T->Find(e.P, e.N, *Pos) : t.T->Find(e.P, e.N);
	}
	void Check(Table &t, bool Full)
	{
		if (t.T->GetSize() != t.M.size())  Bad("size", H::Format("size %zu instead of %zu", t.T->GetSize(), t.M.size()));
		if (!Full)  return;
		// An iteration may start from any position at or beyond the end.
		size_t Beyond = R.Chance(1, 2) ? 0 : R.Chance(1, 2) ? R.Below(100) : (size_t)-1 - t.T->GetNextPos();
		size_t p = t.T->GetNextPos() + Beyond, Last = 0, c = 0;
		Node *n;
		auto it = t.M.begin();
		while ((n = t.T->Next(p)) != NULL)
		{
			if (it == t.M.end())  Bad("order", "forward iteration gives more nodes than the table has");
			CheckNode(n, *it, "iterating");
			if (c++ && p <= Last)  Bad("order", "positions do not increase");
			Last = p;
			if (t.T->GetPos(n) != p || t.T->Get(p) != n)  Bad("position", "position and node do not agree");
			++it;
		}
		if (it != t.M.end())  Bad("order", "forward iteration ends before " + it->K.Text());
		p = t.T->GetNextPos() + Beyond;
		auto rit = t.M.rbegin();
		while ((n = t.T->Prev(p)) != NULL)
		{
			if (rit == t.M.rend())  Bad("order", "backward iteration gives more nodes than the table has");
			CheckNode(n, *rit, "iterating backwards");
			++rit;
		}
		if (rit != t.M.rend())  Bad("order", "backward iteration ends before " + rit->K.Text());
		size_t Used = 0;
		for (size_t i = 0; i < t.T->GetNextPos() + 3; i++)  if (t.T->Get(i))  Used++;
		if (Used != t.M.size())  Bad("position", "the positions in use are not as many as the keys");
		for (auto &e : t.M)
		{
			size_t Pos = 12345678;
			n = Find(t, e.K, R.Chance(1, 2) ? &Pos : nullptr);
			if (!n)  Bad("find", "find does not return the node stored under " + e.K.Text());
			CheckNode(n, e, "found");
			if (Pos != 12345678 && t.T->Get(Pos) != n)  Bad("find", "find gives the wrong position for " + e.K.Text());
		}
		for (int i = 0; i < 4; i++)
		{
			const Key &k = R.Pick(Ks.K);
			if (!t.Ix.count(k) && Find(t, k))  Bad("find", "find returns a node for the absent key " + k.Text());
		}
	}
	// Fills the table and then asks for sizes around the number of keys.
	void Bulk(size_t ti, size_t Huge = 0)
	{
		Table &t = *Ts[ti];
		size_t n = Huge ? Huge : (size_t)R.Range(300, 1800);
		std::int64_t Base = R.Range(0, 3000);
		Ev(H::Format("t%zu bulk %zu from %lld", ti, n, (long long)Base));
		for (size_t i = 0; i < n; i++)
		{
			Key k;
			k.I = Base + (std::int64_t)i;
			std::int64_t v = NextVal++;
			V Val(v);
			{ A::Scope S; t.T->Set(k.I, Val); }
			auto f = t.Ix.find(k);
			if (f == t.Ix.end())  { t.M.push_back(Ent{ k, v }); t.Ix[k] = std::prev(t.M.end()); }
			else  f->second->Val = v;
			nSet++;
		}
		MaxSize = std::max<std::uint64_t>(MaxSize, t.M.size());
		size_t s = R.Chance(1, 2) ? 512 << R.Below(3) : Huge ? (size_t)R.Range((std::int64_t)Huge, 5 * (std::int64_t)Huge) : (size_t)R.Range(1, 4000);
		Ev(H::Format("t%zu resize %zu", ti, s));
		{ A::Scope S; t.T->ResizeHash(s); }
		nGrow++;
		Check(t, true);
	}
	void Step()
	{
		size_t ti = R.Below(Ts.size());
		if (Long && R.Chance(1, 400))  { Bulk(ti); return; }
		Table &t = *Ts[ti];
		int Op = (int)R.Below(Long ? 40 : 16);
		if (Long && Op >= 16)  Op = R.Chance(3, 4) ? 0 : 8;
		switch (Op)
		{
			case 0: case 1: case 2: case 3: case 4: case 5: case 6:
			{
				Key k = R.Pick(Ks.K);
				if (Long && R.Chance(2, 3))  { k.Str = false; k.S.clear(); k.I = R.Range(0, 5000); }
				bool WithVal = R.Chance(3, 4);
				std::int64_t v = NextVal++;
				Ev(H::Format("t%zu set %s", ti, WithVal ? "" : "(no value) ") + k.Text());
				Exact e(k.S);
				V Val(v);
				Node *n;
				{
					A::Scope S;
					if (WithVal)  n = k.Str ? t.T->Set(e.P, e.N, Val) : t.T->Set(k.I, Val);
					else  n = k.Str ? t.T->Set(e.P, e.N) : t.T->Set(k.I);
				}
				if (!n)  Bad("set", "set failed");
				nSet++;
				auto f = t.Ix.find(k);
				if (f == t.Ix.end())
				{
					t.M.push_back(Ent{ k, WithVal ? v : -1 });
					f = t.Ix.insert({ k, std::prev(t.M.end()) }).first;
					MaxSize = std::max<std::uint64_t>(MaxSize, t.M.size());
				}
				else if (WithVal)  f->second->Val = v;
				CheckNode(n, *f->second, "just set");
				break;
			}
			case 7: case 8: case 9: case 10:
			{
				if (t.M.empty() || R.Chance(1, 6))
				{
					const Key &k = R.Pick(Ks.K);
					if (t.Ix.count(k))  break;
					Exact e(k.S);
					Ev(H::Format("t%zu unset absent ", ti) + k.Text());
					if (k.Str ? t.T->Unset(e.P, e.N) : t.T->Unset(k.I))  Bad("unset", "an absent key was removed");
					if (t.T->Unset((Node *)NULL))  Bad("unset", "removing nothing succeeded");
					break;
				}
				int Burst = R.Chance(1, 8) ? (int)R.Below(t.M.size()) + 1 : 1;
				for (; Burst > 0; Burst--)
				{
					auto it = t.M.begin();
					std::advance(it, (long)(R.Chance(1, 3) ? 0 : (R.Chance(1, 2) ? t.M.size() - 1 : R.Below(t.M.size()))));
					Key k = it->K;
					Exact e(k.S);
					bool ByNode = R.Chance(1, 3);
					Ev(H::Format("t%zu unset ", ti) + k.Text());
					A::Scope S;
					bool Ok = ByNode ? t.T->Unset(Find(t, k)) : (k.Str ? t.T->Unset(e.P, e.N) : t.T->Unset(k.I));
					A::Outside O;
					if (!Ok)  Bad("unset", "removing an existing key failed");
					t.Ix.erase(k);
					t.M.erase(it);
					nUnset++;
					if (Find(t, k))  Bad("unset", "a removed key is still found");
				}
				break;
			}
			case 11:
			{
				Ev(H::Format("t%zu optimize", ti));
				t.T->ShouldOptimize();
				A::Scope S;
				if (!t.T->Optimize())  Bad("optimize", "optimize failed");
				A::Outside O;
				if (t.T->GetNextPos() != t.M.size() || t.T->ShouldOptimize())  Bad("optimize", "the table is not compact after optimize");
				nOpt++;
				break;
			}
			case 12:
			{
				A::Scope S;
				if (R.Chance(1, 2))  { A::Outside O; Ev(H::Format("t%zu auto resize", ti)); A::Scope S2; t.T->AutoResizeHash(); }
				else
				{
					A::Outside O;
					size_t n = R.Chance(1, 3) ? R.Below(4) : (R.Chance(1, 5) ? 1 + R.Below(3000) : R.Below(200));
					Ev(H::Format("t%zu resize %zu", ti, n));
					A::Scope S2;
					t.T->ResizeHash(n);
				}
				nGrow++;
				break;
			}
			case 13:
			{
				if (!Copier<Tab>::Can())  break;
				nCopy++;
				Ev(H::Format("copy of t%zu", ti));
				Table *c = new Table;
				{ A::Scope S; c->T = Copier<Tab>::Copy(t.T); }
				Model(*c, t);
				Check(*c, true);
				if (Ts.size() < 4 && R.Chance(1, 2))  Ts.push_back(c);
				else  Kill(c);
				Check(t, true);
				break;
			}
			case 14:
			{
				if (!Copier<Tab>::Can())  break;
				size_t u = R.Below(Ts.size());
				Ev(H::Format("assign t%zu = t%zu", ti, u));
				nCopy++;
				{ A::Scope S; Copier<Tab>::Assign(t.T, Ts[u]->T); }
				if (u != ti)  Model(t, *Ts[u]);
				Check(t, true);
				Check(*Ts[u], true);
				break;
			}
			case 15:
			{
				// Changing a value through a node, and removing while iterating.
				if (R.Chance(1, 2) && t.M.size())
				{
					auto it = t.M.begin();
					std::advance(it, (long)R.Below(t.M.size()));
					Node *n = Find(t, it->K);
					if (!n)  Bad("find", "a live key is not found");
					it->Val = NextVal++;
					n->Value = V(it->Val);
				}
				else
				{
					Ev(H::Format("t%zu remove while iterating", ti));
					size_t p = t.T->GetNextPos();
					bool Fwd = R.Chance(1, 2);
					Node *n;
					auto it = t.M.begin();
					auto rit = t.M.end();
					while ((n = Fwd ? t.T->Next(p) : t.T->Prev(p)) != NULL)
					{
						if (Fwd ? it == t.M.end() : rit == t.M.begin())  Bad("order", "iteration while removing gives too many nodes");
						if (!Fwd)  --rit;
						auto &cur = Fwd ? it : rit;
						CheckNode(n, *cur, "iterating and removing");
						if (R.Chance(1, 3))
						{
							A::Scope S;
							t.T->Unset(n);
							A::Outside O;
							t.Ix.erase(cur->K);
							cur = t.M.erase(cur);
							nUnset++;
						}
						else if (Fwd)  ++it;
					}
				}
				break;
			}
		}
	}
	void Model(Table &c, Table &t)
	{
		c.M = t.M;
		c.Ix.clear();
		for (auto i = c.M.begin(); i != c.M.end(); ++i)  c.Ix[i->K] = i;
	}
	void BigOne()
	{
		Ts.push_back(MakeTable());
		Table &t = *Ts[0];
		Bulk(0, R.Chance(1, 6) ? (size_t)R.Range(66000, 110000) : (size_t)R.Range(2000, 12000));
		Ev("thin out");
		unsigned Keep = (unsigned)R.Below(5);
		for (auto it = t.M.begin(); it != t.M.end(); )
		{
			if (R.Chance(Keep, 5))  { ++it; continue; }
			bool Ok;
			{ A::Scope S; Ok = t.T->Unset(it->K.I); }
			if (!Ok)  Bad("unset", "removing an existing key failed");
			t.Ix.erase(it->K);
			it = t.M.erase(it);
			nUnset++;
		}
		Check(t, true);
		if (R.Chance(1, 2))
		{
			Ev("optimize");
			A::Scope S;
			if (!t.T->Optimize())  Bad("optimize", "optimize failed");
			nOpt++;
		}
		else  Bulk(0);
		Check(t, true);
		if (Copier<Tab>::Can())
		{
			Ev("copy");
			Table *c = new Table;
			{ A::Scope S; c->T = Copier<Tab>::Copy(t.T); }
			Model(*c, t);
			Check(*c, true);
			Kill(c);
			nCopy++;
		}
		Kill(Ts[0]);
	}
	void All()
	{
		if (R.Chance(1, 300))  { BigOne(); return; }
		size_t nT = (size_t)R.Range(1, 3);
		for (size_t i = 0; i < nT; i++)  Ts.push_back(MakeTable());
		int Steps = Long ? (int)R.Range(1000, 4000) : (int)R.Range(5, 150);
		for (int s = 0; s < Steps; s++)
		{
			Step();
			for (auto *t : Ts)  Check(*t, Long ? R.Chance(1, 200) : R.Chance(1, 3));
		}
		for (auto *t : Ts)  { Check(*t, true); Kill(t); }
	}
};

static void RunCase(H::Rng &R, std::uint64_t)
{
	A::Reset();
	LogReset();
	std::int64_t I0 = Instances;
	bool Long = R.Chance(1, 30);
	size_t nk = (size_t)R.Range(2, 80);
	if (R.Chance(4, 5))  { Run<PackedOrderedHash<V> > r(R, nk, Long); r.All(); }
	else  { Run<PackedOrderedHashNoCopy<V> > r(R, nk, Long); r.All(); }
	if (Instances != I0)  Bad("leak", H::Format("%lld values are still alive", (long long)(Instances - I0)));
	if (A::Live())  Bad("leak", H::Format("%zu blocks are still allocated", A::Live()));
	if (H::WantSample())  H::Sample(Tail(20));
	H::Sig(LogSig);
	auto &c = H::G().Counters;
	c["sets"] = nSet; c["unsets"] = nUnset; c["copies and assignments"] = nCopy; c["compactions"] = nOpt; c["resizes"] = nGrow; c["largest table (sum over shards)"] = MaxSize;
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
