// C09: the ordered hash against an insertion-ordered map, with detached nodes, copies and several secrets.
#include "contlib.h"
#include "templates/detachable_ordered_hash.h"
using namespace CubicleSoft;
using namespace CL;

typedef OrderedHashNode<V> Node;
struct Ent { Key K; std::int64_t Val; Node *N; };
// Secret: which table key the node's cached hash was made with; -1 if none is cached.
struct Free { Node *N; Key K; std::int64_t Val; int Secret; };

static std::uint64_t nIns, nDup, nDet, nCopy, nEmpty, nResize, nMove, MaxSize;

template <class Tab> struct Copier { static bool Can() { return false; } static Tab *Copy(Tab *) { return nullptr; } static void Assign(Tab *, Tab *) {} };
template <> struct Copier<OrderedHash<V> >
{
	static bool Can() { return true; }
	static OrderedHash<V> *Copy(OrderedHash<V> *t)
	{
		void *m = malloc(sizeof(OrderedHash<V>));
		memset(m, 0xA5, sizeof(OrderedHash<V>));
		return new (m) OrderedHash<V>(*t);
	}
	static void Assign(OrderedHash<V> *a, OrderedHash<V> *b) { *a = *b; }
};

template <class Tab> struct Run
{
	H::Rng &R;
	struct Table { Tab *T = nullptr; int Secret = 0; std::vector<Ent> M; };
	struct Sec { bool Sip; std::uint64_t A, B; };
	std::vector<Sec> Secs;
	std::vector<Table> Ts;
	std::vector<Free> Pool;
	Keys Ks;
	std::int64_t NextVal = 1;
	Run(H::Rng &r, size_t nk) : R(r), Ks(r, nk) {}

	void MakeTable(Table &t)
	{
		t.Secret = (int)R.Below(Secs.size());
		Sec &s = Secs[(size_t)t.Secret];
		size_t Est = R.Chance(1, 4) ? R.Below(4) : R.Below(60);
		void *m;
		{ A::Scope S; m = malloc(sizeof(Tab)); }
		memset(m, 0xA5, sizeof(Tab));
		Ev(H::Format("new table est %zu secret %d", Est, t.Secret));
		A::Scope S;
		if (s.Sip)  t.T = new (m) Tab(Est, s.A, s.B);
		else if (s.A == 5381 && R.Chance(1, 2))  t.T = R.Chance(1, 2) ? new (m) Tab() : new (m) Tab(Est);
		else  t.T = new (m) Tab(Est, s.A);
	}
	void Kill(Table &t) { A::Scope S; t.T->~Tab(); free(t.T); t.T = nullptr; A::Outside O; t.M.clear(); }
	int IndexOf(Table &t, const Key &k) { for (size_t i = 0; i < t.M.size(); i++)  if (t.M[i].K == k)  return (int)i; return -1; }

	void CheckNode(Node *n, const Key &k, std::int64_t v, const char *w)
	{
		if (k.Str)
		{
			if (!n->GetStrKey() || (size_t)n->GetIntKey() != k.S.size() || memcmp(n->GetStrKey(), k.S.data(), k.S.size()))  Bad("key", H::Format("the key of a node changed (%s)", w) + ", expected " + k.Text());
		}
		else if (n->GetStrKey() || n->GetIntKey() != k.I)  Bad("key", H::Format("the key of a node changed (%s)", w) + ", expected " + k.Text());
		if (n->Value.Get() != v)  Bad("value", H::Format("the value of a node is %lld instead of %lld (%s)", (long long)n->Value.Get(), (long long)v, w));
	}
	Node *Find(Table &t, const Key &k)
	{
		A::Scope S;
		if (!k.Str)  return t.T->Find(k.I);
		A::Outside O;
		Exact e(k.S);
		A::Scope S2;
		return t.T->Find(e.P, e.N);
	}
	void CheckTable(Table &t, bool Full)
	{
		if (t.T->GetListSize() != t.M.size())  Bad("size", H::Format("size %zu instead of %zu", t.T->GetListSize(), t.M.size()));
		Node *n = t.T->FirstList(), *p = NULL;
		for (auto &e : t.M)
		{
			if (n != e.N)  Bad("order", "forward iteration does not give the nodes in order, expected " + e.K.Text() + " next");
			if (n->PrevList() != p)  Bad("order", "a backward link is wrong at " + e.K.Text());
			CheckNode(n, e.K, e.Val, "iterating");
			p = n;
			n = n->NextList();
		}
		if (n)  Bad("order", "forward iteration gives more nodes than the table has");
		if (t.T->LastList() != p)  Bad("order", "the last node is wrong");
		n = t.T->LastList();
		for (size_t i = t.M.size(); i-- > 0; n = n->PrevList())  if (n != t.M[i].N)  Bad("order", "backward iteration does not give the nodes in order");
		if (n)  Bad("order", "backward iteration gives more nodes than the table has");
		if (Full)
		{
			for (auto &e : t.M)
			{
				if (Find(t, e.K) != e.N)  Bad("find", "find does not return the node stored under " + e.K.Text());
				if (t.T->Find(e.N) != e.N)  Bad("find", "find by node does not return the node stored under " + e.K.Text());
			}
			for (int i = 0; i < 4; i++)
			{
				const Key &k = R.Pick(Ks.K);
				if (IndexOf(t, k) < 0 && Find(t, k))  Bad("find", "find returns a node for the absent key " + k.Text());
			}
			if (t.T->RawHash() && t.T->GetHashSize() < 5000)
			{
				size_t c = 0;
				for (size_t x = 0; x < t.T->GetHashSize(); x++)
				{
					Node *q = NULL;
					for (Node *h = t.T->RawHash()[x]; h; q = h, h = h->NextHash())
					{
						if (h->PrevHash() != q)  Bad("chain", "a backward hash link is wrong");
						if (++c > t.M.size())  Bad("chain", "the hash chains hold more nodes than the table");
					}
				}
				if (c != t.M.size())  Bad("chain", "the hash chains hold fewer nodes than the table");
			}
		}
	}
	void Inserted(Table &t, size_t Pos, const Key &k, std::int64_t v, Node *n) { t.M.insert(t.M.begin() + (long)Pos, Ent{ k, v, n }); nIns++; MaxSize = std::max<std::uint64_t>(MaxSize, t.M.size()); }
	// Chooses where to insert: position in the model, and how to ask for it.
	struct Where { size_t Pos; int How; Node *At; };
	Where Choose(Table &t)
	{
		Where w;
		w.How = (int)R.Below(6);
		w.At = NULL;
		if ((w.How == 2 || w.How == 3) && t.M.size())
		{
			size_t i = R.Below(t.M.size());
			w.At = t.M[i].N;
			w.Pos = w.How == 2 ? i : i + 1;
		}
		else
		{
			if (w.How == 2)  w.How = 0;
			if (w.How == 3)  w.How = 1;
			w.Pos = (w.How == 0 || w.How == 4) ? t.M.size() : 0;
		}
		return w;
	}
	Node *Attach(Table &t, const Where &w, Node *n)
	{
		A::Scope S;
		switch (w.How)
		{
			case 0:  return t.T->Push(n);
			case 1:  return t.T->Unshift(n);
			case 2:  return t.T->InsertBefore(w.At, n);
			case 3:  return t.T->InsertAfter(w.At, n);
			case 4:  return t.T->InsertBefore(NULL, n);
		}
		return t.T->InsertAfter(NULL, n);
	}
	Node *AttachNew(Table &t, const Where &w, const Key &k, std::int64_t v)
	{
		Exact e(k.S);
		V Val(v);
		A::Scope S;
		switch (w.How)
		{
			case 0:  return k.Str ? t.T->Push(e.P, e.N, Val) : t.T->Push(k.I, Val);
			case 1:  return k.Str ? t.T->Unshift(e.P, e.N, Val) : t.T->Unshift(k.I, Val);
			case 2:  return k.Str ? t.T->InsertBefore(w.At, e.P, e.N, Val) : t.T->InsertBefore(w.At, k.I, Val);
			case 3:  return k.Str ? t.T->InsertAfter(w.At, e.P, e.N, Val) : t.T->InsertAfter(w.At, k.I, Val);
			case 4:  return k.Str ? t.T->InsertBefore(NULL, e.P, e.N, Val) : t.T->InsertBefore(NULL, k.I, Val);
		}
		return k.Str ? t.T->InsertAfter(NULL, e.P, e.N, Val) : t.T->InsertAfter(NULL, k.I, Val);
	}
	void Detached(const Ent &e, int Secret)
	{
		CheckNode(e.N, e.K, e.Val, "detached");
		if (e.N->PrevList() || e.N->NextList() || e.N->PrevHash() || e.N->NextHash())  Bad("detached", "a detached node still has links");
		Pool.push_back(Free{ e.N, e.K, e.Val, Secret });
		nDet++;
	}
	void Step()
	{
		size_t ti = R.Below(Ts.size());
		Table &t = Ts[ti];
		switch (R.Below(20))
		{
			case 0: case 1: case 2: case 3: case 4: case 5:
			{
				const Key &k = R.Pick(Ks.K);
				std::int64_t v = NextVal++;
				Where w = Choose(t);
				Ev(H::Format("t%zu insert how %d pos %zu ", ti, w.How, w.Pos) + k.Text());
				bool Dup = IndexOf(t, k) >= 0;
				Node *n = AttachNew(t, w, k, v);
				if (Dup) { nDup++; if (n)  Bad("duplicate", "a key that exists was inserted again"); }
				else if (!n)  Bad("insert", "inserting a new key failed");
				else  Inserted(t, w.Pos, k, v, n);
				break;
			}
			case 6:
			{
				// A new detached node.
				const Key &k = R.Pick(Ks.K);
				std::int64_t v = NextVal++;
				Exact e(k.S);
				Node *n;
				V Val(v);
				Ev("create node " + k.Text());
				if (R.Chance(1, 4))
				{
					A::Scope S;
					n = Tab::CreateNode();
					n->Value = Val;
					if (k.Str)  n->SetStrKey(e.P, e.N, true);
					else  n->SetIntKey(k.I, R.Chance(1, 2));
				}
				else
				{
					A::Scope S;
					n = k.Str ? Tab::CreateNode(e.P, e.N, Val) : Tab::CreateNode(k.I, Val);
				}
				Pool.push_back(Free{ n, k, v, -1 });
				break;
			}
			case 7: case 8: case 9:
			{
				// Attach a detached node.
				if (Pool.empty())  break;
				size_t i = R.Below(Pool.size());
				Free f = Pool[i];
				if (f.Secret >= 0 && f.Secret != t.Secret)  break;      // needs its hash reset first
				Where w = Choose(t);
				Ev(H::Format("t%zu attach how %d pos %zu ", ti, w.How, w.Pos) + f.K.Text());
				bool Dup = IndexOf(t, f.K) >= 0;
				Node *n = Attach(t, w, f.N);
				if (Dup)
				{
					nDup++;
					if (n)  Bad("duplicate", "a node with a key that exists was attached");
					CheckNode(f.N, f.K, f.Val, "refused");
				}
				else if (n != f.N)  Bad("insert", "attaching a detached node failed");
				else  { Pool.erase(Pool.begin() + (long)i); Inserted(t, w.Pos, f.K, f.Val, n); nMove++; }
				break;
			}
			case 10:
			{
				bool Pop = R.Chance(1, 2), Rs = R.Chance(1, 2);
				Ev(H::Format("t%zu %s reset %d", ti, Pop ? "pop" : "shift", Rs));
				Node *n = Pop ? t.T->Pop(Rs) : t.T->Shift(Rs);
				if (t.M.empty())  { if (n)  Bad("pop", "an empty table gave a node"); break; }
				size_t i = Pop ? t.M.size() - 1 : 0;
				if (n != t.M[i].N)  Bad("pop", "the wrong node came off the end");
				Ent e = t.M[i];
				t.M.erase(t.M.begin() + (long)i);
				Detached(e, Rs ? -1 : t.Secret);
				break;
			}
			case 11: case 12:
			{
				if (t.M.empty())  { if (t.T->Detach(NULL, true) || t.T->Remove(NULL))  Bad("null", "removing nothing succeeded"); break; }
				size_t i = R.Below(t.M.size());
				Ent e = t.M[i];
				if (R.Chance(1, 2))
				{
					bool Rs = R.Chance(1, 2);
					Ev(H::Format("t%zu detach reset %d ", ti, Rs) + e.K.Text());
					if (!t.T->Detach(e.N, Rs))  Bad("detach", "detach failed");
					t.M.erase(t.M.begin() + (long)i);
					Detached(e, Rs ? -1 : t.Secret);
				}
				else
				{
					Ev(H::Format("t%zu remove ", ti) + e.K.Text());
					A::Scope S;
					if (!t.T->Remove(e.N))  Bad("remove", "remove failed");
					A::Outside O;
					t.M.erase(t.M.begin() + (long)i);
				}
				break;
			}
			case 13:
			{
				if (!R.Chance(1, 3))  break;
				nEmpty++;
				if (R.Chance(1, 2))
				{
					Ev(H::Format("t%zu empty", ti));
					A::Scope S;
					t.T->Empty();
					A::Outside O;
					t.M.clear();
				}
				else
				{
					bool Rs = R.Chance(1, 2);
					Ev(H::Format("t%zu empty keeping nodes, reset %d", ti, Rs));
					t.T->Empty(false, Rs);
					for (auto &e : t.M)  { CheckNode(e.N, e.K, e.Val, "kept"); Pool.push_back(Free{ e.N, e.K, e.Val, Rs ? -1 : t.Secret }); }
					t.M.clear();
				}
				break;
			}
			case 14:
			{
				size_t n = R.Chance(1, 6) ? 0 : 1 + R.Below(R.Chance(1, 2) ? 5 : 100);
				Ev(H::Format("t%zu resize %zu", ti, n));
				A::Scope S;
				bool Ok = t.T->ResizeHash(n);
				A::Outside O;
				if (Ok != (n != 0))  Bad("resize", "resizing reported the wrong result");
				nResize++;
				break;
			}
			case 15:
			{
				if (!Copier<Tab>::Can())  break;
				nCopy++;
				Ev(H::Format("copy of t%zu", ti));
				Table c;
				c.Secret = t.Secret;
				{ A::Scope S; c.T = Copier<Tab>::Copy(t.T); }
				FromCopy(c, t);
				CheckTable(c, true);
				CheckTable(t, true);
				if (Ts.size() < 4 && R.Chance(1, 2))  Ts.push_back(c);
				else  Kill(c);
				break;
			}
			case 16:
			{
				if (!Copier<Tab>::Can())  break;
				size_t u = R.Below(Ts.size());
				Ev(H::Format("assign t%zu = t%zu", ti, u));
				nCopy++;
				{ A::Scope S; Copier<Tab>::Assign(t.T, Ts[u].T); }
				if (u != ti)
				{
					t.M.clear();
					t.Secret = Ts[u].Secret;
					FromCopy(t, Ts[u]);
					CheckTable(Ts[u], true);
				}
				CheckTable(t, true);
				break;
			}
			case 17:
			{
				// A detached node gets another key.
				if (Pool.empty())  break;
				Free &f = R.Chance(1, 2) ? Pool.back() : Pool[R.Below(Pool.size())];
				const Key &k = R.Pick(Ks.K);
				Ev("rekey " + f.K.Text() + " to " + k.Text());
				Exact e(k.S);
				A::Scope S;
				if (k.Str)  f.N->SetStrKey(e.P, e.N, true);
				else  f.N->SetIntKey(k.I, true);
				A::Outside O;
				f.K = k;
				f.Secret = -1;
				CheckNode(f.N, f.K, f.Val, "rekeyed");
				break;
			}
			case 18:
			{
				// Node copies.
				if (R.Chance(1, 2) && t.M.size())
				{
					Ent &e = t.M[R.Below(t.M.size())];
					Ev("copy node " + e.K.Text());
					void *m;
					Node *n;
					{ A::Scope S; m = ::operator new(sizeof(Node)); memset(m, 0xA5, sizeof(Node)); n = new (m) Node(*e.N); }
					Pool.push_back(Free{ n, e.K, e.Val, t.Secret });
				}
				else if (Pool.size() > 1)
				{
					size_t a = R.Below(Pool.size()), b = R.Below(Pool.size());
					Ev("assign node " + Pool[a].K.Text() + " = " + Pool[b].K.Text());
					A::Scope S;
					*Pool[a].N = *Pool[b].N;
					A::Outside O;
					Pool[a].K = Pool[b].K;
					Pool[a].Val = Pool[b].Val;
					Pool[a].Secret = Pool[b].Secret;
					CheckNode(Pool[a].N, Pool[a].K, Pool[a].Val, "assigned");
					CheckNode(Pool[b].N, Pool[b].K, Pool[b].Val, "assigned from");
				}
				break;
			}
			case 19:
			{
				// An attached node is refused, and find by a detached node works.
				if (t.M.size())
				{
					Ent &e = t.M[R.Below(t.M.size())];
					Where w = Choose(t);
					Ev("attach an attached node " + e.K.Text());
					if (Attach(t, w, e.N))  Bad("duplicate", "a node that is already attached was attached again");
				}
				if (Pool.size())
				{
					Free &f = Pool[R.Below(Pool.size())];
					if (f.Secret < 0 || f.Secret == t.Secret)
					{
						int i = IndexOf(t, f.K);
						Node *n = t.T->Find(f.N);
						if (n != (i < 0 ? NULL : t.M[(size_t)i].N))  Bad("find", "find by a detached node is wrong for " + f.K.Text());
					}
				}
				break;
			}
		}
		if (Pool.size() > 30)
		{
			A::Scope S;
			delete Pool[0].N;
			A::Outside O;
			Pool.erase(Pool.begin());
		}
	}
	void FromCopy(Table &c, Table &t)
	{
		Node *n = c.T->FirstList();
		for (auto &e : t.M)
		{
			if (!n)  Bad("copy", "a copy has fewer nodes than the original");
			if (n == e.N)  Bad("copy", "a copy shares a node with the original");
			CheckNode(n, e.K, e.Val, "copied");
			if (e.K.Str && n->GetStrKey() == e.N->GetStrKey())  Bad("copy", "a copy shares a key with the original");
			c.M.push_back(Ent{ e.K, e.Val, n });
			n = n->NextList();
		}
	}
	void All()
	{
		size_t nS = (size_t)R.Range(1, 3);
		for (size_t i = 0; i < nS; i++)
		{
			Sec s;
			s.Sip = R.Chance(1, 2);
			s.A = R.Chance(1, 3) ? 5381 : (R.Chance(1, 3) ? R.Below(3) : R.Next());
			s.B = R.Chance(1, 3) ? 0 : R.Next();
			Secs.push_back(s);
		}
		size_t nT = (size_t)R.Range(1, 3);
		Ts.reserve(8);
		for (size_t i = 0; i < nT; i++)  { Ts.push_back(Table()); MakeTable(Ts.back()); }
		bool Long = R.Chance(1, 25);
		int Steps = Long ? (int)R.Range(500, 1500) : (int)R.Range(5, 120);
		for (int s = 0; s < Steps; s++)
		{
			Step();
			for (auto &t : Ts)  CheckTable(t, Long ? R.Chance(1, 25) : R.Chance(1, 4));
			for (auto &f : Pool)  CheckNode(f.N, f.K, f.Val, "waiting detached");
		}
		for (auto &t : Ts)  { CheckTable(t, true); Kill(t); }
		for (auto &f : Pool)
		{
			CheckNode(f.N, f.K, f.Val, "after the tables are gone");
			A::Scope S;
			delete f.N;
		}
	}
};

// A table with thousands of nodes: filled, thinned out, resized, copied.
template <class Tab> static void Bulk(H::Rng &R)
{
	size_t n = R.Chance(1, 8) ? (size_t)R.Range(60000, 72000) : (size_t)R.Range(1500, 12000), Est = R.Chance(1, 2) ? 0 : (size_t)R.Below(2 * n);
	std::int64_t Base = R.Range(-2000, 2000), Mul = R.Chance(1, 2) ? 1 : R.Range(1, 5000);
	bool Sip = R.Chance(1, 2);
	Ev(H::Format("bulk %zu keys from %lld by %lld, estimate %zu", n, (long long)Base, (long long)Mul, Est));
	Tab *T;
	{ A::Scope S; T = Sip ? new Tab(Est, R.Next(), R.Next()) : new Tab(Est, R.Next()); }
	std::vector<Node *> Ns(n, nullptr);
	std::vector<bool> In(n, false);
	auto Check = [&](Tab *t, bool Own, const char *When)
	{
		size_t Size = 0;
		for (size_t i = 0; i < n; i++)  if (In[i])  Size++;
		if (t->GetListSize() != Size)  Bad("size", H::Format("size %zu instead of %zu (%s)", t->GetListSize(), Size, When));
		Node *x = t->FirstList(), *p = NULL;
		for (size_t i = 0; i < n; i++)
		{
			std::int64_t k = Base + (std::int64_t)i * Mul;
			Node *f = t->Find(k);
			if (!In[i])  { if (f)  Bad("find", H::Format("find returns a node for the absent key %lld (%s)", (long long)k, When)); continue; }
			if (!x || x->GetStrKey() || x->GetIntKey() != k || x->Value.Get() != (std::int64_t)i || (Own && x != Ns[i]) || x->PrevList() != p)  Bad("order", H::Format("iteration does not give key %lld next (%s)", (long long)k, When));
			if (f != x)  Bad("find", H::Format("find does not return the node stored under %lld (%s)", (long long)k, When));
			p = x;
			x = x->NextList();
		}
		if (x || t->LastList() != p)  Bad("order", H::Format("iteration gives more nodes than the table has (%s)", When));
	};
	for (size_t i = 0; i < n; i++)
	{
		V Val((std::int64_t)i);
		A::Scope S;
		Ns[i] = T->Push(Base + (std::int64_t)i * Mul, Val);
		if (!Ns[i])  Bad("insert", H::Format("inserting new key number %zu failed", i));
		if (T->Push(Base + (std::int64_t)i * Mul, Val))  Bad("duplicate", H::Format("key number %zu was inserted again", i));
		In[i] = true;
	}
	nIns += n;
	MaxSize = std::max<std::uint64_t>(MaxSize, n);
	Check(T, true, "filled");
	size_t Rz = R.Chance(1, 2) ? (size_t)R.Range(1000, 5000) : (size_t)R.Range(1, (std::int64_t)(2 * n));
	{ A::Scope S; if (!T->ResizeHash(Rz))  Bad("resize", "resizing reported the wrong result"); }
	nResize++;
	Check(T, true, "resized");
	if (Copier<Tab>::Can())
	{
		Tab *C;
		{ A::Scope S; C = Copier<Tab>::Copy(T); }
		Check(C, false, "a copy");
		nCopy++;
		A::Scope S;
		C->~Tab();
		free(C);
	}
	unsigned Keep = (unsigned)R.Below(5);
	for (size_t i = 0; i < n; i++)  if (!R.Chance(Keep, 5))
	{
		A::Scope S;
		if (!T->Remove(Ns[i]))  Bad("remove", "remove failed");
		In[i] = false;
	}
	Check(T, true, "thinned out");
	A::Scope S;
	delete T;
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	A::Reset();
	LogReset();
	std::int64_t I0 = Instances;
	size_t nk = R.Chance(1, 20) ? 400 : (size_t)R.Range(2, 60);
	if (R.Chance(1, 250))  { if (R.Chance(3, 4))  Bulk<OrderedHash<V> >(R); else  Bulk<OrderedHashNoCopy<V> >(R); H::Count("bulk tables"); }
	else if (R.Chance(3, 4))  { Run<OrderedHash<V> > r(R, nk); r.All(); }
	else  { Run<OrderedHashNoCopy<V> > r(R, nk); r.All(); }
	if (Instances != I0)  Bad("leak", H::Format("%lld values are still alive", (long long)(Instances - I0)));
	if (A::Live())  Bad("leak", H::Format("%zu blocks are still allocated", A::Live()));
	if (H::WantSample())  H::Sample(Tail(20));
	H::Sig(LogSig);
	auto &c = H::G().Counters;
	c["nodes inserted"] = nIns; c["duplicates refused"] = nDup; c["nodes detached"] = nDet; c["nodes re-attached"] = nMove; c["copies and assignments"] = nCopy; c["resizes"] = nResize; c["emptied"] = nEmpty;
	c["largest table (sum over shards)"] = MaxSize;
}

int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
