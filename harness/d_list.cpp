// C11: lists and queues against sequences of node identities.
#include "contlib.h"
#include <cstddef>
#include "templates/detachable_list.h"
#include "templates/detachable_queue.h"
#include <type_traits>
using namespace CubicleSoft;
using namespace CL;

static std::uint64_t nIns, nDet, nMoveAll, nCopy;
template <class N> struct Ent { N *P; std::int64_t Val; };

template <class C> struct Mem
{
	static C *New() { void *m = malloc(sizeof(C)); memset(m, 0xA5, sizeof(C)); return new (m) C; }
	static C *NewOf(const V &v) { void *m = malloc(sizeof(C)); memset(m, 0xA5, sizeof(C)); return new (m) C(v); }
	static void Kill(C *c) { c->~C(); free(c); }
};
template <class C, bool Can> struct Copier { static C *Copy(C *) { return nullptr; } static void Assign(C *, C *) {} };
template <class C> struct Copier<C, true>
{
	static C *Copy(C *c) { void *m = malloc(sizeof(C)); memset(m, 0xA5, sizeof(C)); return new (m) C(*c); }
	static void Assign(C *a, C *b) { *a = *b; }
};

// Lists.
template <class C, bool CanCopy> struct RunList
{
	typedef ListNode<V> Node;
	H::Rng &R;
	std::vector<C *> L;
	std::vector<std::vector<Ent<Node> > > M;
	std::vector<Ent<Node> > Pool;
	std::int64_t NextVal = 1;
	explicit RunList(H::Rng &r) : R(r) {}
	void Check(size_t i)
	{
		C *c = L[i];
		auto &m = M[i];
		if (c->GetSize() != m.size())  Bad("size", H::Format("list size %zu instead of %zu", c->GetSize(), m.size()));
		Node *n = c->First(), *p = NULL;
		for (auto &e : m)
		{
			if (n != e.P || n->Prev() != p)  Bad("order", "forward iteration or backward links are wrong");
			if (n->Value.Get() != e.Val)  Bad("value", "a value changed");
			p = n;
			n = n->Next();
		}
		if (n || c->Last() != p)  Bad("order", "the end of the list is wrong");
		n = c->Last();
		for (size_t k = m.size(); k-- > 0; n = n->Prev())  if (n != m[k].P)  Bad("order", "backward iteration is wrong");
		if (n)  Bad("order", "backward iteration gives too many nodes");
	}
	void Free(const Ent<Node> &e)
	{
		if (e.P->Prev() || e.P->Next())  Bad("detached", "a detached node still has links");
		if (e.P->Value.Get() != e.Val)  Bad("value", "a detached node lost its value");
		Pool.push_back(e);
		nDet++;
	}
	void Adopt(size_t i, std::vector<Ent<Node> > &From)
	{
		M[i].clear();
		Node *n = L[i]->First();
		for (auto &e : From)
		{
			if (!n || n == e.P || n->Value.Get() != e.Val || n->Value.P == e.P->Value.P)  Bad("copy", "a copy is not equal to the original, or shares with it");
			M[i].push_back(Ent<Node>{ n, e.Val });
			n = n->Next();
		}
	}
	void Step()
	{
		size_t i = R.Below(L.size());
		C *c = L[i];
		auto &m = M[i];
		A::Scope S;
		int Op = (int)R.Below(14);
		size_t At = m.size() ? R.Below(m.size()) : 0;
		std::int64_t v = NextVal++;
		{ A::Outside O; Ev(H::Format("l%zu op %d at %zu", i, Op, At)); }
		switch (Op)
		{
			case 0: case 1: case 2: case 3: case 4:
			{
				V Val(v);
				Node *n = NULL;
				bool Old = false;
				Ent<Node> e;
				int How = (int)R.Below(8);
				bool Mk = R.Chance(1, 3);
				if (Mk && Pool.size() && R.Chance(3, 4))
				{
					A::Outside O;
					size_t k = R.Below(Pool.size());
					e = Pool[k];
					Pool.erase(Pool.begin() + (long)k);
					Old = true;
				}
				else if (Mk)
				{
					if (R.Chance(1, 2))  e.P = C::CreateNode(Val);
					else  { e.P = C::CreateNode(); e.P->Value = Val; }
					e.Val = v;
					Old = true;
				}
				Node *X = m.size() ? m[At].P : NULL;
				size_t Pos = 0;
				{ A::Outside O; Ev(H::Format("how %d old %d", How, Old)); }
				switch (How)
				{
					case 0:  n = Old ? c->Push(e.P) : c->Push(Val); Pos = m.size();  break;
					case 1:  n = Old ? c->Unshift(e.P) : c->Unshift(Val); Pos = 0;  break;
					case 2:  n = Old ? c->InsertBefore(X, e.P) : c->InsertBefore(X, Val); Pos = X ? At : m.size();  break;
					case 3:  n = Old ? c->InsertAfter(X, e.P) : c->InsertAfter(X, Val); Pos = X ? At + 1 : 0;  break;
					case 4:  n = Old ? c->InsertBefore(NULL, e.P) : c->InsertBefore(NULL, Val); Pos = m.size();  break;
					case 5:  n = Old ? c->InsertAfter(NULL, e.P) : c->InsertAfter(NULL, Val); Pos = 0;  break;
					default:
						if (Old)  *c += e.P;
						else  *c += Val;
						n = c->Last();
						Pos = m.size();
						break;
				}
				if (!n || (Old && n != e.P))  Bad("insert", "inserting failed");
				A::Outside O;
				m.insert(m.begin() + (long)Pos, Ent<Node>{ n, Old ? e.Val : v });
				nIns++;
				break;
			}
			case 5: case 6:
			{
				bool Pop = Op == 5;
				Node *n = Pop ? c->Pop() : c->Shift();
				A::Outside O;
				if (m.empty())  { if (n)  Bad("pop", "an empty list gave a node"); break; }
				Ent<Node> e = Pop ? m.back() : m.front();
				if (n != e.P)  Bad("pop", "the wrong node came off the end");
				m.erase(Pop ? m.end() - 1 : m.begin());
				Free(e);
				break;
			}
			case 7: case 8:
			{
				if (m.empty())  { if (c->Detach(NULL) || c->Remove(NULL))  Bad("null", "removing nothing succeeded"); break; }
				Ent<Node> e = m[At];
				if (!(Op == 7 ? c->Detach(e.P) : c->Remove(e.P)))  Bad("detach", "taking a node out failed");
				A::Outside O;
				m.erase(m.begin() + (long)At);
				if (Op == 7)  Free(e);
				break;
			}
			case 9:
			{
				size_t j = R.Below(L.size());
				if (j == i)  break;
				c->DetachAllAndAppend(*L[j]);
				A::Outside O;
				m.insert(m.end(), M[j].begin(), M[j].end());
				M[j].clear();
				nMoveAll++;
				break;
			}
			case 10:
			{
				if (R.Chance(1, 3))  { c->Empty(); A::Outside O; m.clear(); }
				break;
			}
			case 11:
			{
				if (!CanCopy)  break;
				C *n = Copier<C, CanCopy>::Copy(c);
				A::Outside O;
				nCopy++;
				std::vector<Ent<Node> > Src = m;
				L.push_back(n);
				M.push_back({});
				Adopt(L.size() - 1, Src);
				Check(L.size() - 1);
				if (L.size() > 4 || R.Chance(1, 2))
				{
					{ A::Scope S2; Mem<C>::Kill(L.back()); }
					L.pop_back();
					M.pop_back();
				}
				break;
			}
			case 12:
			{
				if (!CanCopy)  break;
				size_t j = R.Below(L.size());
				Copier<C, CanCopy>::Assign(c, L[j]);
				A::Outside O;
				nCopy++;
				if (j != i)  { std::vector<Ent<Node> > Src = M[j]; Adopt(i, Src); }
				break;
			}
			case 13:
			{
				// A node that is linked between others is refused elsewhere.
				if (m.size() < 2)  break;
				size_t j = R.Below(L.size());
				Node *n = R.Chance(1, 2) ? L[j]->InsertBefore(NULL, m[At].P) : L[j]->InsertAfter(NULL, m[At].P);
				if (n)  Bad("attached", "a node that is in a list was put into a list again");
				break;
			}
		}
	}
	void All()
	{
		size_t n = (size_t)R.Range(1, 3);
		for (size_t i = 0; i < n; i++)
		{
			M.push_back({});
			A::Scope S;
			if (R.Chance(1, 4))
			{
				C *c = Mem<C>::NewOf(V(NextVal));
				A::Outside O;
				L.push_back(c);
				if (!c->First())  Bad("insert", "a list made of a value is empty");
				M.back().push_back(Ent<Node>{ c->First(), NextVal++ });
			}
			else  { C *c = Mem<C>::New(); A::Outside O; L.push_back(c); }
			A::Outside O;
			Check(i);
		}
		int Steps = (int)R.Range(5, 150);
		for (int s = 0; s < Steps; s++)
		{
			Step();
			for (size_t i = 0; i < L.size(); i++)  Check(i);
			for (auto &e : Pool)  if (e.P->Value.Get() != e.Val || e.P->Prev() || e.P->Next())  Bad("detached", "a detached node changed");
		}
		A::Scope S;
		for (auto *c : L)  Mem<C>::Kill(c);
		for (auto &e : Pool)  { if (e.P->Value.Get() != e.Val)  Bad("detached", "a detached node died with a list"); delete e.P; }
	}
};

template <class C, bool CanCopy> struct RunQueue
{
	typedef QueueNode<V> Node;
	H::Rng &R;
	std::vector<C *> L;
	std::vector<std::deque<Ent<Node> > > M;
	std::vector<Ent<Node> > Pool;
	std::int64_t NextVal = 1;
	explicit RunQueue(H::Rng &r) : R(r) {}
	void Check(size_t i)
	{
		C *c = L[i];
		auto &m = M[i];
		if (c->GetSize() != m.size())  Bad("size", H::Format("queue size %zu instead of %zu", c->GetSize(), m.size()));
		Node *n = c->First(), *p = NULL;
		for (auto &e : m)
		{
			if (n != e.P)  Bad("order", "iteration does not give the nodes in order");
			if (n->Value.Get() != e.Val)  Bad("value", "a value changed");
			p = n;
			n = n->Next();
		}
		if (n || c->Last() != p)  Bad("order", "the end of the queue is wrong");
	}
	void Adopt(size_t i, const std::deque<Ent<Node> > &From)
	{
		M[i].clear();
		Node *n = L[i]->First();
		for (auto &e : From)
		{
			if (!n || n == e.P || n->Value.Get() != e.Val || n->Value.P == e.P->Value.P)  Bad("copy", "a copy is not equal to the original, or shares with it");
			M[i].push_back(Ent<Node>{ n, e.Val });
			n = n->Next();
		}
	}
	void Step()
	{
		size_t i = R.Below(L.size());
		C *c = L[i];
		auto &m = M[i];
		A::Scope S;
		int Op = (int)R.Below(12);
		std::int64_t v = NextVal++;
		{ A::Outside O; Ev(H::Format("q%zu op %d", i, Op)); }
		switch (Op)
		{
			case 0: case 1: case 2: case 3: case 4:
			{
				V Val(v);
				Ent<Node> e;
				bool Old = false;
				if (R.Chance(1, 4) && Pool.size())
				{
					A::Outside O;
					size_t k = R.Below(Pool.size());
					e = Pool[k];
					Pool.erase(Pool.begin() + (long)k);
					Old = true;
				}
				else if (R.Chance(1, 3))
				{
					if (R.Chance(1, 2))  e.P = C::CreateNode(Val);
					else  { e.P = C::CreateNode(); e.P->Value = Val; }
					e.Val = v;
					Old = true;
				}
				int How = (int)R.Below(3);
				Node *n;
				if (How == 0)  n = Old ? c->Push(e.P) : c->Push(Val);
				else if (How == 1)  n = Old ? c->Unshift(e.P) : c->Unshift(Val);
				else  { if (Old)  *c += e.P; else  *c += Val; n = c->Last(); }
				if (!n || (Old && n != e.P))  Bad("insert", "inserting failed");
				A::Outside O;
				Ev(H::Format("how %d old %d", How, Old));
				Ent<Node> f{ n, Old ? e.Val : v };
				if (How == 1)  m.push_front(f);
				else  m.push_back(f);
				nIns++;
				break;
			}
			case 5: case 6: case 7:
			{
				Node *n = c->Shift();
				A::Outside O;
				if (m.empty())  { if (n)  Bad("shift", "an empty queue gave a node"); break; }
				if (n != m.front().P || n->Next() || n->Value.Get() != m.front().Val)  Bad("shift", "the wrong node came off the front, or it still has a link");
				if (R.Chance(1, 2))  Pool.push_back(m.front());
				else  { A::Scope S2; delete n; }
				m.pop_front();
				nDet++;
				break;
			}
			case 8:
			{
				size_t j = R.Below(L.size());
				if (j == i)  break;
				c->DetachAllAndAppend(*L[j]);
				A::Outside O;
				m.insert(m.end(), M[j].begin(), M[j].end());
				M[j].clear();
				nMoveAll++;
				break;
			}
			case 9:  if (R.Chance(1, 3))  { c->Empty(); A::Outside O; m.clear(); }  break;
			case 10:
			{
				if (!CanCopy)  break;
				nCopy++;
				if (R.Chance(1, 2))
				{
					C *n = Copier<C, CanCopy>::Copy(c);
					A::Outside O;
					std::deque<Ent<Node> > Src = m;
					L.push_back(n);
					M.push_back({});
					Adopt(L.size() - 1, Src);
					Check(L.size() - 1);
					if (L.size() > 4 || R.Chance(1, 2))  { { A::Scope S2; Mem<C>::Kill(L.back()); } L.pop_back(); M.pop_back(); }
				}
				else
				{
					size_t j = R.Below(L.size());
					Copier<C, CanCopy>::Assign(c, L[j]);
					A::Outside O;
					if (j != i)  { std::deque<Ent<Node> > Src = M[j]; Adopt(i, Src); }
				}
				break;
			}
			case 11:
			{
				if (m.size() < 2)  break;
				size_t k = R.Below(m.size() - 1), j = R.Below(L.size());
				if (R.Chance(1, 2) ? L[j]->Push(m[k].P) : L[j]->Unshift(m[k].P))  Bad("attached", "a node that is in a queue was put into a queue again");
				break;
			}
		}
	}
	void All()
	{
		size_t n = (size_t)R.Range(1, 3);
		for (size_t i = 0; i < n; i++)
		{
			M.push_back({});
			A::Scope S;
			bool Of = R.Chance(1, 4);
			C *c = Of ? Mem<C>::NewOf(V(NextVal)) : Mem<C>::New();
			A::Outside O;
			L.push_back(c);
			if (Of)
			{
				if (!c->First())  Bad("insert", "a queue made of a value is empty");
				M.back().push_back(Ent<Node>{ c->First(), NextVal++ });
			}
			Check(i);
		}
		int Steps = (int)R.Range(5, 150);
		for (int s = 0; s < Steps; s++)
		{
			Step();
			for (size_t i = 0; i < L.size(); i++)  Check(i);
			for (auto &e : Pool)  if (e.P->Value.Get() != e.Val || e.P->Next())  Bad("detached", "a detached node changed");
		}
		A::Scope S;
		for (auto *c : L)  Mem<C>::Kill(c);
		for (auto &e : Pool)  { if (e.P->Value.Get() != e.Val)  Bad("detached", "a detached node died with a queue"); delete e.P; }
	}
};

static void RunCase(H::Rng &R, std::uint64_t)
{
	A::Reset();
	LogReset();
	std::int64_t I0 = Instances;
	if (std::is_copy_constructible<QueueNoCopy<V> >::value || std::is_copy_constructible<ListNoCopy<V> >::value || std::is_copy_assignable<QueueNoCopy<V> >::value || std::is_copy_assignable<ListNoCopy<V> >::value)
		Bad("copy", "a container that owns its nodes and has no deep copy can be copied");
	switch (R.Below(6))
	{
		case 0: case 1:  { RunList<List<V>, true> r(R); r.All(); break; }
		case 2:  { RunList<ListNoCopy<V>, false> r(R); r.All(); break; }
		case 3: case 4:  { RunQueue<Queue<V>, true> r(R); r.All(); break; }
		default:  { RunQueue<QueueNoCopy<V>, false> r(R); r.All(); break; }
	}
	if (Instances != I0)  Bad("leak", H::Format("%lld values are still alive", (long long)(Instances - I0)));
	if (A::Live())  Bad("leak", H::Format("%zu blocks are still allocated", A::Live()));
	if (H::WantSample())  H::Sample(Tail(30));
	H::Sig(LogSig);
	auto &c = H::G().Counters;
	c["nodes inserted"] = nIns; c["nodes detached"] = nDet; c["copies and assignments"] = nCopy; c["whole moves"] = nMoveAll;
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
