// C02: the semaphore as an atomic counter between 0 and N, under controlled schedules.
#include "synclib.h"
#include "sync/sync_semaphore.h"
using namespace CubicleSoft;
using namespace SL;

struct SObj : Obj { int N = 1; int Holders = 0; std::vector<LOp> Ops; bool Overfull = false; };
struct Handle { Slot<Sync::Semaphore> S; int ObjID = 0; bool Open = false; };
static std::vector<SObj> Objs;
static std::vector<Handle> Hs;
static std::vector<std::string> Names;
static std::uint64_t nLock, nIdle, nFail, nUnlock, nOver, nWait;

enum { KLock, KTimeout, KUnlock };
static bool StepSem(const LOp &o, std::int64_t &s, std::int64_t N)
{
	switch (o.Kind)
	{
		case KLock:  if (s <= 0)  return false;  s--; return true;
		case KTimeout:  return s == 0;
		case KUnlock:  if (o.Res >= 0 && o.Res != s)  return false;  if (s < N)  s++; return true;
	}
	return false;
}

static bool DoLock(int h, std::uint32_t Wait)
{
	Handle &Hd = Hs[(size_t)h];
	SObj &o = Objs[(size_t)Hd.ObjID];
	Ev("f%d lock h%d w%d", VS::Self(), h, (int)Wait);
	Call c(o);
	size_t Idx = o.Ops.size();
	o.Ops.push_back(LOp{ VS::Seq(), Pending, KLock, 0, 0, VS::Self() });
	bool r;
	{ WaitMark m(1 + Hd.ObjID); r = Hd.S.P->Lock(Wait); }
	c.End();
	o.Ops[Idx].Ret = VS::Seq();
	Ev("f%d lock h%d=%d", VS::Self(), h, r);
	if (r)
	{
		nLock++;
		if (c.Elapsed() || !c.Excl)  nWait++;
		if (++o.Holders > o.N && !o.Overfull)  Bad("too-many-holders", H::Format("%d holders of a semaphore with %d permits", o.Holders, o.N));
		if (o.N == 1 && !o.Overfull)  VS::Touch(&o.N, sizeof(o.N), true);
	}
	else
	{
		nFail++;
		if (Wait == INF)  Bad("infinite-failed", "an unbounded lock returned failure");
		if (Wait && c.Elapsed() + 5000 < (std::uint64_t)Wait * 1000)  Bad("early-timeout", H::Format("a lock with timeout %u ms failed after %llu us", Wait, (unsigned long long)c.Elapsed()));
		// A failed attempt takes nothing.  It must have had a reason, unless a zero wait ran into another call.
		if (Wait == 0 && !c.Excl)  o.Ops[Idx].Kind = -1;
		else  o.Ops[Idx].Kind = KTimeout;
	}
	return r;
}
static void DoUnlock(int h, int Form)
{
	Handle &Hd = Hs[(size_t)h];
	SObj &o = Objs[(size_t)Hd.ObjID];
	Ev("f%d unlock h%d", VS::Self(), h);
	if (o.Holders > 0)  o.Holders--;
	Call c(o);
	size_t Idx = o.Ops.size();
	o.Ops.push_back(LOp{ VS::Seq(), Pending, KUnlock, 0, -1, VS::Self() });
	int Prev = -77;
	bool r = true;
	if (Form == 0)  { Sync::Semaphore::AutoUnlock a(Hd.S.P); }
	else if (Form == 1)  r = Hd.S.P->Unlock();
	else  r = Hd.S.P->Unlock(&Prev);
	c.End();
	o.Ops[Idx].Ret = VS::Seq();
	if (Form == 2)
	{
		if (Prev < 0 || Prev > o.N)  Bad("prev-count", H::Format("unlock reports a previous count of %d with %d permits", Prev, o.N));
		o.Ops[Idx].Res = Prev;
	}
	Ev("f%d unlock h%d=%d prev %d", VS::Self(), h, r, Prev);
	if (!r)  Bad("unlock-failed", "unlock reported failure");
	nUnlock++;
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	Log().clear();
	VS::ShmReset();
	VS::Reset(R.Next(), RandPolicy(R));
	Bare<Sync::Semaphore>(R);
	VS::Track(true);
	bool Named = R.Chance(1, 2);
	int nObjs = R.Chance(1, 4) ? 2 : 1, nF = (int)R.Range(2, 5);
	bool Over = R.Chance(1, 6);            // unlocks without a lock (clamped at N)
	Objs.assign((size_t)nObjs, SObj());
	Names.assign((size_t)nObjs, "");
	Hs.clear();
	Hs.reserve(16);
	for (int i = 0; i < nObjs; i++)  { Objs[(size_t)i].N = (int)R.Range(1, 3); Objs[(size_t)i].Overfull = Over; if (Named)  Names[(size_t)i] = "s" + std::to_string(i); }
	auto Open = [&](int ObjID, int N) {
		int h = (int)Hs.size();
		Hs.push_back(Handle());
		Hs[(size_t)h].ObjID = ObjID;
		Hs[(size_t)h].S.Make();
		if (R.Chance(1, 8))
		{
			int p = 5;
			if (Hs[(size_t)h].S.P->Lock(0) || Hs[(size_t)h].S.P->Lock(5) || Hs[(size_t)h].S.P->Unlock(&p))  Bad("uncreated-usable", "a semaphore that was never created can be used");
		}
		if (!Hs[(size_t)h].S.P->Create(Named ? Names[(size_t)ObjID].c_str() : NULL, N))  Bad("create-failed", "creating a semaphore failed");
		Hs[(size_t)h].Open = true;
		return h;
	};
	std::vector<std::vector<int> > Mine((size_t)nF);
	std::vector<int> Shared;
	for (int i = 0; i < nObjs; i++)  Shared.push_back(Open(i, Objs[(size_t)i].N));
	for (auto &m : Mine)
	{
		if (Named && R.Chance(1, 2))  { int ob = (int)R.Below((std::uint64_t)nObjs); m.push_back(Open(ob, R.Chance(1, 2) ? Objs[(size_t)ob].N : 9)); }
		else  m = Shared;
	}
	std::vector<H::Rng> FR;
	for (int i = 0; i < nF; i++)  FR.push_back(H::Rng(R.Next()));
	for (int i = 0; i < nF; i++)
		VS::Spawn([&, i]() {
			H::Rng &r = FR[(size_t)i];
			int Steps = (int)r.Range(1, 3);
			for (int k = 0; k < Steps; k++)
			{
				int h = r.Pick(Mine[(size_t)i]);
				if (Over && r.Chance(1, 3))  { nOver++; DoUnlock(h, (int)r.Below(3)); continue; }
				std::uint32_t w = r.Chance(1, 2) ? INF : r.Chance(1, 3) ? 0 : (std::uint32_t)(r.Chance(1, 4) ? r.Range(100, 3000) : r.Range(1, 60));
				if (!DoLock(h, w))  continue;
				for (std::uint64_t n = r.Below(3); n; n--)  VS::Point();
				if (r.Chance(1, 5))  VS::SleepUs(r.Below(50000));
				// A permit may be returned through any handle of the same object.
				int h2 = h;
				if (r.Chance(1, 4))  for (int x = 0; x < (int)Hs.size(); x++)  if (Hs[(size_t)x].ObjID == Hs[(size_t)h].ObjID && r.Chance(1, 2))  h2 = x;
				if (!Named)  h2 = h;
				DoUnlock(h2, (int)r.Below(3));
			}
		}, i + 1);
	WatchIdle([&]() {
		for (int i = 0; i < nObjs; i++)
		{
			if (!Asleep(1 + i))  continue;
			SObj &o = Objs[(size_t)i];
			std::vector<LOp> Ops;
			for (auto &x : o.Ops)  if (x.Kind >= 0)  Ops.push_back(x);
			std::set<std::int64_t> F;
			bool Big;
			if (Linearize(Ops, o.N, o.N, StepSem, F, Big) && !Big && !F.count(0))  Bad("lost-wakeup", "a thread sleeps on although a permit is free");
			nIdle++;
		}
	});
	VS::Outcome Res = VS::Run();
	VS::Track(false);
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	if (Res == VS::Stuck)  Bad("lost-wakeup", "a thread stays blocked on a semaphore whose permits were all returned");
	std::uint64_t Overlap = 0;
	for (size_t i = 0; i < Objs.size(); i++)
	{
		SObj &o = Objs[i];
		std::vector<LOp> Ops;
		for (auto &x : o.Ops)  if (x.Kind >= 0)  Ops.push_back(x);
		std::set<std::int64_t> Finals;
		bool Big;
		if (!Linearize(Ops, o.N, o.N, StepSem, Finals, Big))  Bad("not-atomic", H::Format("the calls do not correspond to any sequence of atomic steps on a counter of %d", o.N));
		if (Big)  H::Inconclusive("history too long");
		else  H::Count("operations linearized", Ops.size());
		Overlap += o.OverlapEvents;
		// All permits are back: exactly N try-locks succeed.
		Sync::Semaphore *S = Hs[i].S.P;
		int n = 0;
		while (n < o.N + 3 && S->Lock(0))  n++;
		if (n != o.N)  Bad("permits-lost", H::Format("%d of %d permits are available after everybody returned theirs", n, o.N));
		for (int k = 0; k < o.N; k++)
		{
			int p = -1;
			if (!S->Unlock(&p) || p != k)  Bad("prev-count", H::Format("unlock reports %d with %d permits free", p, k));
		}
	}
	for (auto &h : Hs)
	{
		// Turned into another object, it has that object's permits.
		if (h.S.P && R.Chance(1, 3))
			for (std::uint64_t k = R.Range(1, 3); k; k--)
			{
				int n = 0, m = (int)R.Range(1, 5);
				if (!h.S.P->Create(R.Chance(1, 2) ? NULL : ("else" + std::to_string(m)).c_str(), m))  Bad("create-failed", "re-creating a semaphore failed");
				while (n < m + 2 && h.S.P->Lock(0))  n++;
				if (n != m)  Bad("permits-lost", H::Format("a re-created semaphore of %d has %d permits", m, n));
				while (n--)  h.S.P->Unlock();
			}
		// Any number of permits can be asked for.
		if (h.S.P && R.Chance(1, 4))
		{
			int m = R.Chance(1, 8) ? 0x7FFFFFFF : (int)(R.Next() >> R.Range(33, 62)) + 1, p = -1, q = -1, l = (int)R.Range(1, 3);
			if (!h.S.P->Create(R.Chance(1, 2) ? NULL : "many", m))  Bad("create-failed", "re-creating a semaphore failed");
			if (!h.S.P->Unlock(&p) || p != m)  Bad("permits-lost", H::Format("a semaphore of %d has %d permits", m, p));
			if (l > m)  l = m;
			for (int i = 0; i < l; i++)  if (!h.S.P->Lock(i % 2 ? INF : 0))  Bad("permits-lost", "a permit of a semaphore with many is refused");
			if (!h.S.P->Unlock(&q) || q != m - l)  Bad("permits-lost", H::Format("after %d locks a semaphore of %d has %d permits", l, m, q));
			H::Count("semaphores with many permits");
		}
		h.S.Kill();
	}
	CheckLeaks();
	if (Overlap)  { H::Sig(VS::ScheduleHash()); if (H::WantSample())  H::Sample(Tail(40)); }
}
static void Case(H::Rng &R, std::uint64_t c)
{
	nLock = nFail = nUnlock = nOver = nWait = 0;
	nIdle = 0;
	RunCase(R, c);
	H::Count("successful locks", nLock);
	H::Count("locks that waited or overlapped", nWait);
	H::Count("failed try/timed locks", nFail);
	H::Count("unlocks", nUnlock);
	H::Count("unlocks beyond the maximum", nOver);
	H::Count("quiet moments checked for sleepers that could go on", nIdle);
	H::Count("context switches", VS::Switches());
}
int main(int argc, char **argv) { return H::Main(argc, argv, Case); }
