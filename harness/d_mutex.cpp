// C01: mutual exclusion, recursion, ownership and hand-over of the mutex under controlled schedules.
#include "synclib.h"
#include "sync/sync_mutex.h"
using namespace CubicleSoft;
using namespace SL;

struct MObj : Obj { int HFiber = -1; int HHandle = -1; int Depth = 0; int Inside = 0; };
struct Handle { Slot<Sync::Mutex> M; int ObjID = -1; bool Open = false; };

static std::vector<MObj> Objs;
static std::vector<Handle> Hs;
static std::vector<std::string> Names;
static std::uint64_t nLocks, nIdle, nContended, nTimeouts, nRecursive, nForeignUnlock, nClose;

static bool Mine(int h) { MObj &o = Objs[(size_t)Hs[(size_t)h].ObjID]; return o.HFiber == VS::Self() && o.HHandle == h; }

static bool DoLock(int h, std::uint32_t Wait)
{
	MObj &o = Objs[(size_t)Hs[(size_t)h].ObjID];
	bool Own = Mine(h);
	Ev("f%d lock h%d w%d", VS::Self(), h, (int)Wait);
	Call c(o);
	bool Free = (o.HFiber < 0);
	bool r;
	{ WaitMark m(1 + Hs[(size_t)h].ObjID); r = Hs[(size_t)h].M.P->Lock(Wait); }
	c.End();
	Ev("f%d lock h%d=%d", VS::Self(), h, r);
	if (r)
	{
		nLocks++;
		if (Own)
		{
			if (!Mine(h))  Bad("two-owners", "ownership lost while recursively locking");
			o.Depth++;
			nRecursive++;
		}
		else
		{
			if (o.HFiber >= 0)  Bad("two-owners", "a lock succeeded while another thread or handle owns the mutex");
			if (!Free)  nContended++;
			o.HFiber = VS::Self();
			o.HHandle = h;
			o.Depth = 1;
		}
	}
	else
	{
		if (Own)  Bad("recursive-refused", "the owner could not lock again");
		if (Wait == INF)  Bad("infinite-failed", "an unbounded lock returned failure");
		if (c.Excl && Free)  Bad("free-refused", "a lock of a free, uncontended mutex failed");
		if (Wait && c.Elapsed() + 5000 < (std::uint64_t)Wait * 1000)  Bad("early-timeout", H::Format("a lock with timeout %u ms failed after %llu us", Wait, (unsigned long long)c.Elapsed()));
		nTimeouts++;
	}
	return r;
}

static void Body(int h, H::Rng &R)
{
	MObj &o = Objs[(size_t)Hs[(size_t)h].ObjID];
	if (o.Inside++)  Bad("two-owners", "two threads are inside the critical section");
	VS::Touch(&o.Inside, sizeof(o.Inside), true);
	for (std::uint64_t n = R.Below(3); n; n--)  VS::Point();
	if (R.Chance(1, 6))  VS::SleepUs(R.Below(40000));
	if (o.Inside-- != 1)  Bad("two-owners", "two threads are inside the critical section");
}

static void DoUnlock(int h, bool All, bool Auto = false)
{
	MObj &o = Objs[(size_t)Hs[(size_t)h].ObjID];
	bool Own = Mine(h);
	Ev("f%d unlock%s h%d", VS::Self(), All ? "-all" : "", h);
	Call c(o);
	bool Full = false;
	if (Own)
	{
		if (All || o.Depth == 1)  { o.HFiber = -1; o.HHandle = -1; o.Depth = 0; Full = true; }
		else  o.Depth--;
	}
	else  nForeignUnlock++;
	bool r;
	if (Auto && Own && !All)  { { Sync::Mutex::AutoUnlock a(Hs[(size_t)h].M.P); } r = true; }
	else  r = Hs[(size_t)h].M.P->Unlock(All);
	c.End();
	(void)Full;
	if (r != Own)  Bad("unlock-result", Own ? "the owner's unlock failed" : "an unlock by a non-owner succeeded");
}

static void Close(int h)
{
	MObj &o = Objs[(size_t)Hs[(size_t)h].ObjID];
	Ev("f%d close h%d", VS::Self(), h);
	Call c(o);
	if (Mine(h))  { o.HFiber = -1; o.HHandle = -1; o.Depth = 0; }
	Hs[(size_t)h].Open = false;
	Hs[(size_t)h].M.Kill();
	c.End();
	nClose++;
}

static void OpenHandle(int h, int ObjID, bool Recreate)
{
	Handle &H_ = Hs[(size_t)h];
	if (Recreate)
	{
		// Re-creating a handle gives up the old object, including any ownership through this handle.
		MObj &o = Objs[(size_t)H_.ObjID];
		if (Mine(h))  { o.HFiber = -1; o.HHandle = -1; o.Depth = 0; }
	}
	else  H_.M.Make();
	Ev("f%d %screate h%d -> %s", VS::Self(), Recreate ? "re" : "", h, Names[(size_t)ObjID].c_str());
	int Old = H_.ObjID;
	if (Recreate && Old != ObjID)  { Objs[(size_t)Old].Starts++; Objs[(size_t)Old].Active++; }
	H_.ObjID = ObjID;
	Call c(Objs[(size_t)ObjID]);
	bool r = H_.M.P->Create(Names[(size_t)ObjID].empty() ? NULL : Names[(size_t)ObjID].c_str());
	c.End();
	if (Recreate && Old != ObjID)  Objs[(size_t)Old].Active--;
	if (!r)  Bad("create-failed", "creating a mutex failed");
	H_.Open = true;
}

static void UseHandle(H::Rng &R, int h, bool Private, int nObjs)
{
	int Steps = (int)R.Range(2, 6);
	for (int s = 0; s < Steps; s++)
	{
		int ObjID = Hs[(size_t)h].ObjID;
		MObj &o = Objs[(size_t)ObjID];
		bool HoldsOther = false;
		for (int k = 0; k < (int)Objs.size(); k++)  if (Objs[(size_t)k].HFiber == VS::Self() && !(k == ObjID && o.HHandle == h))  HoldsOther = true;
		switch (R.Below(9))
		{
			case 0: case 1: case 2:
				if (DoLock(h, HoldsOther ? 0 : INF))  Body(h, R);
				break;
			case 3:  if (DoLock(h, (std::uint32_t)(R.Chance(1, 3) ? R.Range(100, 3000) : R.Range(1, 60))))  Body(h, R);  break;
			case 4:  if (DoLock(h, 0))  Body(h, R);  break;
			case 5:  DoUnlock(h, false, R.Chance(1, 3));  break;
			case 6:  if (R.Chance(1, 2))  DoUnlock(h, true);  else  DoUnlock(h, false);  break;
			case 7:
				if (Private && R.Chance(1, 2))
				{
					if (R.Chance(1, 2))  { Close(h); OpenHandle(h, ObjID, false); }
					else if (R.Chance(1, 2))  OpenHandle(h, ObjID, true);
					else  OpenHandle(h, (int)R.Below((std::uint64_t)nObjs), true);
				}
				else  VS::Point();
				break;
			case 8:  if (R.Chance(1, 3))  VS::SleepUs(R.Below(50000)); else VS::Point();  break;
		}
	}
	if (Mine(h))
	{
		if (R.Chance(1, 2))  DoUnlock(h, true);
		else  while (Mine(h))  DoUnlock(h, false);
	}
	if (R.Chance(1, 3))  DoUnlock(h, R.Chance(1, 2));
}

static void Scenario(H::Rng &R)
{
	// An owner parked inside its critical section: everybody else's attempts must bounce, whatever they are.
	VS::ShmReset();
	VS::Reset(R.Next(), RandPolicy(R));
	bool Named = R.Chance(1, 2);
	std::string Name = Named ? "sc" : "";
	Slot<Sync::Mutex> A, B;
	A.Make();
	if (R.Chance(1, 2) && (A.P->Lock(0) || A.P->Lock(10) || A.P->Unlock() || A.P->Unlock(true)))  Bad("uncreated-usable", "an object that was never created can be locked or unlocked");
	if (!A.P->Create(Named ? Name.c_str() : NULL))  Bad("create-failed", "create");
	Sync::Mutex *Other = A.P;
	if (Named && R.Chance(1, 2))  { B.Make(); if (!B.P->Create(Name.c_str()))  Bad("create-failed", "create"); Other = B.P; }
	int Phase = 0, Depth = (int)R.Range(1, 4), Waiters = (int)R.Below(3), Got = 0;
	bool ByClose = Named && Other != A.P && R.Chance(1, 3), ByRecreate = !ByClose && Named && Other != A.P && R.Chance(1, 2), ByAll = R.Chance(1, 2);
	VS::Spawn([&]() {
		for (int i = 0; i < Depth; i++)  if (!A.P->Lock(R.Chance(1, 2) ? 0 : INF))  Bad("recursive-refused", "lock by the only user failed");
		Phase = 1;
		while (Phase != 2)  VS::SleepUs(1000);
		Ev("owner releases (close %d recreate %d all %d depth %d)", ByClose, ByRecreate, ByAll, Depth);
		if (ByClose)  A.Kill();
		else if (ByRecreate)  { if (!A.P->Create(R.Chance(1, 2) ? Name.c_str() : "another"))  Bad("create-failed", "re-create by the owner failed"); }
		else if (ByAll)  { Phase = 3; if (!A.P->Unlock(true))  Bad("unlock-result", "release-all by the owner failed"); }
		else
		{
			for (int i = 0; i < Depth; i++)
			{
				if (i == Depth - 1)  Phase = 3;
				VS::Point();
				if (!A.P->Unlock())  Bad("unlock-result", "unlock by the owner failed");
			}
		}
		Phase = 3;
	}, 1);
	VS::Spawn([&]() {
		while (Phase != 1)  VS::SleepUs(1000);
		for (int i = 0; i < 3; i++)
		{
			switch (R.Below(4))
			{
				case 0:  if (Other->Lock(0))  Bad("two-owners", "try lock succeeded although another thread owns the mutex");  break;
				case 1:  if (Other->Lock((std::uint32_t)R.Range(1, 40)))  Bad("two-owners", "timed lock succeeded although another thread owns the mutex");  break;
				case 2:  if (Other->Unlock(R.Chance(1, 2)))  Bad("unlock-result", "unlock by a non-owner succeeded");  break;
				case 3:  if (Other == A.P && Other->Create(Named ? "another" : NULL))  Bad("create-stole", "re-creating a mutex owned by another thread succeeded");  break;
			}
		}
		Phase = 2;
	}, 2);
	for (int i = 0; i < Waiters; i++)
		VS::Spawn([&]() {
			while (Phase == 0)  VS::SleepUs(1000);
			if (!Other->Lock(INF))  Bad("infinite-failed", "unbounded lock failed");
			if (Phase != 3 && !ByClose && !ByRecreate)  Bad("two-owners", "a waiter got the mutex before the owner released it completely");
			Got++;
			VS::Point();
			if (!Other->Unlock())  Bad("unlock-result", "unlock by the owner failed");
		}, 2);
	VS::Outcome Res = VS::Run();
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	if (Res == VS::Stuck)  Bad("lost-wakeup", "the mutex was released but its waiters sleep forever");
	if (Got != Waiters)  Bad("lost-wakeup", "a waiter did not get the mutex");
	if (!Other->Lock(0) || !Other->Unlock())  Bad("free-refused", "the mutex is not free at the end");
	A.Kill();
	B.Kill();
	CheckLeaks();
	H::Count("owner-parked scenarios");
	H::Sig(VS::ScheduleHash());
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	Log().clear();
	if (R.Chance(1, 4))  { Scenario(R); return; }
	VS::ShmReset();
	VS::Policy P = RandPolicy(R);
	VS::Reset(R.Next(), P);
	Bare<Sync::Mutex>(R);
	VS::Track(true);
	bool Named = R.Chance(2, 3);
	int nObjs = (int)R.Range(1, 2), nF = (int)R.Range(2, 4);
	Objs.assign((size_t)nObjs, MObj());
	Names.assign((size_t)nObjs, "");
	Hs.clear();
	Hs.reserve(16);
	std::uint64_t c0 = nContended, o0 = 0;
	std::vector<std::vector<int> > Mine_((size_t)nF);
	std::vector<int> Shared;
	if (!Named)
	{
		for (int i = 0; i < nObjs; i++)  { Hs.push_back(Handle()); OpenHandle(i, i, false); Shared.push_back(i); }
		for (auto &m : Mine_)  m = Shared;
	}
	else
	{
		for (int i = 0; i < nObjs; i++)  Names[(size_t)i] = "m" + std::to_string(i);
		bool ShareHandle = R.Chance(1, 3);
		if (ShareHandle)  { for (int i = 0; i < nObjs; i++)  { Hs.push_back(Handle()); OpenHandle(i, i, false); Shared.push_back(i); } }
		for (auto &m : Mine_)
		{
			if (ShareHandle && R.Chance(1, 2))  m = Shared;
			else
			{
				int h = (int)Hs.size();
				Hs.push_back(Handle());
				Hs[(size_t)h].ObjID = (int)R.Below((std::uint64_t)nObjs);
				m.push_back(h);
			}
		}
	}
	// One generator per fiber, so that a schedule does not change the scripts.
	std::vector<H::Rng> FR;
	for (int i = 0; i < nF; i++)  FR.push_back(H::Rng(R.Next()));
	for (int i = 0; i < nF; i++)
	{
		bool Priv = Named && (Shared.empty() || Mine_[(size_t)i][0] >= (int)Shared.size());
		VS::Spawn([&, i, Priv]() {
			H::Rng &r = FR[(size_t)i];
			int Rounds = (int)r.Range(1, 2);
			for (int k = 0; k < Rounds; k++)
			{
				int h = r.Pick(Mine_[(size_t)i]);
				if (!Hs[(size_t)h].Open)  OpenHandle(h, Hs[(size_t)h].ObjID, false);
				UseHandle(r, h, Priv, nObjs);
			}
			if (Priv && r.Chance(1, 2))  Close(Mine_[(size_t)i][0]);
		}, Priv ? i + 1 : 0);
	}
	WatchIdle([&]() {
		for (int k = 0; k < nObjs; k++)
		{
			if (!Asleep(1 + k))  continue;
			if (Objs[(size_t)k].HFiber < 0)  Bad("lost-wakeup", "a thread sleeps on although nobody owns the mutex");
			nIdle++;
		}
	});
	VS::Outcome Res = VS::Run();
	VS::Track(false);
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	if (Res == VS::Stuck)  Bad("lost-wakeup", "threads sleep forever although every owner released the mutex");
	for (size_t h = 0; h < Hs.size(); h++)
	{
		if (!Hs[h].Open)  continue;
		if (Hs[h].M.P->Unlock())  Bad("unlock-result", "an unlock with no owner succeeded");
		if (!Hs[h].M.P->Lock(0))  Bad("free-refused", "a mutex nobody owns cannot be locked");
		if (!Hs[h].M.P->Unlock())  Bad("unlock-result", "the owner's unlock failed");
	}
	for (auto &h : Hs)
	{
		if (h.Open && R.Chance(1, 150))
		{
			// Locked many times over, it needs as many unlocks.
			int n = R.Chance(1, 40) ? 65536 + (int)R.Range(-2, 2) : R.Chance(1, 2) ? 256 + (int)R.Range(-2, 2) : (int)R.Range(20, 400);
			for (int i = 0; i < n; i++)  if (!h.M.P->Lock(i % 3 ? 0 : INF))  Bad("recursive-refused", H::Format("the owner's lock number %d failed", i + 1));
			if (h.Open && R.Chance(1, 3))  { if (!h.M.P->Unlock(true))  Bad("unlock-result", "releasing all locks failed"); }
			else  for (int i = 0; i < n; i++)  if (!h.M.P->Unlock())  Bad("unlock-result", H::Format("the owner's unlock number %d of %d failed", i + 1, n));
			if (h.M.P->Unlock())  Bad("unlock-result", "an unlock beyond the locks succeeded");
			H::Count("deep recursions");
		}
		// A free mutex turned into another object is that object, free.
		if (h.Open && R.Chance(1, 3))
			for (std::uint64_t k = R.Range(1, 3); k; k--)
			{
				if (!h.M.P->Create(R.Chance(1, 2) ? NULL : "elsewhere") || h.M.P->Unlock() || !h.M.P->Lock(0) || !h.M.P->Lock(INF) || !h.M.P->Unlock(true) || h.M.P->Unlock())  Bad("create-failed", "a re-created mutex is not a free mutex");
				if (R.Chance(1, 4) && !h.M.P->Lock(0))  Bad("free-refused", "a re-created mutex cannot be locked");
			}
		h.M.Kill();
	}
	CheckLeaks();
	for (auto &o : Objs)  o0 += o.OverlapEvents;
	if (nContended > c0 || o0)  { H::Sig(VS::ScheduleHash()); if (H::WantSample())  H::Sample(Tail(40)); }
}

static void Finish()
{
	H::Count("successful locks", nLocks);
	H::Count("locks that had to wait for another owner", nContended);
	H::Count("failed try/timed locks", nTimeouts);
	H::Count("recursive locks", nRecursive);
	H::Count("unlock attempts by non-owners", nForeignUnlock);
	H::Count("handle closes", nClose);
}
static void Case(H::Rng &R, std::uint64_t c)
{
	nLocks = nContended = nTimeouts = nRecursive = nForeignUnlock = nClose = 0;
	nIdle = 0;
	RunCase(R, c);
	Finish();
	H::Count("quiet moments checked for sleepers that could go on", nIdle);
	H::Count("context switches", VS::Switches());
}
int main(int argc, char **argv) { H::G().Prop = "C01"; return H::Main(argc, argv, Case); }
