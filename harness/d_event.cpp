// C03: automatic and manual events as one atomic flag, under controlled schedules.
#include "synclib.h"
#include "sync/sync_event.h"
using namespace CubicleSoft;
using namespace SL;

struct EObj : Obj { bool Manual = false, Pre = false; std::vector<LOp> Ops; };
struct Handle { Slot<Sync::Event> E; int ObjID = 0; };
static EObj O;
static std::vector<Handle> Hs;
static std::uint64_t nWaitOk, nIdle, nWaitFail, nFire, nReset, nBlocked;

enum { KWait, KTimeout, KFire, KReset };
static bool StepEv(const LOp &o, std::int64_t &s, std::int64_t Manual)
{
	switch (o.Kind)
	{
		case KWait:  if (!s)  return false;  if (!Manual)  s = 0;  return true;
		case KTimeout:  return s == 0;
		case KFire:  s = 1;  return true;
		case KReset:  s = 0;  return true;
	}
	return false;
}
static bool DoWait(int h, std::uint32_t Wait)
{
	Ev("f%d wait h%d w%d", VS::Self(), h, (int)Wait);
	Call c(O);
	size_t Idx = O.Ops.size();
	O.Ops.push_back(LOp{ VS::Seq(), Pending, KWait, 0, 0, VS::Self() });
	bool r;
	{ WaitMark m(1); r = Hs[(size_t)h].E.P->Wait(Wait); }
	c.End();
	O.Ops[Idx].Ret = VS::Seq();
	Ev("f%d wait h%d=%d", VS::Self(), h, r);
	if (r)  { nWaitOk++; if (!c.Excl)  nBlocked++; return true; }
	nWaitFail++;
	if (Wait == INF)  Bad("infinite-failed", "an unbounded wait returned failure");
	if (Wait && c.Elapsed() + 5000 < (std::uint64_t)Wait * 1000)  Bad("early-timeout", H::Format("a wait of %u ms failed after %llu us", Wait, (unsigned long long)c.Elapsed()));
	// A zero wait may fail when it meets another call in progress; otherwise a failed wait means: was not signaled at some moment of the call.
	O.Ops[Idx].Kind = (Wait == 0 && !c.Excl) ? -1 : KTimeout;
	return false;
}
static void DoFire(int h)
{
	Ev("f%d fire h%d", VS::Self(), h);
	Call c(O);
	size_t Idx = O.Ops.size();
	O.Ops.push_back(LOp{ VS::Seq(), Pending, KFire, 0, 0, VS::Self() });
	bool r = Hs[(size_t)h].E.P->Fire();
	c.End();
	O.Ops[Idx].Ret = VS::Seq();
	Ev("f%d fired h%d", VS::Self(), h);
	if (!r)  Bad("fire-failed", "fire reported failure");
	nFire++;
}
static void DoReset(int h)
{
	Ev("f%d reset h%d", VS::Self(), h);
	Call c(O);
	size_t Idx = O.Ops.size();
	O.Ops.push_back(LOp{ VS::Seq(), Pending, KReset, 0, 0, VS::Self() });
	bool r = Hs[(size_t)h].E.P->Reset();
	c.End();
	O.Ops[Idx].Ret = VS::Seq();
	if (r != O.Manual)  Bad("reset-result", O.Manual ? "resetting a manual event failed" : "resetting an automatic event succeeded");
	if (!r)  O.Ops[Idx].Kind = -1;
	nReset++;
}
static std::vector<LOp> Live() { std::vector<LOp> v; for (auto &x : O.Ops)  if (x.Kind >= 0)  v.push_back(x); return v; }

// A signal fired while threads are asleep on an automatic event is theirs: whoever comes later does not take it.
static void Handover(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P = RandPolicy(R);
	P.SpuriousPct = 0;
	P.EarlyTimePct = 0;
	VS::Reset(R.Next(), P);
	bool Named = R.Chance(1, 2);
	Slot<Sync::Event> A, B;
	A.Make();
	if (!A.P->Create(Named ? "ho" : NULL, false, false))  Bad("create-failed", "creating an event failed");
	Sync::Event *Other = A.P;
	if (Named && R.Chance(1, 2))  { B.Make(); if (!B.P->Create("ho", true, true))  Bad("create-failed", "creating an event failed"); Other = B.P; }
	int nW = (int)R.Range(1, 3), nNew = (int)R.Range(1, 3), Got = 0, Fired = 0;
	std::vector<int> W;
	bool Timed = R.Chance(1, 3);
	for (int i = 0; i < nW; i++)
		W.push_back(VS::Spawn([&]() {
			if (!(R.Chance(1, 2) ? A.P : Other)->Wait(Timed ? 1000000 : INF))  Bad("infinite-failed", "a wait failed although nobody else may take the signal");
			Got++;
			Ev("waiter %d of %d fires", Got, Fired);
			if (Got > Fired)  Bad("not-atomic", "more waits succeeded than the event was fired");
		}, 1));
	VS::Track(true);
	VS::Spawn([&]() {
		for (int i = 0; i < nW; i++)
		{
			for (int w : W)  while (!VS::IsBlocked(w) && !VS::IsFinished(w))  VS::SleepUs(500);
			// Everybody who has not been served sleeps.
			Fired++;
			Ev("fire");
			if (!Other->Fire())  Bad("fire-failed", "fire reported failure");
			for (int k = 0; k < nNew; k++)
			{
				if (Got >= Fired)  break;
				bool r = (R.Chance(1, 2) ? A.P : Other)->Wait(0);
				Ev("newcomer = %d", r);
				if (r)  Bad("signal-stolen", "a wait that began after the event was fired took the signal from a thread that was already waiting");
				if (R.Chance(1, 2))  VS::Point();
			}
			for (int k = 0; Got < Fired && k < 1000; k++)  VS::SleepUs(500);
			if (Got != Fired)  Bad("lost-wakeup", "a fired event did not wake one of its waiters");
		}
	}, 2);
	if (VS::Run() != VS::Done)  Bad("lost-wakeup", "threads sleep although the event was fired for each");
	VS::Track(false);
	if (A.P->Wait(0))  Bad("final-state", "the event is signaled although every fire was consumed");
	A.Kill();
	B.Kill();
	CheckLeaks();
	H::Count("signals handed to sleeping waiters", (std::uint64_t)nW);
	H::Sig(VS::ScheduleHash());
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	Log().clear();
	if (R.Chance(1, 8))  { Handover(R); return; }
	VS::ShmReset();
	VS::Reset(R.Next(), RandPolicy(R));
	Bare<Sync::Event>(R);
	VS::Track(true);
	bool Named = R.Chance(1, 2);
	int nF = (int)R.Range(2, 6);
	O = EObj();
	O.Manual = R.Chance(1, 2);
	O.Pre = R.Chance(1, 3);
	Hs.clear();
	Hs.reserve(16);
	auto Open = [&](bool First) {
		int h = (int)Hs.size();
		Hs.push_back(Handle());
		Hs[(size_t)h].E.Make();
		if (R.Chance(1, 8) && (Hs[(size_t)h].E.P->Wait(0) || Hs[(size_t)h].E.P->Wait(5) || Hs[(size_t)h].E.P->Fire() || Hs[(size_t)h].E.P->Reset()))  Bad("uncreated-usable", "an event that was never created can be used");
		// Only the first creator's settings count.
		bool m = First ? O.Manual : R.Chance(1, 2), p = First ? O.Pre : R.Chance(1, 2);
		if (!Hs[(size_t)h].E.P->Create(Named ? "ev" : NULL, m, p))  Bad("create-failed", "creating an event failed");
		return h;
	};
	std::vector<int> Mine((size_t)nF);
	int Sh = Open(true);
	for (auto &m : Mine)  m = (Named && R.Chance(1, 2)) ? Open(false) : Sh;
	std::vector<H::Rng> FR;
	for (int i = 0; i < nF; i++)  FR.push_back(H::Rng(R.Next()));
	int Style = (int)R.Below(3);
	int Left = nF;
	for (int i = 0; i < nF; i++)
		VS::Spawn([&, i]() {
			H::Rng &r = FR[(size_t)i];
			int h = Mine[(size_t)i], Steps = (int)r.Range(1, 4);
			// Style 0: mixed; 1: dedicated waiters and firers; 2: waiters with clustered deadlines.
			for (int k = 0; k < Steps; k++)
			{
				bool Waiter = Style == 0 ? r.Chance(1, 2) : (i % 3 != 0);
				if (Waiter)
				{
					std::uint32_t w = r.Chance(1, 3) ? INF : r.Chance(1, 4) ? 0 : Style == 2 ? (std::uint32_t)(10 * r.Range(1, 2)) : (std::uint32_t)(r.Chance(1, 4) ? r.Range(100, 3000) : r.Range(1, 40));
					DoWait(h, w);
				}
				else
				{
					if (r.Chance(1, 2))  VS::SleepUs(Style == 2 ? (std::uint64_t)(10000 * r.Range(0, 2)) : r.Below(40000));
					if (r.Chance(1, 4))  DoReset(h);
					else  DoFire(h);
				}
			}
			Left--;
		}, i + 1);
	WatchIdle([&]() {
		if (!Asleep(1))  return;
		std::set<std::int64_t> F;
		bool Big;
		if (Linearize(Live(), O.Pre, O.Manual, StepEv, F, Big) && !Big && !F.count(0))  Bad("lost-wakeup", "a thread sleeps on although the event is signaled");
		nIdle++;
	});
	VS::Outcome Res = VS::Run();
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	std::set<std::int64_t> Finals;
	bool Big;
	if (!Linearize(Live(), O.Pre, O.Manual, StepEv, Finals, Big))  Bad("not-atomic", H::Format("the calls do not correspond to any order of atomic steps on a %s event", O.Manual ? "manual" : "automatic"));
	if (Res == VS::Stuck)
	{
		if (!Big && !Finals.count(0))  Bad("lost-wakeup", "threads sleep although the event is signaled");
		H::Count("trials that ended with legitimate sleepers");
		// Fires from now on must wake the sleepers: one each (automatic), or all at once (manual).
		int Before = Left, Fires = 0;
		int Helper = VS::Spawn([&]() {
			while (Left > 0 && Fires < 200)
			{
				int l = Left;
				(void)l;
				DoFire(Sh);
				Fires++;
				VS::SleepUs(100000);
			}
		}, 15);
		(void)Helper; (void)Before;
		Res = VS::Run();
		if (Res != VS::Done || Left)  Bad("lost-wakeup", H::Format("threads still sleep after the event was fired %d more times", Fires));
		if (!Linearize(Live(), O.Pre, O.Manual, StepEv, Finals, Big))  Bad("not-atomic", H::Format("the calls do not correspond to any order of atomic steps on a %s event", O.Manual ? "manual" : "automatic"));
	}
	VS::Track(false);
	if (Big)  H::Inconclusive("history too long");
	else
	{
		H::Count("operations linearized", O.Ops.size());
		// The state left behind must be one the history allows.
		bool s = Hs[(size_t)Sh].E.P->Wait(0);
		if (!Finals.count(s ? 1 : 0))  Bad("final-state", s ? "the event is signaled although every fire was consumed or reset" : "the event lost its signal");
		bool s2 = Hs[(size_t)Sh].E.P->Wait(0);
		if (s2 != (s && O.Manual))  Bad("final-state", "a second wait disagrees with the kind of the event");
	}
	for (auto &h : Hs)
	{
		// Turned into another object, it has that object's kind and state.
		if (h.E.P && R.Chance(1, 3))
			for (std::uint64_t k = R.Range(1, 3); k; k--)
			{
				bool Man = R.Chance(1, 2), Sig = R.Chance(1, 2);
				if (!h.E.P->Create(NULL, Man, Sig))  Bad("create-failed", "re-creating an event failed");
				if (h.E.P->Wait(0) != Sig || h.E.P->Wait(0) != (Sig && Man))  Bad("final-state", "a re-created event is not in the state asked for");
			}
		h.E.Kill();
	}
	CheckLeaks();
	if (O.OverlapEvents)  { H::Sig(VS::ScheduleHash()); if (H::WantSample())  H::Sample(Tail(40)); }
}
static void Case(H::Rng &R, std::uint64_t c)
{
	nWaitOk = nWaitFail = nFire = nReset = nBlocked = 0;
	nIdle = 0;
	RunCase(R, c);
	H::Count("successful waits", nWaitOk);
	H::Count("successful waits that overlapped other calls", nBlocked);
	H::Count("failed waits", nWaitFail);
	H::Count("fires", nFire);
	H::Count("resets", nReset);
	H::Count("quiet moments checked for sleepers that could go on", nIdle);
	H::Count("context switches", VS::Switches());
}
int main(int argc, char **argv) { return H::Main(argc, argv, Case); }
