// C05: timed waits of every synchronization object - not early, not late, nothing left behind, also when the system refuses a clock or a wait.
#include "synclib.h"
#include "sync/sync_mutex.h"
#include "sync/sync_semaphore.h"
#include "sync/sync_event.h"
#include "sync/sync_readwritelock.h"
using namespace CubicleSoft;
using namespace SL;

enum Kind { KMutex, KSem, KAuto, KManual, KRead, KWrite, NumKinds };
static const char *KNames[] = { "mutex", "semaphore", "auto event", "manual event", "read lock", "write lock" };

struct Box
{
	Kind K;
	Slot<Sync::Mutex> M; Slot<Sync::Semaphore> S; Slot<Sync::Event> E; Slot<Sync::ReadWriteLock> RW;
	bool Create(const char *Name)
	{
		switch (K)
		{
			case KMutex:  M.Make(); return M.P->Create(Name);
			case KSem:  S.Make(); return S.P->Create(Name, 1);
			case KAuto:  E.Make(); return E.P->Create(Name, false, true);
			case KManual:  E.Make(); return E.P->Create(Name, true, true);
			default:  RW.Make(); return RW.P->Create(Name);
		}
	}
	bool Acquire(std::uint32_t w)
	{
		switch (K)
		{
			case KMutex:  return M.P->Lock(w);
			case KSem:  return S.P->Lock(w);
			case KAuto:
			case KManual:  return E.P->Wait(w);
			case KRead:  return RW.P->ReadLock(w);
			default:  return RW.P->WriteLock(w);
		}
	}
	bool Release()
	{
		switch (K)
		{
			case KMutex:  return M.P->Unlock();
			case KSem:  return S.P->Unlock();
			case KAuto:  return E.P->Fire();
			case KManual:  return true;
			case KRead:  return RW.P->ReadUnlock();
			default:  return RW.P->WriteUnlock();
		}
	}
	// Makes waits of this kind block / lets them through again.
	bool Close(bool ByReader)
	{
		switch (K)
		{
			case KManual:  return E.P->Reset();
			case KRead:  return RW.P->WriteLock();
			case KWrite:  return ByReader ? RW.P->ReadLock() : RW.P->WriteLock();
			default:  return Acquire(INF);
		}
	}
	bool Reopen(bool ByReader)
	{
		switch (K)
		{
			case KManual:  return E.P->Fire();
			case KRead:  return RW.P->WriteUnlock();
			case KWrite:  return ByReader ? RW.P->ReadUnlock() : RW.P->WriteUnlock();
			default:  return Release();
		}
	}
	void Kill() { M.Kill(); S.Kill(); E.Kill(); RW.Kill(); }
};
static Obj O;
static std::uint64_t nTimeouts, nInTime, nZero, nFaulted, nSucc, nTwoPhase, nStolen;

static std::uint32_t RandWait(H::Rng &R)
{
	static const std::uint32_t Special[] = { 1, 2, 5, 10, 99, 100, 500, 999, 1000, 1001, 1999, 2000, 3500, 60000, 59999, 65535, 65536, 65537, 131072, 16777216, 32768, 4294967, 4294968, 2147484, 123456, 86400000, 2147483647u, 2147483648u, 4294967000u, 4294967294u };
	std::uint64_t Ms = VS::NowUs() / 1000 % 1000;
	if (R.Chance(1, 5))  return (std::uint32_t)(1000 - Ms + 1000 * R.Below(3) + (Ms < 999 && R.Chance(1, 4) ? -1 : 0));   // the deadline falls on a full second
	if (R.Chance(1, 3))  return Special[R.Below(sizeof(Special) / sizeof(Special[0]))];
	if (R.Chance(1, 2))  return (std::uint32_t)R.Range(1, 50);
	return (std::uint32_t)R.Range(1, 5000);
}
static VS::Policy ExactPolicy(H::Rng &R)
{
	VS::Policy P = RandPolicy(R);
	P.EarlyTimePct = 0;            // time only passes when everybody waits, so elapsed times are exact
	P.SpuriousPct = R.Chance(1, 2) ? (unsigned)R.Range(5, 60) : 0;
	return P;
}
static void Within(const Box &B, const char *What, std::uint64_t El, std::uint64_t WantUs)
{
	if (El + 5000 < WantUs)  Bad("early", H::Format("%s: %s after %llu us instead of %llu us", KNames[B.K], What, (unsigned long long)El, (unsigned long long)WantUs));
	if (El > WantUs + 5000)  Bad("late", H::Format("%s: %s after %llu us instead of %llu us", KNames[B.K], What, (unsigned long long)El, (unsigned long long)WantUs));
}
static void Usable(Box &B)
{
	// Nobody holds it: a waiter must get it, and must be able to give it back.
	bool Ok = false;
	VS::Spawn([&]() { if (!B.Acquire(INF) || !B.Release())  Bad("unusable", H::Format("%s cannot be used afterwards", KNames[B.K])); Ok = true; }, 14);
	if (VS::Run() != VS::Done || !Ok)  Bad("unusable", H::Format("%s is left in a state in which nobody can acquire it", KNames[B.K]));
	H::Count("usable afterwards");
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	Log().clear();
	VS::ShmReset();
	VS::Policy P = ExactPolicy(R);
	int Mode = (int)R.Below(6);
	if (Mode == 5)
	{
		P.SpuriousPct = 0;
		P.ClockFailPct = R.Chance(1, 2) ? 40 : 0;
		P.TimeOfDayFailPct = R.Chance(1, 3) ? 40 : 0;
		P.CondFailPct = (!P.ClockFailPct || R.Chance(1, 3)) ? 40 : 0;
	}
	VS::Reset(R.Next(), P);
	VS::SetFaults(false);
	VS::Track(true);
	O = Obj();
	Box B;
	B.K = (Kind)R.Below(NumKinds);
	bool Named = R.Chance(1, 3);
	if (!B.Create(Named ? "t" : NULL))  Bad("create-failed", "create failed");
	int nW = (int)R.Range(1, 3);
	bool ByReader = R.Chance(1, 2);
	std::vector<H::Rng> FR;
	for (int i = 0; i < nW; i++)  FR.push_back(H::Rng(R.Next()));
	bool Closed = false, WasClosed = false, Finish = false;
	int Pend = nW;
	std::uint64_t HoldUs = R.Below(4000000);
	std::uint32_t w1 = 0;

	auto Holder = [&](bool Forever) {
		VS::Spawn([&, Forever]() {
			if (!B.Close(ByReader))  Bad("close", "the holder could not acquire the object");
			Closed = WasClosed = true;
			if (Forever)  { while (!Finish)  VS::SleepUs(3600ull * 1000000); }
			else  VS::SleepUs(HoldUs);
			Ev("holder lets go");
			if (!B.Reopen(ByReader))  Bad("reopen", "the holder could not release the object");
			Closed = false;
		}, 1);
	};
	auto WaitClosed = [&]() { while (!WasClosed)  VS::SleepUs(100); };

	if (Mode == 0 || Mode == 1)
	{
		// Nothing ever frees the object: every attempt fails exactly when its time is over.
		Holder(true);
		for (int i = 0; i < nW; i++)
			VS::Spawn([&, i]() {
				H::Rng &r = FR[(size_t)i];
				WaitClosed();
				for (std::uint64_t k = r.Range(1, 3); k; k--)
				{
					std::uint32_t w = r.Chance(1, 4) ? 0 : RandWait(r);
					Ev("f%d try %u", VS::Self(), w);
					Call c(O);
					bool ok = B.Acquire(w);
					c.End();
					if (ok)  Bad("acquired-held", H::Format("%s acquired while it is held", KNames[B.K]));
					if (w == 0)  { nZero++; if (c.Elapsed())  Bad("zero-blocked", "a zero timeout blocked"); }
					else  { nTimeouts++; Within(B, "timed out", c.Elapsed(), (std::uint64_t)w * 1000); }
				}
				if (--Pend == 0)  Finish = true;
			}, 2 + i);
	}
	else if (Mode == 2)
	{
		// Freed after HoldUs: a lone waiter gets it then if its time is not over before.
		Holder(false);
		VS::Spawn([&]() {
			H::Rng &r = FR[0];
			WaitClosed();
			std::uint64_t Late = VS::NowUs();
			(void)Late;
			std::uint32_t w = r.Chance(1, 2) ? (std::uint32_t)std::max<std::int64_t>(1, (std::int64_t)(HoldUs / 1000) + r.Range(-40, 40)) : RandWait(r);
			Ev("try %u, freed after about %llu us", w, (unsigned long long)HoldUs);
			Call c(O);
			bool ok = B.Acquire(w);
			c.End();
			std::uint64_t El = c.Elapsed(), W = (std::uint64_t)w * 1000;
			if (ok)
			{
				nInTime++;
				if (El > W + 5000)  Bad("late", H::Format("%s acquired after %llu us with a timeout of %u ms", KNames[B.K], (unsigned long long)El, w));
				if (El > HoldUs + 5000)  Bad("late-wakeup", H::Format("%s acquired after %llu us although it was free after %llu us", KNames[B.K], (unsigned long long)El, (unsigned long long)HoldUs));
				B.Release();
			}
			else
			{
				nTimeouts++;
				if (W > HoldUs + 10000)  Bad("early", H::Format("%s: timeout of %u ms failed although it was free after %llu us", KNames[B.K], w, (unsigned long long)HoldUs));
				Within(B, "timed out", El, W);
			}
		}, 2);
	}
	else if (Mode == 3)
	{
		// Read/write lock, several internal steps: readers stay; one writer waits with a shorter timeout, others queue behind it.
		if (B.K != KRead)  B.Kill(), B.K = KWrite;
		else  B.Kill();
		Kind Want = B.K;
		B = Box();
		B.K = Want;
		if (!B.Create(Named ? "t2" : NULL))  Bad("create-failed", "create failed");
		w1 = (std::uint32_t)R.Range(20, 3000);
		VS::Spawn([&]() {
			if (!B.RW.P->ReadLock())  Bad("close", "read lock failed");
			Closed = WasClosed = true;
			while (!Finish)  VS::SleepUs(3600ull * 1000000);
			B.RW.P->ReadUnlock();
			Closed = false;
		}, 1);
		VS::Spawn([&]() {
			WaitClosed();
			Call c(O);
			bool ok = B.RW.P->WriteLock(w1);
			c.End();
			if (ok)  Bad("acquired-held", "write lock granted while a reader holds the lock");
			Within(B, "timed out", c.Elapsed(), (std::uint64_t)w1 * 1000);
			if (--Pend == 0)  Finish = true;
		}, 2);
		Pend = nW + 1;
		for (int i = 0; i < nW; i++)
			VS::Spawn([&, i]() {
				H::Rng &r = FR[(size_t)i];
				WaitClosed();
				VS::SleepUs(1000 + r.Below(15000));     // the first writer is in its second step by now
				std::uint32_t w = r.Chance(1, 2) ? w1 + (std::uint32_t)r.Range(0, 2000) : RandWait(r);
				Call c(O);
				std::uint64_t Left = (std::uint64_t)w1 * 1000 + 1000;
				bool ok = B.Acquire(w);
				c.End();
				nTwoPhase++;
				Ev("f%d %s w%u = %d after %llu", VS::Self(), KNames[B.K], w, ok, (unsigned long long)c.Elapsed());
				if (c.Elapsed() > (std::uint64_t)w * 1000 + 5000)  Bad("late", H::Format("%s with timeout %u ms returned after %llu us", KNames[B.K], w, (unsigned long long)c.Elapsed()));
				if (!ok)  { Within(B, "timed out", c.Elapsed(), (std::uint64_t)w * 1000); }
				else if (B.K == KWrite)  Bad("acquired-held", "write lock granted while a reader holds the lock");
				else  { B.Release(); }
				(void)Left;
				if (--Pend == 0)  Finish = true;
			}, 3 + i);
	}
	else if (Mode == 4)
	{
		// Wakeups that bring nothing (permit stolen, event reset) must neither end nor prolong the wait.
		Holder(true);
		VS::Spawn([&]() {
			H::Rng r(FR[0].Next());
			WaitClosed();
			for (int k = 0; k < 40 && !Finish; k++)
			{
				VS::SleepUs(1000 + r.Below(100000));
				if (B.K == KSem)  { B.S.P->Unlock(); if (!B.S.P->Lock(0))  B.S.P->Lock(1000000); }
				else if (B.K == KAuto)  { B.E.P->Fire(); B.E.P->Wait(0); }
				else if (B.K == KManual)  { B.E.P->Fire(); B.E.P->Reset(); }
				nStolen++;
			}
		}, 9);
		for (int i = 0; i < nW; i++)
			VS::Spawn([&, i]() {
				H::Rng &r = FR[(size_t)i];
				WaitClosed();
				std::uint32_t w = (std::uint32_t)r.Range(1, 3000);
				Call c(O);
				bool ok = B.Acquire(w);
				c.End();
				if (c.Elapsed() > (std::uint64_t)w * 1000 + 5000)  Bad("late", H::Format("%s with timeout %u ms returned after %llu us", KNames[B.K], w, (unsigned long long)c.Elapsed()));
				if (!ok)  { nTimeouts++; Within(B, "timed out", c.Elapsed(), (std::uint64_t)w * 1000); }
				else  { nSucc++; if (B.K != KSem && B.K != KAuto && B.K != KManual)  Bad("acquired-held", "acquired while held"); if (B.K == KSem)  B.Release(); }
				if (--Pend == 0)  Finish = true;
			}, 2 + i);
	}
	else
	{
		// The system refuses clocks and waits now and then: those calls fail at once or after their time, and hold nothing.
		Holder(true);
		for (int i = 0; i < nW; i++)
			VS::Spawn([&, i]() {
				H::Rng &r = FR[(size_t)i];
				WaitClosed();
				for (std::uint64_t k = r.Range(1, 4); k; k--)
				{
					std::uint32_t w = r.Chance(1, 6) ? 0 : (std::uint32_t)r.Range(1, 2000);
					std::uint64_t f0 = VS::FaultsOf(VS::Self());
					Call c(O);
					VS::SetFaults(true);
					bool ok = B.Acquire(w);
					if (Pend == 1)  VS::SetFaults(false);
					c.End();
					bool Hit = VS::FaultsOf(VS::Self()) != f0;
					Ev("f%d w%u = %d faults %d", VS::Self(), w, ok, Hit);
					if (ok)  Bad("acquired-held", H::Format("%s acquired while it is held, after a failed system call", KNames[B.K]));
					// (Without a clock the two steps of a read/write lock cannot be added up.)
					if (Hit)  { nFaulted++; if (c.Elapsed() > (std::uint64_t)w * (B.K >= KRead && P.TimeOfDayFailPct ? 2000 : 1000) + 5000)  Bad("late", "a failing call took longer than its timeout"); }
					else  Within(B, "timed out", c.Elapsed(), (std::uint64_t)w * 1000);
				}
				if (--Pend == 0)  { Finish = true; VS::SetFaults(false); }
			}, 2 + i);
	}
	VS::Outcome Res = VS::Run();
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	if (Res == VS::Stuck)  Bad("stuck", H::Format("%s: threads sleep forever", KNames[B.K]));
	VS::SetFaults(false);
	if (B.K == KAuto && Mode == 4)  B.E.P->Fire();
	std::uint64_t Sig = VS::ScheduleHash();
	Usable(B);
	VS::Track(false);
	B.Kill();
	CheckLeaks();
	H::Count(KNames[B.K]);
	H::Sig(H::HashU((std::uint64_t)B.K * 8 + (std::uint64_t)Mode, Sig));
	if (H::WantSample())  H::Sample(H::Format("mode %d %s: ", Mode, KNames[B.K]) + Tail(20));
}
static void Case(H::Rng &R, std::uint64_t c)
{
	nTimeouts = nInTime = nZero = nFaulted = nSucc = nTwoPhase = nStolen = 0;
	RunCase(R, c);
	H::Count("timeouts measured", nTimeouts);
	H::Count("acquired before the timeout", nInTime);
	H::Count("zero timeouts", nZero);
	H::Count("calls with an injected clock or wait failure", nFaulted);
	H::Count("acquired among empty wakeups", nSucc);
	H::Count("waits with two internal steps", nTwoPhase);
	H::Count("empty wakeups", nStolen);
	H::Count("context switches", VS::Switches());
}
int main(int argc, char **argv) { return H::Main(argc, argv, Case); }
