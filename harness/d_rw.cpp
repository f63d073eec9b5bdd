// C04: readers share, writers exclude, waiting writers are not overtaken - under controlled schedules.
#include "synclib.h"
#include "sync/sync_readwritelock.h"
using namespace CubicleSoft;
using namespace SL;

struct RWObj : Obj
{
	int Readers = 0, Writers = 0, InR = 0, InW = 0;
	int InFlight = 0;                 // calls in progress
	// A writer known to be waiting for the current readers: fiber id and the moment it was seen.
	int WaitingWriter = -1;
	std::uint64_t SeenAt = 0;
};
static RWObj O;
static std::vector<Slot<Sync::ReadWriteLock> > Hs;
static int WriterCall[16];            // fiber is inside WriteLock
static std::uint64_t WriterEnd[16];   // and gives up then
static std::uint64_t nR, nIdle, nW, nRFail, nWFail, nShared, nExcl, nPref, nBadUnlock;

// Called at quiet moments by any fiber: if the only call in progress is a writer's that is blocked while readers hold the lock, it is waiting for them.
static void Notice()
{
	if (O.WaitingWriter >= 0 || O.InFlight != 1 || O.Writers || !O.Readers)  return;
	for (int f = 0; f < 16; f++)
		if (WriterCall[f] && VS::IsBlocked(f) && VS::HeldMutexes(f) == 0)  { O.WaitingWriter = f; O.SeenAt = VS::Seq(); Ev("(f%d seen waiting)", f); }
}
static bool DoLock(int h, bool Write, std::uint32_t Wait)
{
	int Me = VS::Self();
	Notice();
	Ev("f%d %s h%d w%d", Me, Write ? "wlock" : "rlock", h, (int)Wait);
	bool Before = O.WaitingWriter >= 0;    // this call starts while a writer is known to wait
	int BeforeF = O.WaitingWriter;
	std::uint64_t BeforeAt = O.SeenAt;
	Call c(O);
	bool Free = Write ? (!O.Readers && !O.Writers) : !O.Writers;
	O.InFlight++;
	if (Write)  { WriterCall[Me] = 1; WriterEnd[Me] = Wait == INF ? ~(std::uint64_t)0 : VS::NowUs() + (Wait > 5 ? (Wait - 5) * 1000 : 0); }
	bool r;
	{ WaitMark m(Write ? 2 : 1); r = Write ? Hs[(size_t)h].P->WriteLock(Wait) : Hs[(size_t)h].P->ReadLock(Wait); }
	if (Write)  WriterCall[Me] = 0;
	O.InFlight--;
	c.End();
	if (O.WaitingWriter == Me)  O.WaitingWriter = -1;
	Ev("f%d %s h%d=%d", Me, Write ? "wlock" : "rlock", h, r);
	if (r)
	{
		if (Write)
		{
			nW++;
			if (O.Readers || O.Writers)  Bad("writer-not-alone", H::Format("a write lock was granted while %d readers and %d writers hold the lock", O.Readers, O.Writers));
			O.Writers++;
		}
		else
		{
			nR++;
			if (O.Writers)  Bad("reader-with-writer", "a read lock was granted while a writer holds the lock");
			if (Before && O.WaitingWriter == BeforeF && O.SeenAt == BeforeAt && VS::NowUs() < WriterEnd[BeforeF])  Bad("writer-overtaken", "a read lock asked for after a writer was already waiting was granted before it");
			if (Before)  nPref++;
			if (++O.Readers > 1)  nShared++;
		}
	}
	else
	{
		(Write ? nWFail : nRFail)++;
		if (Wait == INF)  Bad("infinite-failed", "an unbounded lock returned failure");
		if (c.Excl && Free)  Bad("free-refused", Write ? "a write lock of a free lock failed" : "a read lock failed although no writer holds or waits");
		if (Wait && c.Elapsed() + 5000 < (std::uint64_t)Wait * 1000)  Bad("early-timeout", H::Format("a lock with timeout %u ms failed after %llu us", Wait, (unsigned long long)c.Elapsed()));
	}
	return r;
}
static void Body(bool Write, H::Rng &R)
{
	static int Guarded;
	if (Write)  { O.InW++; nExcl++; } else  O.InR++;
	VS::Touch(&Guarded, sizeof(Guarded), Write);
	for (std::uint64_t n = 1 + R.Below(3); n; n--)
	{
		if (O.InW > 1 || (O.InW && O.InR))  Bad("writer-not-alone", "a writer shares the lock inside the critical section");
		VS::Point();
	}
	if (R.Chance(1, 3))  VS::SleepUs(R.Below(40000));
	if (O.InW > 1 || (O.InW && O.InR))  Bad("writer-not-alone", "a writer shares the lock inside the critical section");
	if (Write)  O.InW--; else  O.InR--;
	Notice();
}
static void DoUnlock(int h, bool Write, bool Auto)
{
	Ev("f%d %s h%d", VS::Self(), Write ? "wunlock" : "runlock", h);
	if (Write)  O.Writers--; else  O.Readers--;
	if (!O.Readers)  O.WaitingWriter = -1;
	Call c(O);
	O.InFlight++;
	bool r = true;
	if (Auto && Write)  { Sync::ReadWriteLock::AutoWriteUnlock a(Hs[(size_t)h].P); }
	else if (Auto)  { Sync::ReadWriteLock::AutoReadUnlock a(Hs[(size_t)h].P); }
	else  r = Write ? Hs[(size_t)h].P->WriteUnlock() : Hs[(size_t)h].P->ReadUnlock();
	O.InFlight--;
	c.End();
	if (!r)  Bad("unlock-failed", "a holder's unlock failed");
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	Log().clear();
	VS::ShmReset();
	VS::Reset(R.Next(), RandPolicy(R));
	Bare<Sync::ReadWriteLock>(R);
	VS::Track(true);
	bool Named = R.Chance(1, 2);
	int nF = (int)R.Range(2, 6);
	O = RWObj();
	memset(WriterCall, 0, sizeof(WriterCall));
	Hs.clear();
	auto Open = [&]() {
		Hs.push_back(Slot<Sync::ReadWriteLock>());
		Hs.back().Make();
		Sync::ReadWriteLock *p = Hs.back().P;
		if (R.Chance(1, 8) && (p->ReadLock(0) || p->WriteLock(0) || p->ReadLock(5) || p->ReadUnlock() || p->WriteUnlock()))  Bad("uncreated-usable", "a lock that was never created can be used");
		if (!p->Create(Named ? "rw" : NULL))  Bad("create-failed", "creating a read/write lock failed");
		return (int)Hs.size() - 1;
	};
	std::vector<int> Mine((size_t)nF);
	int Sh = Open();
	for (auto &m : Mine)  m = (Named && R.Chance(1, 2)) ? Open() : Sh;
	if (R.Chance(1, 2) && Hs[0].P->ReadUnlock())  Bad("unlock-unheld", "a read unlock without a read lock succeeded");
	std::vector<H::Rng> FR;
	for (int i = 0; i < nF; i++)  FR.push_back(H::Rng(R.Next()));
	unsigned WritePct = R.Chance(1, 2) ? 50 : 25;
	bool Stray = R.Chance(1, 4);
	for (int i = 0; i < nF; i++)
		VS::Spawn([&, i]() {
			H::Rng &r = FR[(size_t)i];
			int h = Mine[(size_t)i], Steps = (int)r.Range(1, 4);
			for (int k = 0; k < Steps; k++)
			{
				bool Write = r.Below(100) < WritePct;
				std::uint32_t w = r.Chance(1, 2) ? INF : r.Chance(1, 3) ? 0 : (std::uint32_t)(r.Chance(1, 4) ? r.Range(100, 3000) : r.Range(1, 60));
				if (r.Chance(1, 4))  { if (r.Chance(1, 2))  VS::SleepUs(r.Below(30000)); else  VS::Point(); }
				if (!DoLock(h, Write, w))  continue;
				Body(Write, r);
				if (Write && Stray && r.Chance(1, 2))
				{
					// While a writer holds it no reader does.
					if (Hs[(size_t)h].P->ReadUnlock())  Bad("unlock-unheld", "a read unlock succeeded while only a writer holds the lock");
					nBadUnlock++;
				}
				// Extra read locks on top: with nobody waiting to write, a second one must be granted.
				bool Second = !Write && r.Chance(1, 4) && DoLock(h, false, 0);
				if (Second)  DoUnlock(h, false, false);
				DoUnlock(h, Write, r.Chance(1, 3));
			}
		}, i + 1);
	WatchIdle([&]() {
		int r = Asleep(1), w = Asleep(2);
		if (!r && !w)  return;
		if (!O.Readers && !O.Writers)  Bad("lost-wakeup", "a thread sleeps on although nobody holds the lock");
		if (r && !O.Writers && !std::count(InWait(), InWait() + 64, 2))  Bad("lost-wakeup", "a reader sleeps on although no writer holds or waits for the lock");
		nIdle++;
	});
	VS::Outcome Res = VS::Run();
	VS::Track(false);
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	if (Res == VS::Stuck)  Bad("lost-wakeup", "threads sleep forever although every holder left");
	for (auto &h : Hs)
	{
		if (h.P->ReadUnlock())  Bad("unlock-unheld", "a read unlock with no reader succeeded");
		if (!h.P->WriteLock(0))  Bad("free-refused", "a lock nobody holds cannot be locked for writing");
		if (h.P->ReadLock(0) || h.P->WriteLock(0))  Bad("reader-with-writer", "a lock was granted while a writer holds it");
		h.P->WriteUnlock();
		if (!h.P->ReadLock(0) || !h.P->ReadLock(0))  Bad("free-refused", "two readers cannot share the lock");
		if (h.P->WriteLock(0))  Bad("writer-not-alone", "a write lock was granted while readers hold the lock");
		if (!h.P->ReadLock(0))  Bad("free-refused", "a failed write attempt left the lock closed to readers");
		if (!h.P->ReadUnlock() || !h.P->ReadUnlock() || !h.P->ReadUnlock())  Bad("unlock-failed", "a reader's unlock failed");
	}
	for (auto &h : Hs)
	{
		if (h.P && R.Chance(1, 150))
		{
			// Any number of readers.
			int n = R.Chance(1, 60) ? 65536 + (int)R.Range(-1, 1) : R.Chance(1, 2) ? 256 + (int)R.Range(-1, 1) : (int)R.Range(20, 400);
			for (int i = 0; i < n; i++)  if (!h.P->ReadLock(i % 3 ? 0 : INF))  Bad("free-refused", H::Format("reader %d is refused", i + 1));
			for (int i = 0; i < n; i++)
			{
				if ((i < 3 || i > n - 3) && h.P->WriteLock(0))  Bad("writer-not-alone", H::Format("a write lock was granted while %d readers hold the lock", n - i));
				if (!h.P->ReadUnlock())  Bad("unlock-failed", H::Format("the unlock of reader %d of %d failed", i + 1, n));
			}
			if (h.P->ReadUnlock())  Bad("unlock-unheld", "a read unlock with no reader succeeded");
			if (!h.P->WriteLock(0) || !h.P->WriteUnlock())  Bad("free-refused", "a lock nobody holds cannot be locked for writing");
			H::Count("crowds of readers");
		}
		// Turned into another object, it is free.
		if (h.P && R.Chance(1, 3))
			for (std::uint64_t k = R.Range(1, 3); k; k--)
				if (!h.P->Create(R.Chance(1, 2) ? NULL : "elsewhere") || h.P->ReadUnlock() || !h.P->WriteLock(0) || h.P->ReadLock(0) || !h.P->WriteUnlock() || !h.P->ReadLock(0) || h.P->WriteLock(0) || !h.P->ReadUnlock())  Bad("create-failed", "a re-created lock is not a free lock");
		h.Kill();
	}
	CheckLeaks();
	if (O.OverlapEvents)  { H::Sig(VS::ScheduleHash()); if (H::WantSample())  H::Sample(Tail(40)); }
}
static void Case(H::Rng &R, std::uint64_t c)
{
	nR = nW = nRFail = nWFail = nShared = nExcl = nPref = nBadUnlock = 0;
	nIdle = 0;
	RunCase(R, c);
	H::Count("read locks", nR);
	H::Count("read locks shared with others", nShared);
	H::Count("write locks", nW);
	H::Count("failed read attempts", nRFail);
	H::Count("failed write attempts", nWFail);
	H::Count("readers that came after a waiting writer", nPref);
	H::Count("read unlocks without a reader", nBadUnlock);
	H::Count("quiet moments checked for sleepers that could go on", nIdle);
	H::Count("context switches", VS::Switches());
}
int main(int argc, char **argv) { return H::Main(argc, argv, Case); }
