#include "vsched.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <unordered_map>

#if defined(__has_feature)
	#if __has_feature(address_sanitizer)
		#define VS_ASAN 1
	#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
	#define VS_ASAN 1
#endif
#ifdef VS_ASAN
	#include <sanitizer/asan_interface.h>
	#include <sanitizer/common_interface_defs.h>
	#include <sanitizer/allocator_interface.h>
#endif

extern "C" void vs_switch(void **SaveSP, void *NewSP);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size vs_switch, .-vs_switch
)");

namespace VS
{
	static const size_t StackSize = 256 * 1024;
	static const std::uint64_t NoDeadline = ~(std::uint64_t)0;
	static const std::uint64_t MutexMagic = 0x56534D5554455831ull, CondMagic = 0x5653434F4E443031ull;
	static const int MaxFibers = 16;

	typedef std::vector<std::uint32_t> Clock;

	enum FState { Runnable, OnMutex, OnCond, Sleeping, Finished };
	struct Fiber
	{
		int ID = 0, PidNum = 0;
		std::function<void()> Fn;
		char *Stack = nullptr;
		void *SP = nullptr;
		void *FakeStack = nullptr;
		FState State = Runnable;
		void *WaitObj = nullptr;
		std::uint64_t Deadline = NoDeadline;
		bool TimedOut = false;
		int Held = 0;
		std::uint64_t Prio = 0, Faults = 0;
		bool StopPoints = false;
		Clock VC;
	};

	// Kept inside the pthread objects' own memory, so that clearing the memory uninitialises them.
	struct VMutex { std::uint64_t Magic; std::int32_t Owner; std::int32_t Shared; std::int32_t FirstPid; std::int32_t Type; std::int32_t Depth; };
	struct VCond { std::uint64_t Magic; std::int32_t Shared; std::int32_t FirstPid; };
	static_assert(sizeof(VMutex) <= sizeof(pthread_mutex_t), "size");
	static_assert(sizeof(VCond) <= sizeof(pthread_cond_t), "size");

	struct Shadow { int WFiber = -1; std::uint32_t WClk = 0; Clock Reads; };

	static Fiber Fibers[MaxFibers];
	static int NumFibers = 0, Curr = -1;
	static void *MainSP = nullptr, *MainFake = nullptr;
	static const void *MainStackBottom = nullptr;
	static size_t MainStackSize = 0;
	static H::Rng SR(1);
	static Policy Pol;
	static std::uint64_t Now = 0, Steps = 0, SeqNum = 0, SchedHash = 0, NumSwitches = 0, NumFaults = 0, NumJumps = 0, NumAccesses = 0;
	static std::uint64_t PrioLow = 0;
	static std::vector<std::uint64_t> ChangePoints;
	static bool FaultsOn = true, RaceOn = false, TrackOn = false, LimitHit = false;
	static std::unordered_map<void *, Clock> SyncClocks;
	static std::unordered_map<std::uintptr_t, Shadow> ShadowMem;

	static void Join(Clock &a, const Clock &b) { if (a.size() < b.size())  a.resize(b.size()); for (size_t i = 0; i < b.size(); i++)  if (a[i] < b[i])  a[i] = b[i]; }
	static void Tick(Fiber &f) { if (f.VC.size() < MaxFibers)  f.VC.resize(MaxFibers); f.VC[(size_t)f.ID]++; }
	static void Release(void *Obj) { if (Curr < 0)  return; Join(SyncClocks[Obj], Fibers[Curr].VC); Tick(Fibers[Curr]); }
	static void Acquire(void *Obj) { if (Curr < 0)  return; auto it = SyncClocks.find(Obj); if (it != SyncClocks.end())  Join(Fibers[Curr].VC, it->second); }

	static void FiberMain();

	static void Switch(int To)
	{
		int From = Curr, Err = errno;     // errno belongs to the fiber
		if (To == From)  return;
		Curr = To;
		NumSwitches++;
#ifdef VS_ASAN
		if (To >= 0)  __sanitizer_start_switch_fiber(From >= 0 ? &Fibers[From].FakeStack : &MainFake, Fibers[To].Stack, StackSize);
		else  __sanitizer_start_switch_fiber(Fibers[From].State == Finished ? nullptr : &Fibers[From].FakeStack, MainStackBottom, MainStackSize);
#endif
		vs_switch(From >= 0 ? &Fibers[From].SP : &MainSP, To >= 0 ? Fibers[To].SP : MainSP);
#ifdef VS_ASAN
		__sanitizer_finish_switch_fiber(From >= 0 ? Fibers[From].FakeStack : MainFake, nullptr, nullptr);
#endif
		errno = Err;
	}

	static void FiberMain()
	{
#ifdef VS_ASAN
		const void *b; size_t s;
		__sanitizer_finish_switch_fiber(nullptr, &b, &s);
		if (MainStackBottom == nullptr)  { MainStackBottom = b; MainStackSize = s; }
#endif
		{
			Fiber &f = Fibers[Curr];
			f.Fn();
			f.Fn = nullptr;
			f.State = Finished;
		}
		Switch(-1);
		abort();
	}

	static std::function<void()> Idle;
	void Reset(std::uint64_t Seed, const Policy &P)
	{
		Idle = nullptr;
		if (Curr != -1)  H::HarnessError("Reset inside a fiber");
		SR = H::Rng(Seed);
		Pol = P;
		NumFibers = 0;
		Now = 1600000000ull * 1000000 + SR.Below(1000000);
		if (SR.Chance(1, 3))  Now -= Now % (SR.Chance(1, 4) ? 1000000 : 1000);   // deadlines that fall exactly on a second
		Steps = 0;
		SeqNum = 0;
		SchedHash = 0xcbf29ce484222325ull;
		NumSwitches = NumFaults = NumJumps = NumAccesses = 0;
		FaultsOn = true;
		LimitHit = false;
		PrioLow = 1000;
		ChangePoints.clear();
		if (P.PCT)  for (unsigned i = 0; i < P.PCTDepth; i++)  ChangePoints.push_back(SR.Below(SR.Chance(1, 2) ? 150 : 1200));
		SyncClocks.clear();
		ShadowMem.clear();
		static const bool WantRaces = getenv("VERIF_RACE") != nullptr;
		if (WantRaces)  RaceOn = true;
	}

	int Spawn(std::function<void()> Fn, int PidNum)
	{
		if (NumFibers >= MaxFibers)  H::HarnessError("too many fibers");
		Fiber &f = Fibers[NumFibers];
		char *Stack = f.Stack;
		f = Fiber();
		f.Stack = Stack;
		f.ID = NumFibers;
		f.PidNum = PidNum;
		f.Fn = std::move(Fn);
		f.Prio = 2000 + SR.Below(1000000);
		if (f.Stack == nullptr)
		{
			f.Stack = (char *)mmap(NULL, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (f.Stack == MAP_FAILED)  H::HarnessError("mmap stack");
		}
#ifdef VS_ASAN
		__asan_unpoison_memory_region(f.Stack, StackSize);
#endif
		Tick(f);
		std::uintptr_t Top = ((std::uintptr_t)f.Stack + StackSize) & ~(std::uintptr_t)63;
		void **sp = (void **)Top;
		*--sp = nullptr;               // alignment: at entry rsp % 16 == 8
		*--sp = (void *)&FiberMain;
		for (int i = 0; i < 6; i++)  *--sp = nullptr;
		f.SP = sp;
		return NumFibers++;
	}

	static bool CanRun(Fiber &f)
	{
		switch (f.State)
		{
			case Runnable:  return true;
			case OnMutex:  return ((VMutex *)f.WaitObj)->Owner == -1;
			case OnCond:
			case Sleeping:  return Now >= f.Deadline;
			case Finished:  return false;
		}
		return false;
	}

	static std::uint64_t NextDeadline()
	{
		std::uint64_t d = NoDeadline;
		for (int i = 0; i < NumFibers; i++)
			if ((Fibers[i].State == OnCond || Fibers[i].State == Sleeping) && Fibers[i].Deadline < d)  d = Fibers[i].Deadline;
		return d;
	}

	void SetIdle(std::function<void()> Fn) { Idle = std::move(Fn); }
	std::uint64_t DeadlineOf(int i) { return Fibers[i].Deadline; }

	// Chooses who runs next; -1 if nobody can ever run again without outside help.
	static int Choose(int Prefer)
	{
		int c[MaxFibers], n = 0;
		for (;;)
		{
			n = 0;
			for (int i = 0; i < NumFibers; i++)  if (CanRun(Fibers[i]))  c[n++] = i;
			if (n)  break;
			std::uint64_t d = NextDeadline();
			if (d == NoDeadline)  return -1;
			if (Idle && d > Now)  Idle();
			Now = d;
		}
		int Pick;
		if (Pol.PCT)
		{
			Pick = c[0];
			for (int i = 1; i < n; i++)  if (Fibers[c[i]].Prio > Fibers[Pick].Prio)  Pick = c[i];
		}
		else  Pick = c[SR.Below((std::uint64_t)n)];
		(void)Prefer;
		if (n > 1)  SchedHash = (SchedHash ^ (std::uint64_t)(Pick + 1)) * 0x100000001b3ull;
		return Pick;
	}

	static void YieldTo(int Next)
	{
		// From a fiber: hand over directly.  If nobody can run, return to the main context (stuck).
		if (Next < 0)  { Switch(-1); return; }
		Switch(Next);
	}

	static void Step()
	{
		if (++Steps > Pol.StepLimit)  { LimitHit = true; Switch(-1); H::HarnessError("resumed after step limit"); }
		if (Pol.PCT)
		{
			for (std::uint64_t p : ChangePoints)  if (p == Steps)  Fibers[Curr].Prio = --PrioLow;
		}
	}

	static void SyncPoint()
	{
		if (Curr < 0 || Fibers[Curr].StopPoints)  return;
		Step();
		if (Pol.EarlyTimePct && SR.Below(100) < Pol.EarlyTimePct)
		{
			std::uint64_t d = NextDeadline();
			if (d != NoDeadline && d > Now)  { Now = d; NumJumps++; }
		}
		if (Pol.PCT || SR.Below(100) < Pol.SwitchPct)
		{
			int n = Choose(Curr);
			if (n != Curr)  Switch(n);
		}
	}

	void Point() { SyncPoint(); }

	// Blocks the current fiber in its (already set) state until it is picked again.
	static void Block()
	{
		Step();
		int n = Choose(-1);
		if (n == Curr)  return;
		YieldTo(n);
	}

	void SleepUs(std::uint64_t us)
	{
		if (Curr < 0)  return;
		Fiber &f = Fibers[Curr];
		f.State = Sleeping;
		f.Deadline = Now + us;
		while (f.State == Sleeping && Now < f.Deadline)  Block();
		f.State = Runnable;
		f.Deadline = NoDeadline;
	}

	static Outcome Run_();
	Outcome Run()
	{
		Outcome r = Run_();
		if (RaceOn)  { H::Count("memory accesses checked for races", NumAccesses); }
		return r;
	}
	static Outcome Run_()
	{
		int n = Choose(-1);
		while (n >= 0)
		{
			Switch(n);
			if (LimitHit)  return StepLimit;
			n = Choose(-1);
		}
		for (int i = 0; i < NumFibers; i++)  if (Fibers[i].State != Finished)  return Stuck;
		return Done;
	}

	int Self() { return Curr; }
	int Pid() { return Curr < 0 ? 0 : Fibers[Curr].PidNum; }
	std::uint64_t NowUs() { return Now; }
	std::uint64_t Seq() { return ++SeqNum; }
	bool IsBlocked(int i) { return i >= 0 && i < NumFibers && Fibers[i].State != Finished && !CanRun(Fibers[i]); }
	bool IsFinished(int i) { return Fibers[i].State == Finished; }
	bool IsTimed(int i) { return Fibers[i].Deadline != NoDeadline; }
	int HeldMutexes(int i) { return Fibers[i].Held; }
	std::uint64_t ScheduleHash() { return SchedHash; }
	std::uint64_t Switches() { return NumSwitches; }
	std::uint64_t Faults() { return NumFaults; }
	std::uint64_t FaultsOf(int i) { return Fibers[i].Faults; }
	std::uint64_t TimeJumpsWhileRunnable() { return NumJumps; }
	void SetFaults(bool On) { FaultsOn = On; }
	std::uint64_t AccessesChecked() { return NumAccesses; }
	void RaceDetection(bool On) { RaceOn = On; }
	void Track(bool On) { TrackOn = On; }
	void Forget(const void *p, size_t n)
	{
		if (!RaceOn)  return;
		for (std::uintptr_t a = (std::uintptr_t)p; a < (std::uintptr_t)p + n; a++)  ShadowMem.erase(a);
	}

	std::string Describe()
	{
		static const char *Names[] = { "runnable", "mutex", "cond", "sleep", "done" };
		std::string s;
		for (int i = 0; i < NumFibers; i++)  s += H::Format("f%d:%s%s ", i, Names[Fibers[i].State], Fibers[i].Deadline != NoDeadline ? "(timed)" : "");
		return s;
	}

	static bool Fault(unsigned Pct)
	{
		if (!Pct || !FaultsOn || Curr < 0 || SR.Below(100) >= Pct)  return false;
		NumFaults++;
		Fibers[Curr].Faults++;
		return true;
	}

	// ---- emulated shared memory ----
	struct Block_ { char *Mem = nullptr; size_t Size = 0; int Maps = 0; mode_t Mode = 0; size_t Virtual = 0; };
	static const size_t ShmCap = 1 << 20;
	static std::map<std::string, Block_> Shm;
	static std::map<int, std::string> Fds;
	static int NextFd = 1000000, NumMaps = 0;
	static mode_t UMask = 022;
	static std::vector<char *> Pool;       // blocks of zeros to reuse

	int OpenFds() { return (int)Fds.size(); }
	int Mappings() { return NumMaps; }
	size_t ShmNames() { return Shm.size(); }
	bool ShmModesOpen() { for (auto &b : Shm)  if ((b.second.Mode & 0666) != 0666)  return false; return true; }
	unsigned CurrUmask() { return UMask; }
	// ---- heap blocks the library's own objects asked for and nobody has given back ----
	static const int HeapCap = 4096;
	static const volatile void *Heap[HeapCap];
	static int HeapLive = 0, HeapEnds = 0;
	static bool HeapHooked = false;
	static void *HeapGot(void *p)
	{
		if (p && HeapHooked && HeapLive < HeapCap)  Heap[HeapLive++] = p;
		return p;
	}
	static void HeapFreed(const volatile void *p)
	{
		for (int i = HeapLive - 1; i >= 0; i--)  if (Heap[i] == p)  { Heap[i] = Heap[--HeapLive]; return; }
	}
	static void HeapAsked(const volatile void *, size_t) {}
	int LibHeap()
	{
		// Whatever the library sets up once per process may stay: the first trial does not count.
		int n = HeapLive;
		HeapLive = 0;
		return HeapEnds++ ? n : 0;
	}
	void ShmReset()
	{
		HeapLive = 0;
#ifdef VS_ASAN
		if (!HeapHooked)
		{
			if (!__sanitizer_install_malloc_and_free_hooks(HeapAsked, HeapFreed))  H::HarnessError("cannot install allocation hooks");
			HeapHooked = true;
		}
#endif
		for (auto &b : Shm)
		{
			if (b.second.Mem && b.second.Virtual)  munmap(b.second.Mem, b.second.Virtual);
			else if (b.second.Mem)
			{
#ifdef VS_ASAN
				__asan_unpoison_memory_region(b.second.Mem, ShmCap);
#endif
				memset(b.second.Mem, 0, b.second.Size);
				Pool.push_back(b.second.Mem);
			}
		}
		Shm.clear();
		Fds.clear();
		NumMaps = 0;
		UMask = 022;
	}
	static Block_ *FindShm(void *p)
	{
		for (auto &b : Shm)  if (b.second.Mem && (char *)p >= b.second.Mem && (char *)p < b.second.Mem + ShmCap)  return &b.second;
		return nullptr;
	}
	static void Resize(Block_ &b, size_t Size)
	{
		if (Size > ShmCap || b.Virtual)
		{
			// Huge blocks exist only as address space, and are never resized.
			if (!b.Mem && Size <= (size_t)1 << 40)
			{
				b.Mem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (b.Mem == MAP_FAILED)  H::HarnessError("mmap huge block");
				b.Virtual = Size;
			}
			else if (!b.Mem)  b.Virtual = 1;
			else if (Size != b.Size)  H::Fail("shm-size", "a shared memory block of %zu bytes is made %zu bytes long while it is in use", b.Size, Size);
			b.Size = Size;
			return;
		}
		if (!b.Mem)
		{
			if (Pool.empty())  b.Mem = (char *)mmap(NULL, ShmCap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			else  { b.Mem = Pool.back(); Pool.pop_back(); }
		}
#ifdef VS_ASAN
		__asan_unpoison_memory_region(b.Mem, ShmCap);
#endif
		if (Size < b.Size)  memset(b.Mem + Size, 0, b.Size - Size);
		b.Size = Size;
#ifdef VS_ASAN
		if (Size < ShmCap)  __asan_poison_memory_region(b.Mem + ((Size + 7) & ~(size_t)7), ShmCap - ((Size + 7) & ~(size_t)7));
		if (Size & 7)  __asan_poison_memory_region(b.Mem + Size, 8 - (Size & 7));
#endif
	}

	// ---- race detection ----
	static bool OnStack(std::uintptr_t a)
	{
		for (int i = 0; i < NumFibers; i++)  if (a >= (std::uintptr_t)Fibers[i].Stack && a < (std::uintptr_t)Fibers[i].Stack + StackSize)  return true;
		return false;
	}
	static void Access(void *Addr, size_t Size, bool Write)
	{
		if (Curr < 0)  return;
		std::uintptr_t a = (std::uintptr_t)Addr;
		if (OnStack(a))  return;
		if (RaceOn)
		{
			Fiber &f = Fibers[Curr];
			if (f.VC.size() < MaxFibers)  f.VC.resize(MaxFibers);
			NumAccesses++;
			bool Skip = false;
			// The creation flag of a shared block is a deliberate one-byte handshake: setting it publishes, reading it observes.
			if (Size == 1)
			{
				Block_ *b = FindShm(Addr);
				if (b && (char *)Addr == b->Mem)
				{
					Skip = true;
					if (Write)  Release(Addr);
					else  Acquire(Addr);
				}
			}
			if (!Skip)
			{
				for (std::uintptr_t g = a & ~(std::uintptr_t)0; g < a + Size; g++)
				{
					Shadow &s = ShadowMem[g];
					if (s.WFiber >= 0 && s.WFiber != Curr && f.VC[(size_t)s.WFiber] < s.WClk)
						H::Fail("data-race", "unsynchronised %s of %zu bytes at +%zu after a write by another thread (threads %d and %d)", Write ? "write" : "read", Size, (size_t)(g - a), Curr, s.WFiber);
					if (Write)
					{
						for (size_t i = 0; i < s.Reads.size(); i++)
							if ((int)i != Curr && s.Reads[i] > f.VC[i])
								H::Fail("data-race", "unsynchronised write of %zu bytes after a read by another thread (threads %d and %zu)", Size, Curr, i);
						s.WFiber = Curr;
						s.WClk = f.VC[(size_t)Curr];
						s.Reads.clear();
					}
					else
					{
						if (s.Reads.size() < MaxFibers)  s.Reads.resize(MaxFibers);
						s.Reads[(size_t)Curr] = f.VC[(size_t)Curr];
					}
				}
			}
		}
		if (TrackOn && !Fibers[Curr].StopPoints)
		{
			if (Pol.PCT)
			{
				Step();
				int n = Choose(Curr);
				if (n != Curr)  Switch(n);
			}
			else if (Pol.MemSwitchPct && SR.Below(100) < Pol.MemSwitchPct)
			{
				Step();
				int n = Choose(Curr);
				if (n != Curr)  Switch(n);
			}
		}
	}

	void Touch(const void *p, size_t n, bool Write) { if (RaceOn)  Access((void *)p, n, Write); }

	static VMutex *GetMutex(pthread_mutex_t *m, const char *Op)
	{
		VMutex *v = (VMutex *)m;
		if (v->Magic == MutexMagic)  return v;
		Block_ *b = FindShm(m);
		// A statically initialised mutex is all zeros.
		bool Zero = true;
		for (size_t i = 0; i < sizeof(pthread_mutex_t); i++)  if (((char *)m)[i])  Zero = false;
		if (!Zero || b != nullptr)  H::Fail("uninitialised-lock", "%s on an uninitialised mutex%s", Op, b ? " in shared memory" : "");
		v->Magic = MutexMagic;
		v->Owner = -1;
		v->Shared = 0;
		v->FirstPid = -1;
		v->Type = 0;
		v->Depth = 0;
		return v;
	}
	static void CheckShared(int Shared, std::int32_t &FirstPid, void *p, const char *What)
	{
		if (Curr < 0)  return;
		int pid = Fibers[Curr].PidNum;
		if (FirstPid < 0)  FirstPid = pid;
		else if (FirstPid != pid && !Shared && FindShm(p))  H::Fail("private-lock-shared", "a process-private %s in shared memory is used by two processes", What);
	}
	static VCond *GetCond(pthread_cond_t *c, const char *Op)
	{
		VCond *v = (VCond *)c;
		if (v->Magic == CondMagic)  return v;
		bool Zero = true;
		for (size_t i = 0; i < sizeof(pthread_cond_t); i++)  if (((char *)c)[i])  Zero = false;
		if (!Zero || FindShm(c))  H::Fail("uninitialised-lock", "%s on an uninitialised condition variable", Op);
		v->Magic = CondMagic;
		v->Shared = 0;
		v->FirstPid = -1;
		return v;
	}

	static void LockRaw(pthread_mutex_t *m, VMutex *v)
	{
		if (Curr < 0)
		{
			if (v->Owner != -1)  H::Fail("lock-held-by-nobody", "a mutex is still locked after all threads finished");
			v->Owner = -2;
			return;
		}
		Fiber &f = Fibers[Curr];
		while (v->Owner != -1)
		{
			f.State = OnMutex;
			f.WaitObj = m;
			Block();
			f.State = Runnable;
			if (v->Magic != MutexMagic)  H::Fail("lock-destroyed", "a mutex was cleared or destroyed while a thread waited for it");
		}
		v->Owner = Curr;
		f.Held++;
		Acquire(m);
	}
	static void UnlockRaw(pthread_mutex_t *m, VMutex *v)
	{
		if (Curr < 0)
		{
			if (v->Owner != -2)  H::Fail("unlock-not-owner", "unlock of a mutex that is not locked by the caller");
			v->Owner = -1;
			return;
		}
		if (v->Owner != Curr)  H::Fail("unlock-not-owner", "unlock of a mutex %s", v->Owner == -1 ? "that is not locked" : "that another thread holds");
		Release(m);
		v->Owner = -1;
		Fibers[Curr].Held--;
	}
}

using namespace VS;

extern "C"
{
	int vf_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof(*a)); return 0; }
	int vf_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
	int vf_pthread_mutexattr_setpshared(pthread_mutexattr_t *a, int v) { ((char *)a)[0] = (char)(v == PTHREAD_PROCESS_SHARED); return 0; }
	int vf_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { ((char *)a)[1] = (char)t; return 0; }
	int vf_pthread_mutexattr_setrobust(pthread_mutexattr_t *, int) { return 0; }
	int vf_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof(*a)); return 0; }
	int vf_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
	int vf_pthread_condattr_setpshared(pthread_condattr_t *a, int v) { ((char *)a)[0] = (char)(v == PTHREAD_PROCESS_SHARED); return 0; }
	int vf_pthread_condattr_setclock(pthread_condattr_t *, clockid_t) { return 0; }

	int vf_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
	{
		SyncPoint();
		VMutex *v = (VMutex *)m;
		if (v->Magic == MutexMagic && v->Owner != -1 && FindShm(m))  H::Fail("reinit-held-lock", "a mutex in shared memory is initialised again while it is held");
		memset((void *)m, 0, sizeof(*m));
		v->Magic = MutexMagic;
		v->Owner = -1;
		v->Shared = a ? ((const char *)a)[0] : 0;
		v->Type = a ? ((const char *)a)[1] : 0;
		v->FirstPid = -1;
		SyncClocks.erase(m);
		return 0;
	}
	int vf_pthread_mutex_destroy(pthread_mutex_t *m)
	{
		SyncPoint();
		VMutex *v = GetMutex(m, "destroy");
		if (v->Owner != -1)  H::Fail("destroy-held-lock", "a mutex is destroyed while it is held");
		for (int i = 0; i < NumFibers; i++)  if (Fibers[i].State == OnMutex && Fibers[i].WaitObj == m)  H::Fail("destroy-held-lock", "a mutex is destroyed while a thread waits for it");
		memset((void *)m, 0xEE, sizeof(*m));
		return 0;
	}
	int vf_pthread_mutex_lock(pthread_mutex_t *m)
	{
		SyncPoint();
		VMutex *v = GetMutex(m, "lock");
		CheckShared(v->Shared, v->FirstPid, m, "mutex");
		if (v->Owner == Curr && Curr >= 0 && v->Type == PTHREAD_MUTEX_RECURSIVE)  { v->Depth++; return 0; }
		LockRaw(m, v);
		return 0;
	}
	int vf_pthread_mutex_trylock(pthread_mutex_t *m)
	{
		SyncPoint();
		VMutex *v = GetMutex(m, "trylock");
		CheckShared(v->Shared, v->FirstPid, m, "mutex");
		if (v->Owner == Curr && Curr >= 0 && v->Type == PTHREAD_MUTEX_RECURSIVE)  { v->Depth++; return 0; }
		if (v->Owner != -1)  return EBUSY;
		LockRaw(m, v);
		return 0;
	}
	int vf_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
	{
		SyncPoint();
		VMutex *v = GetMutex(m, "timedlock");
		std::uint64_t d = (std::uint64_t)ts->tv_sec * 1000000 + (std::uint64_t)ts->tv_nsec / 1000;
		while (v->Owner != -1 && Now < d)  VS::SleepUs(std::min<std::uint64_t>(1000, d - Now));
		if (v->Owner != -1)  return ETIMEDOUT;
		LockRaw(m, v);
		return 0;
	}
	int vf_pthread_mutex_unlock(pthread_mutex_t *m)
	{
		SyncPoint();
		VMutex *v = GetMutex(m, "unlock");
		if (v->Depth && v->Owner == Curr)  { v->Depth--; return 0; }
		UnlockRaw(m, v);
		SyncPoint();
		return 0;
	}
	int vf_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
	{
		SyncPoint();
		memset((void *)c, 0, sizeof(*c));
		VCond *v = (VCond *)c;
		v->Magic = CondMagic;
		v->Shared = a ? ((const char *)a)[0] : 0;
		v->FirstPid = -1;
		return 0;
	}
	int vf_pthread_cond_destroy(pthread_cond_t *c)
	{
		SyncPoint();
		GetCond(c, "destroy");
		for (int i = 0; i < NumFibers; i++)  if (Fibers[i].State == OnCond && Fibers[i].WaitObj == c)  H::Fail("destroy-held-lock", "a condition variable is destroyed while a thread waits on it");
		memset((void *)c, 0xEE, sizeof(*c));
		return 0;
	}
	static int CondWait(pthread_cond_t *c, pthread_mutex_t *m, std::uint64_t Deadline)
	{
		SyncPoint();
		VCond *cv = GetCond(c, "wait");
		VMutex *v = GetMutex(m, "cond wait");
		if (Curr < 0)  H::HarnessError("cond wait outside a fiber");
		CheckShared(cv->Shared, cv->FirstPid, c, "condition variable");
		if (v->Owner != Curr)  H::Fail("cond-wait-unlocked", "waiting on a condition variable without holding its mutex");
		Fiber &f = Fibers[Curr];
		UnlockRaw(m, v);
		f.State = OnCond;
		f.WaitObj = c;
		f.Deadline = Deadline;
		f.TimedOut = false;
		while (f.State == OnCond && Now < f.Deadline)
		{
			if (Pol.SpuriousPct && SR.Below(100) < Pol.SpuriousPct)  break;
			Block();
		}
		bool Timed = (f.State == OnCond && Now >= f.Deadline);
		f.State = Runnable;
		f.WaitObj = nullptr;
		f.Deadline = NoDeadline;
		SyncPoint();
		if (v->Magic != MutexMagic)  H::Fail("lock-destroyed", "a mutex was cleared or destroyed while a thread waited with it");
		LockRaw(m, v);
		return Timed ? ETIMEDOUT : 0;
	}
	int vf_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
	{
		if (Fault(Pol.CondFailPct))  return EINVAL;
		return CondWait(c, m, NoDeadline);
	}
	int vf_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
	{
		if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)  return EINVAL;
		if (Fault(Pol.CondFailPct))  return EINVAL;
		std::uint64_t d = (std::uint64_t)ts->tv_sec * 1000000 + ((std::uint64_t)ts->tv_nsec + 999) / 1000;
		return CondWait(c, m, d);
	}
	int vf_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return vf_pthread_cond_timedwait(c, m, ts); }
	static void Wake(pthread_cond_t *c, bool All)
	{
		int w[MaxFibers], n = 0;
		// A waiter whose time is up has left the queue already: it does not absorb a signal.
		for (int i = 0; i < NumFibers; i++)  if (Fibers[i].State == OnCond && Fibers[i].WaitObj == c && Now < Fibers[i].Deadline)  w[n++] = i;
		if (!n)  return;
		if (All)  { for (int i = 0; i < n; i++)  { Fibers[w[i]].State = Runnable; } return; }
		int k = n > 1 ? (int)SR.Below((std::uint64_t)n) : 0;
		Fibers[w[k]].State = Runnable;
	}
	int vf_pthread_cond_signal(pthread_cond_t *c)
	{
		SyncPoint();
		VCond *v = GetCond(c, "signal");
		if (Curr >= 0)  CheckShared(v->Shared, v->FirstPid, c, "condition variable");
		Wake(c, false);
		return 0;
	}
	int vf_pthread_cond_broadcast(pthread_cond_t *c)
	{
		SyncPoint();
		VCond *v = GetCond(c, "broadcast");
		if (Curr >= 0)  CheckShared(v->Shared, v->FirstPid, c, "condition variable");
		Wake(c, true);
		return 0;
	}
	pthread_t vf_pthread_self(void) { return (pthread_t)(0x7000 + 16 * (Curr + 1)); }

	int vf_clock_gettime(clockid_t, struct timespec *ts)
	{
		SyncPoint();
		if (Fault(Pol.ClockFailPct))  { errno = EINVAL; return -1; }
		ts->tv_sec = (time_t)(Now / 1000000);
		ts->tv_nsec = (long)(Now % 1000000) * 1000;
		return 0;
	}
	int vf_gettimeofday(struct timeval *tv, void *)
	{
		SyncPoint();
		if (Fault(Pol.TimeOfDayFailPct))  { errno = EFAULT; return -1; }
		tv->tv_sec = (time_t)(Now / 1000000);
		tv->tv_usec = (suseconds_t)(Now % 1000000);
		return 0;
	}
	time_t vf_time(time_t *t) { time_t r = (time_t)(Now / 1000000); if (t)  *t = r; return r; }
	int vf_usleep(useconds_t us) { VS::SleepUs(us); return 0; }
	int vf_nanosleep(const struct timespec *ts, struct timespec *) { VS::SleepUs((std::uint64_t)ts->tv_sec * 1000000 + (std::uint64_t)ts->tv_nsec / 1000); return 0; }
	int vf_sched_yield(void) { VS::SleepUs(1); return 0; }

	mode_t vf_umask(mode_t m) { SyncPoint(); mode_t p = UMask; UMask = m & 0777; SyncPoint(); return p; }
	int vf_shm_open(const char *Name, int Flags, mode_t Mode)
	{
		SyncPoint();
		if (Fault(Pol.ShmFailPct))  { errno = EMFILE; return -1; }
		auto it = Shm.find(Name);
		if (it != Shm.end())
		{
			if ((Flags & O_CREAT) && (Flags & O_EXCL))  { errno = EEXIST; return -1; }
			if (Flags & O_TRUNC)  Resize(it->second, 0);
		}
		else
		{
			if (!(Flags & O_CREAT))  { errno = ENOENT; return -1; }
			if (Name[0] != '/' || strlen(Name) > 255 || strchr(Name + 1, '/') || !Name[1])  { errno = EINVAL; return -1; }
			Shm[Name].Mode = Mode & ~UMask;
		}
		// A program may have closed its standard streams: then descriptors start at 0 and are reused.
		int fd = NextFd;
		if (H::G().CurrCase % 3 == 0)  for (fd = 0; Fds.count(fd); fd++);
		else  NextFd++;
		Fds[fd] = Name;
		SyncPoint();
		return fd;
	}
	int vf_shm_unlink(const char *Name)
	{
		SyncPoint();
		auto it = Shm.find(Name);
		if (it == Shm.end())  { errno = ENOENT; return -1; }
		if (it->second.Maps)
		{
			// Mapped blocks live on under no name.
			static int n = 0;
			Shm["(unlinked)" + std::to_string(n++)] = it->second;
		}
		else if (it->second.Mem && it->second.Virtual)  munmap(it->second.Mem, it->second.Virtual);
		else if (it->second.Mem)
		{
			Resize(it->second, 0);
			Pool.push_back(it->second.Mem);
		}
		Shm.erase(it);
		return 0;
	}
	int vf_ftruncate(int fd, off_t Size)
	{
		SyncPoint();
		auto it = Fds.find(fd);
		if (it == Fds.end())  { errno = EBADF; return -1; }
		if (Fault(Pol.TruncEintrPct))  { errno = EINTR; return -1; }
		if (Size < 0)  { errno = EINVAL; return -1; }
		if (Fault(Pol.TruncFailPct))  { errno = EFBIG; return -1; }
		Resize(Shm[it->second], (size_t)Size);
		SyncPoint();
		return 0;
	}
	int vf_fstat(int fd, struct stat *st)
	{
		auto it = Fds.find(fd);
		if (it == Fds.end())  { errno = EBADF; return -1; }
		memset(st, 0, sizeof(*st));
		st->st_size = (off_t)Shm[it->second].Size;
		st->st_mode = S_IFREG | Shm[it->second].Mode;
		return 0;
	}
	int vf_fchmod(int fd, mode_t m) { auto it = Fds.find(fd); if (it == Fds.end())  { errno = EBADF; return -1; } Shm[it->second].Mode = m; return 0; }
	void *vf_mmap(void *, size_t Size, int, int, int fd, off_t)
	{
		SyncPoint();
		auto it = Fds.find(fd);
		if (it == Fds.end())  { errno = EBADF; return MAP_FAILED; }
		Block_ &b = Shm[it->second];
		if (Size > (size_t)1 << 40)  { errno = ENOMEM; return MAP_FAILED; }
		if (Fault(Pol.MapFailPct))  { errno = ENOMEM; return MAP_FAILED; }
		if (!b.Mem && !b.Virtual)  Resize(b, 0);
		if (Size > b.Size && Size > ((b.Size + 4095) & ~(size_t)4095))  H::Fail("map-past-end", "a mapping of %zu bytes of a shared block of %zu bytes", Size, b.Size);
		b.Maps++;
		NumMaps++;
		return b.Mem;
	}
	void *vf_mmap64(void *a, size_t s, int p, int f, int fd, off_t o) { return vf_mmap(a, s, p, f, fd, o); }
	int vf_ftruncate64(int fd, off_t s) { return vf_ftruncate(fd, s); }
	int vf_munmap(void *p, size_t Size)
	{
		SyncPoint();
		for (auto &b : Shm)
			if (b.second.Mem == (char *)p && b.second.Maps > 0)
			{
				size_t a = (Size + 4095) & ~(size_t)4095, c = (b.second.Size + 4095) & ~(size_t)4095;
				if (a != c)  H::Fail("munmap-size", "a mapping of %zu bytes is released with size %zu", b.second.Size, Size);
				b.second.Maps--;
				NumMaps--;
				return 0;
			}
		H::Fail("munmap-wrong", "release of a mapping that does not exist");
	}
	int vf_close(int fd)
	{
		SyncPoint();
		if (Fds.erase(fd))  return 0;
		H::Fail("close-wrong", "close of a descriptor that is not open");
	}

	void *vf_Znwm(size_t n) { return HeapGot(::operator new(n)); }
	void *vf_Znam(size_t n) { return HeapGot(::operator new[](n)); }
	void *vf_ZnwmNT(size_t n, const std::nothrow_t &t) { return HeapGot(::operator new(n, t)); }
	void *vf_ZnamNT(size_t n, const std::nothrow_t &t) { return HeapGot(::operator new[](n, t)); }
	void *vf_malloc(size_t n) { return HeapGot(malloc(n)); }
	void *vf_calloc(size_t a, size_t b) { return HeapGot(calloc(a, b)); }
	void *vf_realloc(void *p, size_t n) { return HeapGot(realloc(p, n)); }
	char *vf_strdup(const char *s) { return (char *)HeapGot(strdup(s)); }

	// Memory access callbacks (clang -fsanitize-coverage=trace-loads,trace-stores on the library's objects).
	void __sanitizer_cov_load1(void *p) { Access(p, 1, false); }
	void __sanitizer_cov_load2(void *p) { Access(p, 2, false); }
	void __sanitizer_cov_load4(void *p) { Access(p, 4, false); }
	void __sanitizer_cov_load8(void *p) { Access(p, 8, false); }
	void __sanitizer_cov_load16(void *p) { Access(p, 16, false); }
	void __sanitizer_cov_store1(void *p) { Access(p, 1, true); }
	void __sanitizer_cov_store2(void *p) { Access(p, 2, true); }
	void __sanitizer_cov_store4(void *p) { Access(p, 4, true); }
	void __sanitizer_cov_store8(void *p) { Access(p, 8, true); }
	void __sanitizer_cov_store16(void *p) { Access(p, 16, true); }
}
