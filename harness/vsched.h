// Deterministic fiber scheduler with virtual time, standing in for pthreads, clocks and shared memory.
//
// The library's own objects are compiled unmodified; their calls to pthread_*, clock_gettime, gettimeofday,
// usleep, shm_open, mmap, ... are redirected (objcopy --redefine-syms) to vf_* below.  Every such call, and
// with load/store coverage callbacks every shared memory access, is a scheduling point.
#ifndef VERIF_VSCHED_H
#define VERIF_VSCHED_H
#include <cstdint>
#include <functional>
#include <string>
#include "common.h"

namespace VS
{
	struct Policy
	{
		unsigned SwitchPct = 50;       // chance (percent) of considering a switch at a sync point
		unsigned MemSwitchPct = 3;     // the same at a plain memory access
		bool PCT = false;              // random priorities with change points instead of uniform choice
		unsigned PCTDepth = 3;
		unsigned SpuriousPct = 0;      // spurious condition variable wakeups
		unsigned EarlyTimePct = 0;     // chance per sync point that time jumps to the next deadline although others can run
		unsigned ClockFailPct = 0;     // clock_gettime() fails
		unsigned TimeOfDayFailPct = 0;
		unsigned CondFailPct = 0;
		unsigned ShmFailPct = 0;       // shm_open() fails
		unsigned TruncEintrPct = 0;    // ftruncate() is interrupted
		unsigned TruncFailPct = 0;     // ftruncate() fails for good
		unsigned MapFailPct = 0;       // mmap() fails
		unsigned StepLimit = 400000;
	};
	enum Outcome { Done, Stuck, StepLimit };

	void Reset(std::uint64_t Seed, const Policy &P);
	int Spawn(std::function<void()> Fn, int Pid = 0);
	Outcome Run();
	void Point();                      // explicit scheduling point
	void SleepUs(std::uint64_t us);    // virtual sleep
	int Self();                        // -1 outside fibers
	int Pid();
	std::uint64_t NowUs();
	std::uint64_t Seq();               // logical time of the current scheduling step (strictly increasing per call)
	bool IsBlocked(int Fiber);         // in a wait that only another fiber (or time) can end
	bool IsFinished(int Fiber);
	bool IsTimed(int Fiber);
	int HeldMutexes(int Fiber);        // pthread mutexes owned by the fiber right now
	std::uint64_t ScheduleHash();      // hash of the sequence of choices that mattered
	std::uint64_t Switches();
	std::uint64_t Faults();            // injected faults so far in this trial
	std::uint64_t FaultsOf(int Fiber);
	std::uint64_t TimeJumpsWhileRunnable();
	std::string Describe();
	void SetIdle(std::function<void()> Fn);   // called when every fiber sleeps, before time moves on (until the next Reset)
	std::uint64_t DeadlineOf(int Fiber);       // virtual time at which its sleep ends by itself
	void SetFaults(bool On);           // fault injection only happens while on

	// Emulated shared memory bookkeeping.
	int OpenFds();
	int Mappings();
	int LibHeap();                     // heap blocks of the library still alive (asked for at the end of a trial)
	size_t ShmNames();
	bool ShmModesOpen();               // every name may be opened by every user
	void ShmReset();                   // forget all names (only when nothing is mapped)
	unsigned CurrUmask();

	void RaceDetection(bool On);       // happens-before checking of plain accesses
	std::uint64_t AccessesChecked();
	void Touch(const void *p, size_t n, bool Write);   // the workload's own access to data guarded by the object under test
	void Track(bool On);               // memory access callbacks act as scheduling points
	void Forget(const void *p, size_t n);   // memory handed back: drop its shadow state
}
#endif
