// Pieces shared by the synchronization drivers: policies, in-call tracking, event log, linearizability check.
#ifndef VERIF_SYNCLIB_H
#define VERIF_SYNCLIB_H
#include "vsched.h"
#include <algorithm>
#include <set>
#include <new>

namespace SL
{
	static const std::uint32_t INF = 0xFFFFFFFF;

	inline VS::Policy RandPolicy(H::Rng &R)
	{
		VS::Policy P;
		static const unsigned Sw[] = { 10, 30, 60, 100 };
		static const unsigned Mem[] = { 0, 0, 2, 10 };
		P.SwitchPct = Sw[R.Below(4)];
		P.MemSwitchPct = Mem[R.Below(4)];
		if (R.Chance(1, 3))  { P.PCT = true; P.PCTDepth = (unsigned)R.Range(1, 5); }
		P.SpuriousPct = R.Chance(1, 4) ? 5 : 0;
		P.EarlyTimePct = R.Chance(1, 2) ? (unsigned)R.Range(1, 15) : 0;
		return P;
	}

	inline std::vector<std::string> &Log() { static std::vector<std::string> l; return l; }
	inline void Ev(const char *Fmt, ...) __attribute__((format(printf, 1, 2)));
	inline void Ev(const char *Fmt, ...)
	{
		va_list ap; va_start(ap, Fmt); std::string s = H::VFormat(Fmt, ap); va_end(ap);
		Log().push_back(s);
	}
	inline std::string Tail(size_t n = 60)
	{
		std::string r;
		size_t b = Log().size() > n ? Log().size() - n : 0;
		for (size_t i = b; i < Log().size(); i++)  r += Log()[i] + "; ";
		return r;
	}
	[[noreturn]] inline void Bad(const char *Key, const std::string &Msg) { H::FailStr(Key, Msg + " | history: " + Tail() + "| " + VS::Describe()); }

	// After the last handle of a trial is gone, so is everything the library asked for.
	inline void CheckLeaks()
	{
		if (VS::Mappings() || VS::OpenFds())  Bad("leak", H::Format("%d mappings and %d descriptors remain after all handles were closed", VS::Mappings(), VS::OpenFds()));
		int n = VS::LibHeap();
		if (n)  Bad("heap-leak", H::Format("%d heap blocks of the library remain after all handles were destroyed", n));
	}

	// One underlying object: which calls are in progress on it.
	struct Obj
	{
		int Active = 0;
		std::uint64_t Starts = 0;
		std::uint64_t OverlapEvents = 0;
	};
	struct Call
	{
		Obj &O;
		bool Excl;
		std::uint64_t At, T0;
		int HeldBefore;
		Call(Obj &o) : O(o)
		{
			Excl = (O.Active == 0);
			if (!Excl)  O.OverlapEvents++;
			At = ++O.Starts;
			O.Active++;
			T0 = VS::NowUs();
			HeldBefore = VS::Self() >= 0 ? VS::HeldMutexes(VS::Self()) : 0;
		}
		void End()
		{
			O.Active--;
			if (O.Starts != At)  Excl = false;
			if (VS::Self() >= 0 && VS::HeldMutexes(VS::Self()) != HeldBefore)  Bad("lock-left-held", "a call returned while still holding an internal lock");
		}
		std::uint64_t Elapsed() const { return VS::NowUs() - T0; }
	};

	// Which fibers are inside a blocking call, and in which kind.
	inline int *InWait() { static int k[64]; return k; }
	struct WaitMark
	{
		int F;
		WaitMark(int Kind) : F(VS::Self()) { if (F >= 0)  InWait()[F] = Kind; }
		~WaitMark() { if (F >= 0)  InWait()[F] = 0; }
	};
	// Number of fibers that sleep in a blocking call of this kind and will not wake by themselves any time soon.
	inline int Asleep(int Kind)
	{
		int n = 0;
		for (int f = 0; f < 64; f++)  if (InWait()[f] == Kind && VS::DeadlineOf(f) > VS::NowUs() + 20000)  n++;
		return n;
	}
	// Check is called whenever all threads sleep: none of them may do so although what it waits for is available.
	inline void WatchIdle(std::function<void()> Check)
	{
		memset(InWait(), 0, 64 * sizeof(int));
		VS::SetIdle(std::move(Check));
	}

	// ---- linearizability of small histories over an integer state ----
	struct LOp { std::uint64_t Call, Ret; int Kind; std::int64_t Arg, Res; int Fiber; };
	static const std::uint64_t Pending = ~(std::uint64_t)0;

	// Step returns false if the op is impossible in state s; otherwise updates s.
	typedef bool (*StepFn)(const LOp &, std::int64_t &s, std::int64_t Param);

	// Returns the set of possible final states (empty: not linearizable).  Pending ops have no effect.
	inline bool Linearize(const std::vector<LOp> &All, std::int64_t Init, std::int64_t Param, StepFn Step, std::set<std::int64_t> &Finals, bool &TooBig)
	{
		std::vector<LOp> Ops;
		for (auto &o : All)  if (o.Ret != Pending)  Ops.push_back(o);
		TooBig = Ops.size() > 40;
		if (TooBig)  return true;
		size_t n = Ops.size();
		std::vector<std::pair<std::uint64_t, std::int64_t> > Stack;
		std::set<std::pair<std::uint64_t, std::int64_t> > Seen;
		std::uint64_t Full = n == 0 ? 0 : (~(std::uint64_t)0 >> (64 - n));
		Stack.push_back({ 0, Init });
		Seen.insert(Stack.back());
		Finals.clear();
		size_t Work = 0;
		while (!Stack.empty())
		{
			if (++Work > 200000)  { TooBig = true; return true; }
			auto Top = Stack.back();
			Stack.pop_back();
			if (Top.first == Full)  { Finals.insert(Top.second); continue; }
			std::uint64_t MinRet = Pending;
			for (size_t i = 0; i < n; i++)  if (!(Top.first >> i & 1) && Ops[i].Ret < MinRet)  MinRet = Ops[i].Ret;
			for (size_t i = 0; i < n; i++)
			{
				if ((Top.first >> i & 1) || Ops[i].Call > MinRet)  continue;
				std::int64_t s = Top.second;
				if (!Step(Ops[i], s, Param))  continue;
				std::pair<std::uint64_t, std::int64_t> nx(Top.first | (1ull << i), s);
				if (Seen.insert(nx).second)  Stack.push_back(nx);
			}
		}
		return !Finals.empty();
	}

	// Objects live in slots that are never reused within a trial (keeps race detection exact).
	template <class T> struct Slot
	{
		T *P;
		Slot() : P(nullptr) {}
		void Make() { void *m = ::operator new(sizeof(T)); memset(m, 0xA5, sizeof(T)); VS::Forget(m, sizeof(T)); P = new (m) T(); }
		void Kill() { if (P) { P->~T(); VS::Forget(P, sizeof(T)); ::operator delete((void *)P); P = nullptr; } }
	};

	// Objects that were never created can be destroyed.
	template <class T> inline void Bare(H::Rng &R)
	{
		if (!R.Chance(1, 8))  return;
		Slot<T> a, b;
		a.Make();
		b.Make();
		a.Kill();
		b.Kill();
		H::Count("objects destroyed without having been created", 2);
	}
}
#endif
