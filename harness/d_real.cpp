// Real threads and forked processes on real kernel objects (shared memory is a file in the scratch directory).
// VF_MODE selects what is exercised: mutex, sem, event, rw, named, shm; with VF_THREADS=1 everything happens in one
// process (for ThreadSanitizer).  Nothing here depends on how long anything takes: a wait that never ends shows up as
// a hang of the case, judged only after it happened twice.
#include "common.h"
#include <atomic>
#include <functional>
#include <thread>
#include <dirent.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "sync/sync_mutex.h"
#include "sync/sync_semaphore.h"
#include "sync/sync_event.h"
#include "sync/sync_readwritelock.h"
#include "sync/sync_sharedmem.h"
#include "sync/sync_tls.h"
using namespace CubicleSoft;

static const std::uint32_t INF = 0xFFFFFFFF;
static std::string ShmDir;
extern "C" int vfr_shm_open(const char *Name, int Flags, mode_t Mode) { return ::open((ShmDir + "/" + (Name[0] == '/' ? Name + 1 : Name)).c_str(), Flags, Mode); }
extern "C" int vfr_shm_unlink(const char *Name) { return ::unlink((ShmDir + "/" + (Name[0] == '/' ? Name + 1 : Name)).c_str()); }

struct Ctl
{
	std::atomic<int> Ready, Inside, Readers, Writers, Holders, Token, Passed, Round, Firsts, Stop, Arrived[8];
	std::atomic<std::uint64_t> Acquired, Contended, TimedOut, Switches, Opens, Fires, Wakes;
	std::uint64_t Guarded, Guarded2;      // plain data, protected by the object under test
	int LastOwner;
};
static Ctl *C;
static bool ThreadsOnly;
static int nP, nT;
static std::string Name;

static void Barrier(int k)
{
	int n = nP * nT, a = C->Arrived[k].fetch_add(1) / n;
	while (C->Arrived[k].load() / n == a)  usleep(50);
}
static void Pause(H::Rng &R)
{
	switch (R.Below(12))
	{
		case 0:  usleep((useconds_t)R.Below(200));  break;
		case 1: case 2:  std::this_thread::yield();  break;
		case 3:  { static thread_local volatile unsigned v; for (unsigned n = (unsigned)R.Below(400); n; n--)  v++; }  break;
	}
}

static size_t LibMappings()
{
	FILE *fp = fopen("/proc/self/maps", "r");
	if (!fp)  return 0;
	char Line[8192];
	size_t n = 0;
	while (fgets(Line, sizeof(Line), fp))  if (strstr(Line, ShmDir.c_str()))  n++;
	fclose(fp);
	return n;
}
static int OpenFds() { int n = 0; for (int i = 0; i < 256; i++)  if (fcntl(i, F_GETFD) != -1)  n++; return n; }

// Runs Fn(worker, process-wide setup result) on nP processes of nT threads.
static void Workers(const std::function<void(int Worker)> &Fn, const std::function<void()> &ProcBegin, const std::function<void()> &ProcEnd)
{
	auto Proc = [&](int p, bool Forked) {
		int Fds = OpenFds();
		mode_t Mask = umask(022);
		umask(027);
		ProcBegin();
		std::vector<std::thread> Ts;
		for (int t = 0; t < nT; t++)  Ts.emplace_back([&, t]() { Fn(p * nT + t); });
		for (auto &t : Ts)  t.join();
		ProcEnd();
		if (Forked)
		{
			size_t m = LibMappings();
			if (m)  H::Fail("real:mapping-leak", "%zu mappings of shared memory remain after all handles of a process were closed", m);
			if (OpenFds() != Fds)  H::Fail("real:descriptor-leak", "%d descriptors are open after all handles were closed, %d before", OpenFds(), Fds);
		}
		mode_t m2 = umask(Mask);
		if (m2 != 027)  H::Fail("real:umask", "the file creation mask of the process changed from 027 to %03o", (unsigned)m2);
	};
	if (ThreadsOnly)  { Proc(0, false); return; }
	std::vector<pid_t> Kids;
	fflush(stdout);
	for (int p = 0; p < nP; p++)
	{
		pid_t k = fork();
		if (k < 0)  { for (pid_t x : Kids)  kill(x, SIGKILL); for (pid_t x : Kids)  waitpid(x, NULL, 0); H::HarnessError("fork"); }
		if (k == 0)  { alarm(0); signal(SIGALRM, SIG_DFL); Proc(p, true); _exit(0); }
		Kids.push_back(k);
	}
	for (size_t Left = Kids.size(); Left; )
	{
		int st;
		pid_t k = waitpid(-1, &st, 0);
		if (k < 0)  { if (errno == EINTR)  continue; break; }
		Left--;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0)  continue;
		for (pid_t x : Kids)  if (x != k)  kill(x, SIGKILL);
		while (waitpid(-1, NULL, 0) > 0)  {}
		if (WIFEXITED(st))  _exit(WEXITSTATUS(st));
		if (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)  H::HarnessError("a worker process was killed");
		H::Fail("real:crash", "a worker process died with signal %d", WTERMSIG(st));
	}
}

// A handle per process or per thread, possibly closed and opened again between uses.
template <class T> struct Handles
{
	bool Named, PerThread, Churn;
	T *Shared = nullptr;
	std::function<bool(T *)> Make;
	void Begin() { if (!PerThread)  { Shared = new T; if (!Make(Shared))  H::Fail("real:create-failed", "create failed"); } }
	void End() { delete Shared; Shared = nullptr; }
	T *Open() { if (!PerThread)  return Shared; T *p = new T; if (!Make(p))  H::Fail("real:create-failed", "create failed"); C->Opens++; return p; }
	T *Again(T *p, H::Rng &R)
	{
		if (!PerThread || !Churn || !R.Chance(1, 3))  return p;
		C->Opens++;
		if (R.Chance(1, 3))  { if (!Make(p))  H::Fail("real:create-failed", "re-create failed"); return p; }
		delete p;
		if (R.Chance(1, 2))  usleep((useconds_t)R.Below(100));
		p = new T;
		if (!Make(p))  H::Fail("real:create-failed", "create failed");
		return p;
	}
	void Close(T *p) { if (PerThread)  delete p; }
};
template <class T> static void Setup(Handles<T> &Hd, H::Rng &R, bool Churn)
{
	Hd.Named = nP > 1 || R.Chance(1, 2);
	Hd.PerThread = Hd.Named && !ThreadsOnly && R.Chance(2, 3);
	Hd.Churn = Churn;
}
static const char *NameOf(bool Named) { return Named ? Name.c_str() : NULL; }

static void MutexCase(H::Rng &R, bool Churn)
{
	Handles<Sync::Mutex> Hd;
	Setup(Hd, R, Churn);
	bool Named = Hd.Named;
	Hd.Make = [Named](Sync::Mutex *m) { return m->Create(NameOf(Named)); };
	std::uint64_t Seed = R.Next();
	int Iter = (int)R.Range(20, Churn ? 60 : 150);
	Workers([&](int w) {
		H::Rng r(Seed + (std::uint64_t)w * 7919);
		Sync::Mutex *m = Hd.Open();
		for (int i = 0; i < Iter; i++)
		{
			m = Hd.Again(m, r);
			std::uint32_t Wait = r.Chance(1, 4) ? 0 : (r.Chance(1, 3) ? (std::uint32_t)r.Range(1, 4) : INF);
			if (r.Chance(1, 8) && m->Unlock(r.Chance(1, 2)))  H::Fail("real:unlock-result", "an unlock by a thread that does not own the mutex succeeded");
			if (C->Inside.load())  C->Contended++;
			if (!m->Lock(Wait))
			{
				if (Wait == INF)  H::Fail("real:infinite-failed", "an unbounded lock failed");
				C->TimedOut++;
				continue;
			}
			if (C->Inside.fetch_add(1))  H::Fail("real:two-owners", "two threads own the mutex");
			C->Guarded++;
			if (C->LastOwner != w)  { C->Switches++; C->LastOwner = w; }
			int Depth = 1;
			while (r.Chance(1, 4))  { if (!m->Lock(r.Chance(1, 2) ? INF : 0))  H::Fail("real:recursive-refused", "the owner could not lock again"); Depth++; }
			Pause(r);
			if (C->Inside.load() != 1)  H::Fail("real:two-owners", "two threads own the mutex");
			std::uint64_t g = C->Guarded;
			Pause(r);
			C->Guarded = g;
			C->Acquired++;
			while (Depth > 1 && r.Chance(1, 2))  { if (!m->Unlock())  H::Fail("real:unlock-result", "the owner's unlock failed"); Depth--; }
			C->Inside--;
			if (Depth > 1)  { if (!m->Unlock(true))  H::Fail("real:unlock-result", "the owner's unlock failed"); }
			else if (Churn && Hd.PerThread && r.Chance(1, 4))
			{
				// Closing the handle gives the mutex up.
				delete m;
				m = Hd.Open();
			}
			else if (!m->Unlock())  H::Fail("real:unlock-result", "the owner's unlock failed");
			Pause(r);
		}
		Hd.Close(m);
	}, [&]() { Hd.Begin(); }, [&]() { Hd.End(); });
	if (C->Guarded != C->Acquired.load())  H::Fail("real:lost-update", "%llu locked increments gave %llu", (unsigned long long)C->Acquired.load(), (unsigned long long)C->Guarded);
	if (Named)
	{
		Sync::Mutex m;
		if (!m.Create(Name.c_str()) || !m.Lock(0))  H::Fail("real:not-fresh", "a mutex opened after everybody closed it is not free");
		if (m.Unlock() != true || m.Unlock() != false)  H::Fail("real:not-fresh", "a mutex opened after everybody closed it has a wrong lock count");
	}
}

static void SemCase(H::Rng &R, bool Churn)
{
	Handles<Sync::Semaphore> Hd;
	Setup(Hd, R, Churn);
	bool Named = Hd.Named;
	int N = (int)R.Range(1, 3);
	Hd.Make = [Named, N](Sync::Semaphore *s) { return s->Create(NameOf(Named), N); };
	std::uint64_t Seed = R.Next();
	int Iter = (int)R.Range(20, Churn ? 60 : 150);
	Workers([&](int w) {
		H::Rng r(Seed + (std::uint64_t)w * 7919);
		Sync::Semaphore *s = Hd.Open();
		for (int i = 0; i < Iter; i++)
		{
			s = Hd.Again(s, r);
			std::uint32_t Wait = r.Chance(1, 4) ? 0 : (r.Chance(1, 3) ? (std::uint32_t)r.Range(1, 4) : INF);
			if (C->Holders.load() >= N)  C->Contended++;
			if (!s->Lock(Wait))  { if (Wait == INF)  H::Fail("real:infinite-failed", "an unbounded lock failed"); C->TimedOut++; continue; }
			int h = C->Holders.fetch_add(1) + 1;
			if (h > N)  H::Fail("real:too-many-holders", "%d holders of a semaphore with %d permits", h, N);
			if (N == 1)  { C->Guarded++; if (C->LastOwner != w)  { C->Switches++; C->LastOwner = w; } }
			Pause(r);
			C->Acquired++;
			C->Holders--;
			int Prev = -7;
			if (!s->Unlock(&Prev))  H::Fail("real:unlock-result", "unlock failed");
			if (Prev < 0 || Prev >= N)  H::Fail("real:prev-count", "unlock by a holder reports %d free permits of %d", Prev, N);
			Pause(r);
		}
		Hd.Close(s);
	}, [&]() { Hd.Begin(); }, [&]() { Hd.End(); });
	if (N == 1 && C->Guarded != C->Acquired.load())  H::Fail("real:lost-update", "%llu locked increments gave %llu", (unsigned long long)C->Acquired.load(), (unsigned long long)C->Guarded);
	if (Named)
	{
		Sync::Semaphore s;
		if (!s.Create(Name.c_str(), N + 1))  H::Fail("real:create-failed", "create failed");
		int k = 0;
		while (k < N + 5 && s.Lock(0))  k++;
		if (k != N + 1)  H::Fail("real:not-fresh", "a semaphore opened anew with %d permits grants %d", N + 1, k);
	}
}

static void RWCase(H::Rng &R, bool Churn)
{
	Handles<Sync::ReadWriteLock> Hd;
	Setup(Hd, R, Churn);
	bool Named = Hd.Named;
	Hd.Make = [Named](Sync::ReadWriteLock *l) { return l->Create(NameOf(Named)); };
	std::uint64_t Seed = R.Next();
	int Iter = (int)R.Range(20, Churn ? 60 : 120);
	unsigned WritePct = (unsigned)R.Range(5, 60);
	Workers([&](int w) {
		H::Rng r(Seed + (std::uint64_t)w * 7919);
		Sync::ReadWriteLock *l = Hd.Open();
		for (int i = 0; i < Iter; i++)
		{
			l = Hd.Again(l, r);
			bool Write = r.Below(100) < WritePct;
			std::uint32_t Wait = r.Chance(1, 4) ? 0 : (r.Chance(1, 3) ? (std::uint32_t)r.Range(1, 4) : INF);
			if (C->Writers.load() || (Write && C->Readers.load()))  C->Contended++;
			if (!(Write ? l->WriteLock(Wait) : l->ReadLock(Wait)))  { if (Wait == INF)  H::Fail("real:infinite-failed", "an unbounded lock failed"); C->TimedOut++; continue; }
			if (Write)
			{
				if (C->Writers.fetch_add(1))  H::Fail("real:writer-not-alone", "two writers hold the lock");
				if (C->Readers.load())  H::Fail("real:writer-not-alone", "a writer shares the lock with readers");
				C->Guarded++;
				Pause(r);
				C->Guarded2++;
				if (C->LastOwner != w)  { C->Switches++; C->LastOwner = w; }
				if (C->Readers.load() || C->Writers.load() != 1)  H::Fail("real:writer-not-alone", "a writer does not hold the lock alone");
				C->Acquired++;
				C->Writers--;
				if (!l->WriteUnlock())  H::Fail("real:unlock-result", "a writer's unlock failed");
			}
			else
			{
				C->Readers++;
				if (C->Writers.load())  H::Fail("real:reader-with-writer", "a reader shares the lock with a writer");
				std::uint64_t a = C->Guarded;
				Pause(r);
				if (a != C->Guarded2 || a != C->Guarded)  H::Fail("real:reader-with-writer", "data changed under a read lock");
				C->Wakes++;
				C->Readers--;
				if (!l->ReadUnlock())  H::Fail("real:unlock-result", "a reader's unlock failed");
			}
			Pause(r);
		}
		Hd.Close(l);
	}, [&]() { Hd.Begin(); }, [&]() { Hd.End(); });
	if (C->Guarded != C->Acquired.load())  H::Fail("real:lost-update", "%llu locked increments gave %llu", (unsigned long long)C->Acquired.load(), (unsigned long long)C->Guarded);
	if (Named)
	{
		Sync::ReadWriteLock l;
		if (!l.Create(Name.c_str()) || !l.WriteLock(0) || !l.WriteUnlock() || l.ReadUnlock() || !l.ReadLock(0) || !l.ReadUnlock())  H::Fail("real:not-fresh", "a read/write lock opened after everybody closed it is not free");
	}
}

static void EventCase(H::Rng &R)
{
	int n = nP * nT;
	bool Named = nP > 1 || R.Chance(1, 2), PerThread = Named && !ThreadsOnly && R.Chance(1, 2);
	bool Gate = R.Chance(1, 3) && n > 1;
	std::uint64_t Seed = R.Next();
	int Rounds = (int)R.Range(5, Gate ? 20 : 60), nEv = Gate ? 1 : n;
	auto MakeAll = [&]() {
		std::vector<Sync::Event *> *v = new std::vector<Sync::Event *>;
		for (int i = 0; i < nEv; i++)
		{
			Sync::Event *e = new Sync::Event;
			std::string nm = Name + "_" + std::to_string(i);
			if (!e->Create(Named ? nm.c_str() : NULL, Gate, !Gate && i == 0))  H::Fail("real:create-failed", "create failed");
			v->push_back(e);
		}
		C->Opens += (std::uint64_t)nEv;
		return v;
	};
	auto FreeAll = [](std::vector<Sync::Event *> *v) { for (auto e : *v)  delete e; delete v; };
	std::vector<Sync::Event *> *Shared = nullptr;
	C->Guarded = 0;
	Workers([&](int w) {
		H::Rng r(Seed + (std::uint64_t)w * 7919);
		std::vector<Sync::Event *> *v = PerThread ? MakeAll() : Shared;
		std::vector<Sync::Event *> &E = *v;
		if (Named)  Barrier(0);             // the state of a named event lasts only while somebody has it open
		if (Gate)
		{
			if (w == 0)
			{
				for (int k = 0; k < Rounds; k++)
				{
					Pause(r);
					C->Guarded = (std::uint64_t)k + 1;
					if (!E[0]->Fire())  H::Fail("real:fire-failed", "fire failed");
					C->Fires++;
					while (C->Passed.load() != (n - 1) * (k + 1))  usleep(30);
					if (!E[0]->Wait(0) && !E[0]->Wait(1))  H::Fail("real:manual-closed", "a fired manual event closed by itself");
					if (!E[0]->Reset())  H::Fail("real:reset-failed", "reset failed");
					if (E[0]->Wait(r.Chance(1, 2) ? 0 : 1))  H::Fail("real:wait-without-fire", "a wait on a reset event succeeded");
					C->Round = k + 1;
				}
			}
			else
			{
				for (int k = 0; k < Rounds; k++)
				{
					if (r.Chance(1, 3))  { while (!E[0]->Wait((std::uint32_t)r.Range(1, 2)))  C->TimedOut++; }
					else if (!E[0]->Wait(INF))  H::Fail("real:infinite-failed", "an unbounded wait failed");
					if (C->Guarded != (std::uint64_t)k + 1)  H::Fail("real:wait-without-fire", "a wait succeeded before the fire, or its data is not visible");
					C->Wakes++;
					C->Passed++;
					while (C->Round.load() <= k)  usleep(30);
				}
			}
		}
		else
		{
			// One token goes round: exactly one thread at a time has it.
			bool Nuisance = r.Chance(1, 3) && n > 2;
			for (int k = 0; k < Rounds; k++)
			{
				std::uint32_t Wait = r.Chance(1, 2) ? INF : (std::uint32_t)r.Range(1, 3);
				if (Nuisance && r.Chance(1, 4))
				{
					int o = (int)r.Below((std::uint64_t)n);
					if (E[(size_t)o]->Wait(r.Chance(1, 2) ? 0 : 1) && !E[(size_t)o]->Fire())  H::Fail("real:fire-failed", "fire failed");
				}
				while (!E[(size_t)w]->Wait(Wait))  { if (Wait == INF)  H::Fail("real:infinite-failed", "an unbounded wait failed"); C->TimedOut++; }
				if (C->Token.fetch_add(1))  H::Fail("real:two-wakes", "one fire let two waits succeed");
				C->Guarded++;
				C->Wakes++;
				Pause(r);
				if (E[(size_t)w]->Wait(0))  H::Fail("real:two-wakes", "one fire let two waits succeed");
				C->Token--;
				C->Fires++;
				if (!E[(size_t)((w + 1) % n)]->Fire())  H::Fail("real:fire-failed", "fire failed");
			}
		}
		Barrier(1);
		if (PerThread)  FreeAll(v);
	}, [&]() { if (!PerThread)  Shared = MakeAll(); }, [&]() { if (!PerThread)  FreeAll(Shared); });
	if (!Gate && C->Guarded != (std::uint64_t)n * (std::uint64_t)Rounds)  H::Fail("real:lost-update", "%llu token passes counted, %d expected", (unsigned long long)C->Guarded, n * Rounds);
	if (Named)
	{
		Sync::Event e;
		bool Pre = R.Chance(1, 2);
		if (!e.Create((Name + "_0").c_str(), false, Pre))  H::Fail("real:create-failed", "create failed");
		if (e.Wait(0) != Pre || e.Wait(0))  H::Fail("real:not-fresh", "an event opened after everybody closed it is not newly initialised");
		if (e.Reset())  H::Fail("real:not-fresh", "an event opened anew is of the old kind");
	}
}

static void ShmCase(H::Rng &R)
{
	int n = nP * nT, Rounds = (int)R.Range(2, 8);
	size_t Size = R.Chance(1, 2) ? (size_t)R.Range(n, 300) : (size_t)R.Range(4000, 9000);
	std::uint64_t Seed = R.Next();
	Workers([&](int w) {
		H::Rng r(Seed + (std::uint64_t)w * 7919);
		for (int k = 0; k < Rounds; k++)
		{
			Barrier(2);
			Pause(r);
			Sync::SharedMem *m = new Sync::SharedMem, *m2 = nullptr;
			if (!m->Create(Name.c_str(), Size))  H::Fail("real:create-failed", "create failed");
			C->Opens++;
			if (m->First())  C->Firsts++;
			if (m->GetSize() != Size)  H::Fail("real:size", "a block of %zu bytes reports %zu", Size, m->GetSize());
			Barrier(3);
			if (C->Firsts.load() != k + 1)  H::Fail("real:first", "%d handles were told they are the first in %d lifetimes", C->Firsts.load(), k + 1);
			char *p = m->RawData();
			for (size_t i = 0; i < Size; i++)  if (p[i])  H::Fail("real:not-zero", "byte %zu of a new block of %zu bytes is not zero", i, Size);
			Barrier(4);
			for (size_t i = (size_t)w; i < Size; i += (size_t)n)  p[i] = (char)(1 + (i + (size_t)k) % 250);
			Barrier(5);
			if (r.Chance(1, 3)) { m2 = new Sync::SharedMem; if (!m2->Create(Name.c_str(), Size) || m2->First())  H::Fail("real:first", "a later handle failed or was told it is the first"); p = m2->RawData(); }
			for (size_t i = 0; i < Size; i++)  if (p[i] != (char)(1 + (i + (size_t)k) % 250))  H::Fail("real:content", "byte %zu of %zu is not what another handle wrote", i, Size);
			C->Acquired++;
			Barrier(6);
			if (m2 && r.Chance(1, 2))  { delete m2; m2 = nullptr; }
			delete m;
			delete m2;
			Barrier(7);
		}
	}, []() {}, []() {});
}

static void TLSCase(H::Rng &R)
{
	Sync::TLS *T = new Sync::TLS;
	std::uint64_t Seed = R.Next();
	Workers([&](int w) {
		H::Rng r(Seed + (std::uint64_t)w * 7919);
		if (!T->ThreadInit((size_t)r.Range(6, 15)))  H::Fail("real:tls-init", "ThreadInit failed");
		std::vector<std::pair<char *, size_t> > L;
		for (int i = 0; i < 300; i++)
		{
			if (L.size() < 8 && r.Chance(1, 2))
			{
				size_t s = 1 + r.Size(5000);
				char *p = (char *)T->malloc(s);
				if (!p)  H::Fail("real:tls-null", "malloc failed");
				memset(p, (char)(w + 1), s);
				L.push_back({ p, s });
			}
			else if (!L.empty())
			{
				size_t k = r.Below(L.size());
				for (size_t j = 0; j < L[k].second; j++)  if (L[k].first[j] != (char)(w + 1))  H::Fail("real:tls-content", "a block of a thread's allocator changed");
				if (r.Chance(1, 3))
				{
					size_t s = 1 + r.Size(5000), o = L[k].second;
					char *p = (char *)T->realloc(L[k].first, s);
					if (!p)  H::Fail("real:tls-null", "realloc failed");
					if (s > o)  memset(p + o, (char)(w + 1), s - o);
					L[k] = { p, s };
				}
				else  { T->free(L[k].first); L.erase(L.begin() + (std::ptrdiff_t)k); }
			}
			C->Acquired++;
		}
		for (auto &x : L)  T->free(x.first);
		if (!T->ThreadEnd())  H::Fail("real:tls-end", "ThreadEnd failed");
	}, []() {}, []() {});
	delete T;
}

static void RunCase(H::Rng &R, std::uint64_t Case)
{
	static const std::string Mode = getenv("VF_MODE") ? getenv("VF_MODE") : "mutex";
	ThreadsOnly = getenv("VF_THREADS") != nullptr;
	if (!C)
	{
		C = (Ctl *)mmap(NULL, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		ShmDir = H::G().ScratchDir + "/shm";
		mkdir(ShmDir.c_str(), 0777);
	}
	memset((void *)C, 0, sizeof(*C));
	C->LastOwner = -1;
	nP = ThreadsOnly ? 1 : (int)R.Range(1, 4);
	nT = ThreadsOnly ? (int)R.Range(2, 6) : (int)R.Range(nP > 1 ? 1 : 2, 3);
	Name = "vr" + std::to_string(Case) + "_" + R.FromAlphabet(R.Chance(1, 8) ? 200 + R.Below(400) : R.Below(8), "abcXYZ019-._");
	std::string m = Mode;
	if (m == "named" || m == "all")
	{
		static const char *All[] = { "mutex", "sem", "rw", "event", "shm", "tls" };
		m = m == "named" ? All[R.Below(3)] : All[R.Below(6)];
	}
	if (ThreadsOnly && m == "shm")  m = "mutex";
	bool Churn = Mode == "named" || R.Chance(1, 4);
	if (m == "mutex")  MutexCase(R, Churn);
	else if (m == "sem")  SemCase(R, Churn);
	else if (m == "rw")  RWCase(R, Churn);
	else if (m == "event")  EventCase(R);
	else if (m == "tls")  TLSCase(R);
	else  ShmCase(R);
	H::Count("successful acquisitions", C->Acquired.load() + C->Wakes.load());
	H::Count("attempts that met another holder", C->Contended.load());
	H::Count("failed try/timed attempts", C->TimedOut.load());
	H::Count("changes of owner", C->Switches.load());
	H::Count("handles opened during the run", C->Opens.load());
	H::Count("event fires", C->Fires.load());
	H::Count(nP > 1 ? "runs with several processes" : "runs with several threads of one process");
	// What actually happened differs from run to run; this is a fingerprint of it.
	if (C->Contended.load() || C->Wakes.load() || m == "shm" || m == "tls")  H::Sig(H::HashU(C->Contended.load(), H::HashU(C->TimedOut.load(), H::HashU(C->Switches.load(), H::HashU(Case, 1)))));
	if (H::WantSample())  H::Sample(H::Format("%s: %d processes x %d threads, %llu acquisitions, %llu contended, %llu timed out", m.c_str(), nP, nT, (unsigned long long)(C->Acquired.load() + C->Wakes.load()), (unsigned long long)C->Contended.load(), (unsigned long long)C->TimedOut.load()));
	DIR *d = opendir(ShmDir.c_str());
	if (d)
	{
		while (struct dirent *e = readdir(d))  if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))  unlink((ShmDir + "/" + e->d_name).c_str());
		closedir(d);
	}
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
