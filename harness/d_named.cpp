// C06: what a name denotes - identity, one initialisation, persistence, freshness, independence, no leaks.
#include "synclib.h"
#include "sync/sync_mutex.h"
#include "sync/sync_semaphore.h"
#include "sync/sync_event.h"
#include "sync/sync_readwritelock.h"
using namespace CubicleSoft;
using namespace SL;

enum Kind { KMutex, KSem, KEvent, KRW, NumKinds };
static const char *KNames[] = { "mutex", "semaphore", "event", "read/write lock" };
static std::uint64_t nOpen, nFresh, nJoined, nProbe, nRaces, nRefused, nLong;

static std::string RandName(H::Rng &R)
{
	static const std::string Abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_";
	size_t n = R.Chance(1, 2) ? (size_t)R.Range(1, 4) : R.Chance(1, 2) ? (size_t)R.Range(1, 40) : (size_t)R.Range(40, 200);
	return R.FromAlphabet(n, R.Chance(1, 3) ? "ab" : R.Chance(1, 2) ? "0123456789-" : Abc);
}
// Names that are easily confused with each other.
static std::vector<std::string> NameSet(H::Rng &R, size_t n)
{
	std::set<std::string> s;
	if (R.Chance(1, 8))
	{
		// Beyond what the system takes as a name: those that differ in one letter are still told apart.
		std::string m = R.FromAlphabet((size_t)(R.Chance(1, 2) ? R.Range(200, 300) : R.Range(200, 1200)), R.Chance(1, 3) ? "a" : "abcdefghijklmnopqrstuvwxyz");
		size_t At = R.Chance(1, 4) ? 0 : R.Chance(1, 3) ? m.size() - 1 : R.Below(m.size());
		for (s.insert(m); s.size() < n; s.insert(m))  m[At] = (char)((R.Chance(1, 2) ? 'a' : 'A') + R.Below(26));
		nLong++;
		return std::vector<std::string>(s.begin(), s.end());
	}
	std::string Base = RandName(R);
	s.insert(Base);
	while (s.size() < n)
	{
		std::string m = Base;
		switch (R.Below(6))
		{
			case 0:  m = RandName(R);  break;
			case 1:  m[R.Below(m.size())] = "xyz019.-_AZ"[R.Below(11)];  break;
			case 2:  m += "01a-"[R.Below(4)];  break;
			case 3:  m = "01a-"[R.Below(4)] + m;  break;
			case 4:  if (m.size() > 1)  m = m.substr(0, m.size() - 1);  break;
			case 5:  if (m.size() > 1)  std::swap(m[0], m[m.size() - 1]);  break;
		}
		if (!m.empty() && m.size() <= 200)  s.insert(m);
	}
	return std::vector<std::string>(s.begin(), s.end());
}

// Model of one object's state.
struct State
{
	int Max = 1, Count = 1;              // semaphore
	bool Manual = false, Sig = false;    // event
	int Readers = 0; bool Writer = false;
	int MutexHandle = -1;
};
struct Handle { Slot<Sync::Mutex> M; Slot<Sync::Semaphore> S; Slot<Sync::Event> E; Slot<Sync::ReadWriteLock> RW; Kind K = KMutex; int Name = -1; bool Made = false, Open = false; State *St = nullptr; int HeldR = 0; bool HeldW = false; int HeldS = 0; };

static std::map<std::pair<int, int>, std::pair<State, int> > World;   // (kind, name) -> state, open handles

// ---- sequential histories against the model ----
static void Sequential(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P;
	P.TruncEintrPct = R.Chance(1, 3) ? 40 : 0;
	VS::Reset(R.Next(), P);
	std::vector<std::string> Names = NameSet(R, (size_t)R.Range(1, 4));
	int nH = (int)R.Range(2, 8);
	std::vector<Handle> Hs((size_t)nH);
	World.clear();
	std::vector<State> Private((size_t)nH);
	unsigned Mask = VS::CurrUmask();
	int OpenNamed = 0;
	H::Rng r(R.Next());
	VS::Spawn([&]() {
		auto Release = [&](int i) {
			Handle &h = Hs[(size_t)i];
			if (!h.Open)  return;
			if (h.St->MutexHandle == i)  h.St->MutexHandle = -1;    // a mutex is released by closing it
			if (h.Name >= 0)
			{
				auto k = std::make_pair((int)h.K, h.Name);
				OpenNamed--;
				if (--World[k].second == 0)  World.erase(k);
			}
			h.Open = false;
			h.St = nullptr;
			h.HeldR = h.HeldS = 0;
			h.HeldW = false;
		};
		int Steps = (int)r.Range(10, 40);
		for (int s = 0; s < Steps; s++)
		{
			int i = (int)r.Below((std::uint64_t)nH);
			Handle &h = Hs[(size_t)i];
			switch (r.Below(h.Open ? 10 : 2))
			{
				case 0: case 1:
				{
					// Open, or re-create elsewhere.
					if (h.Made && r.Chance(1, 2))  { Release(i); h.M.Kill(); h.S.Kill(); h.E.Kill(); h.RW.Kill(); h.Made = false; }
					if (!h.Made)
					{
						h.K = (Kind)r.Below(NumKinds);
						if (h.K == KMutex)  h.M.Make();
						else if (h.K == KSem)  h.S.Make();
						else if (h.K == KEvent)  h.E.Make();
						else  h.RW.Make();
						h.Made = true;
					}
					Release(i);
					h.Name = r.Chance(1, 6) ? -1 : (int)r.Below(Names.size());
					State Init;
					Init.Max = Init.Count = (int)r.Range(1, 4);
					Init.Manual = r.Chance(1, 2);
					Init.Sig = r.Chance(1, 2);
					// The caller's string may vanish right after the call.
					std::string Tmp = h.Name >= 0 ? Names[(size_t)h.Name] : "";
					const char *n = h.Name >= 0 ? Tmp.c_str() : NULL;
					Ev("h%d create %s '%s'", i, KNames[h.K], n ? n : "(unnamed)");
					bool ok = h.K == KMutex ? h.M.P->Create(n) : h.K == KSem ? h.S.P->Create(n, Init.Max) : h.K == KEvent ? h.E.P->Create(n, Init.Manual, Init.Sig) : h.RW.P->Create(n);
					if (!ok)  Bad("create-failed", "creating an object failed");
					nOpen++;
					h.Open = true;
					if (h.Name < 0)  { Private[(size_t)i] = Init; h.St = &Private[(size_t)i]; }
					else
					{
						auto k = std::make_pair((int)h.K, h.Name);
						auto it = World.find(k);
						OpenNamed++;
						if (it == World.end())  { World[k] = std::make_pair(Init, 1); nFresh++; }
						else  { it->second.second++; nJoined++; }
						h.St = &World[k].first;
					}
					break;
				}
				case 2:
					Ev("h%d close", i);
					Release(i);
					h.M.Kill(); h.S.Kill(); h.E.Kill(); h.RW.Kill();
					h.Made = false;
					break;
				default:
				{
					State &st = *h.St;
					nProbe++;
					bool a, b;
					switch (h.K)
					{
						case KMutex:
							if (r.Chance(1, 2))  { a = h.M.P->Lock(0); b = st.MutexHandle < 0 || st.MutexHandle == i; if (a && b && st.MutexHandle == i)  h.M.P->Unlock(); else if (b)  st.MutexHandle = i; }
							else  { a = h.M.P->Unlock(true); b = st.MutexHandle == i; if (b)  st.MutexHandle = -1; }
							if (a != b)  Bad("wrong-state", H::Format("mutex handle h%d ('%s') answers %d, expected %d", i, h.Name < 0 ? "" : Names[(size_t)h.Name].c_str(), a, b));
							break;
						case KSem:
							if (r.Chance(1, 2))  { a = h.S.P->Lock(0); b = st.Count > 0; if (b)  st.Count--; if (a != b)  Bad("wrong-state", H::Format("semaphore lock on h%d answers %d, expected %d", i, a, b)); }
							else
							{
								int prev = -1;
								h.S.P->Unlock(&prev);
								if (prev != st.Count)  Bad("wrong-state", H::Format("semaphore h%d has count %d, expected %d of %d", i, prev, st.Count, st.Max));
								if (st.Count < st.Max)  st.Count++;
							}
							break;
						case KEvent:
							switch (r.Below(3))
							{
								case 0:  a = h.E.P->Wait(0); b = st.Sig; if (b && !st.Manual)  st.Sig = false;  break;
								case 1:  a = h.E.P->Fire(); b = true; st.Sig = true;  break;
								default:  a = h.E.P->Reset(); b = st.Manual; if (b)  st.Sig = false;  break;
							}
							if (a != b)  Bad("wrong-state", H::Format("event h%d answers %d, expected %d", i, a, b));
							break;
						default:
							switch (r.Below(4))
							{
								case 0:  a = h.RW.P->ReadLock(0); b = !st.Writer; if (b)  st.Readers++;  break;
								case 1:  a = h.RW.P->WriteLock(0); b = !st.Writer && !st.Readers; if (b)  st.Writer = true;  break;
								case 2:  a = h.RW.P->ReadUnlock(); b = st.Readers > 0; if (b)  st.Readers--;  break;
								default:  a = b = true; if (st.Writer)  { a = h.RW.P->WriteUnlock(); st.Writer = false; }  break;
							}
							if (a != b)  Bad("wrong-state", H::Format("read/write lock h%d answers %d, expected %d (readers %d writer %d)", i, a, b, st.Readers, st.Writer));
							break;
					}
				}
			}
			if (VS::CurrUmask() != Mask)  Bad("umask", "the process's file creation mask was changed");
			if (VS::OpenFds())  Bad("leak", "a descriptor stays open");
			if (VS::Mappings() != OpenNamed)  Bad("leak", H::Format("%d mappings for %d open named handles", VS::Mappings(), OpenNamed));
		}
		for (int i = 0; i < nH; i++)  { Release(i); Hs[(size_t)i].M.Kill(); Hs[(size_t)i].S.Kill(); Hs[(size_t)i].E.Kill(); Hs[(size_t)i].RW.Kill(); }
	}, 1);
	if (VS::Run() != VS::Done)  Bad("stuck", "opening or using an uncontended object never returns");
	CheckLeaks();
	if (!VS::ShmModesOpen())  Bad("mode", "a named object cannot be opened by other users");
	H::Count("sequential histories");
	std::uint64_t h = 7;
	for (auto &l : Log())  h = H::Hash(l, h);
	H::Sig(h);
}

// ---- racing first creation, use and last close ----
struct Token { int Inside = 0, Max = 1; };
static void Racing(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P = RandPolicy(R);
	P.TruncEintrPct = R.Chance(1, 3) ? 40 : 0;
	if (R.Chance(1, 8))  P.ShmFailPct = 20;
	VS::Reset(R.Next(), P);
	VS::Track(true);
	Kind K = (Kind)R.Below(NumKinds);
	int nF = (int)R.Range(2, 4), nNames = R.Chance(1, 4) ? 2 : 1, Rounds = (int)R.Range(1, 4);
	bool SamePid = R.Chance(1, 2);
	std::vector<std::string> Names = NameSet(R, (size_t)nNames);
	std::vector<Token> T((size_t)nNames);
	int Permits = K == KSem ? (int)R.Range(1, 2) : 1;
	std::vector<H::Rng> FR;
	for (int i = 0; i < nF; i++)  FR.push_back(H::Rng(R.Next()));
	unsigned Mask = VS::CurrUmask();
	for (int i = 0; i < nF; i++)
		VS::Spawn([&, i]() {
			H::Rng &r = FR[(size_t)i];
			Slot<Sync::Mutex> M; Slot<Sync::Semaphore> S; Slot<Sync::Event> E; Slot<Sync::ReadWriteLock> RW;
			for (int k = 0; k < Rounds; k++)
			{
				int n = (int)r.Below((std::uint64_t)nNames);
				const char *Name = Names[(size_t)n].c_str();
				bool ok = false;
				for (int Try = 0; Try < 60 && !ok; Try++)
				{
					if (Try >= 40)  VS::SetFaults(false);
					std::uint64_t f0 = VS::FaultsOf(VS::Self());
					switch (K)
					{
						case KMutex:  if (!M.P)  M.Make(); ok = M.P->Create(Name);  break;
						case KSem:  if (!S.P)  S.Make(); ok = S.P->Create(Name, Permits);  break;
						case KEvent:  if (!E.P)  E.Make(); ok = E.P->Create(Name, false, true);  break;
						default:  if (!RW.P)  RW.Make(); ok = RW.P->Create(Name);  break;
					}
					if (!ok)
					{
						if (VS::FaultsOf(VS::Self()) == f0)  Bad("create-failed", "creating an object failed without a reason");
						nRefused++;
						bool Used = K == KMutex ? M.P->Lock(0) || M.P->Unlock() : K == KSem ? S.P->Lock(0) || S.P->Unlock() : K == KEvent ? E.P->Wait(0) || E.P->Fire() : RW.P->ReadLock(0) || RW.P->WriteLock(0) || RW.P->ReadUnlock();
						if (Used)  Bad("uncreated-usable", "an object whose creation failed can be used");
					}
				}
				Ev("f%d open %s", VS::Self(), KNames[K]);
				Token &t = T[(size_t)n];
				for (std::uint64_t u = r.Range(1, 2); u; u--)
				{
					bool Read = K == KRW && r.Chance(1, 3), got;
					switch (K)
					{
						case KMutex:  got = M.P->Lock(INF);  break;
						case KSem:  got = S.P->Lock(INF);  break;
						case KEvent:  got = E.P->Wait(INF);  break;
						default:  got = Read ? RW.P->ReadLock(INF) : RW.P->WriteLock(INF);  break;
					}
					if (!got)  Bad("infinite-failed", "an unbounded wait failed");
					Ev("f%d in", VS::Self());
					int w = Read ? 1 : K == KRW ? 1000 : 1;
					t.Inside += w;
					bool Clash = K == KRW ? (t.Inside >= 1000 && t.Inside != 1000) : t.Inside > Permits;
					if (Clash)  Bad("initialised-twice", H::Format("%s: two handles of one name do not share their state", KNames[K]));
					for (std::uint64_t p = r.Below(3); p; p--)  VS::Point();
					t.Inside -= w;
					Ev("f%d out", VS::Self());
					switch (K)
					{
						case KMutex:  if (r.Chance(1, 3))  { M.Kill(); M.Make(); if (!M.P->Create(Name) && !P.ShmFailPct)  Bad("create-failed", "creating an object failed"); if (P.ShmFailPct)  u = 1; }
							else  M.P->Unlock();
							break;
						case KSem:  { int Prev = -1; S.P->Unlock(&Prev); if (Prev < 0 || Prev >= Permits)  Bad("initialised-twice", H::Format("semaphore count is %d while a permit was out", Prev)); break; }
						case KEvent:  E.P->Fire();  break;
						default:  if (Read)  { if (!RW.P->ReadUnlock())  Bad("initialised-twice", "a held read lock was forgotten"); } else  RW.P->WriteUnlock();  break;
					}
				}
				if (r.Chance(1, 2))  { Ev("f%d close", VS::Self()); M.Kill(); S.Kill(); E.Kill(); RW.Kill(); }
			}
			M.Kill(); S.Kill(); E.Kill(); RW.Kill();
		}, SamePid ? 1 : i + 1);
	VS::Outcome Res = VS::Run();
	VS::Track(false);
	VS::SetFaults(false);
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	if (Res == VS::Stuck)  Bad("stuck", "threads sleep forever although every holder released the object");
	CheckLeaks();
	if (VS::CurrUmask() != Mask)  Bad("umask", "the process's file creation mask was changed");
	if (!VS::ShmModesOpen())  Bad("mode", "a named object cannot be opened by other users");
	nRaces++;
	H::Sig(H::HashU((std::uint64_t)K, VS::ScheduleHash()));
	if (H::WantSample())  H::Sample(Tail(40));
}

// ---- who initialises: exactly one of the racing creators ----
static void InitOnce(H::Rng &R)
{
	VS::ShmReset();
	VS::Reset(R.Next(), RandPolicy(R));
	VS::Track(true);
	int nF = (int)R.Range(2, 4);
	std::string Name = RandName(R);
	bool Stale = R.Chance(1, 2);
	if (Stale)
	{
		// An earlier life of the name, ended in some state.
		Slot<Sync::Semaphore> S;
		S.Make();
		S.P->Create(Name.c_str(), 7);
		for (std::uint64_t k = R.Below(4); k; k--)  S.P->Lock(0);
		S.Kill();
	}
	std::vector<Slot<Sync::Semaphore> > S((size_t)nF);
	std::vector<std::uint64_t> Start((size_t)nF), End((size_t)nF);
	std::vector<int> Taken((size_t)nF, 0);
	for (int i = 0; i < nF; i++)
		VS::Spawn([&, i]() {
			S[(size_t)i].Make();
			Start[(size_t)i] = VS::Seq();
			if (!S[(size_t)i].P->Create(Name.c_str(), 10 + i))  Bad("create-failed", "creating a semaphore failed");
			End[(size_t)i] = VS::Seq();
			for (int k = 0; k <= i % 3; k++)  if (S[(size_t)i].P->Lock(INF))  Taken[(size_t)i]++;
		}, i + 1);
	if (VS::Run() != VS::Done)  Bad("stuck", "racing creations never finish");
	VS::Track(false);
	int Total = 0, Prev = -1;
	for (int t : Taken)  Total += t;
	S[0].P->Unlock(&Prev);
	Total--;
	int Max = Prev + 1 + Total, Creator = Max - 10;
	if (Creator < 0 || Creator >= nF)  Bad("initialised-twice", H::Format("count is %d with %d permits out; creators gave 10 to %d", Prev, Total + 1, 9 + nF));
	for (int i = 0; i < nF; i++)  if (i != Creator && End[(size_t)i] < Start[(size_t)Creator])  Bad("not-first", "the initial state is not the first creator's");
	for (int i = 0; i < nF; i++)
	{
		int p = -1;
		S[(size_t)i].P->Unlock(&p);
		S[(size_t)i].P->Lock(0);
		if (p != Prev + 1 && p != Max)  Bad("not-shared", "handles of one name see different counts");
	}
	for (auto &s : S)  s.Kill();
	CheckLeaks();
	H::Count("creation races with one initialiser identified");
	H::Sig(H::HashU(77, VS::ScheduleHash()));
}

// ---- many handles of one name ----
static void Crowd(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P;
	VS::Reset(R.Next(), P);
	std::string Name = RandName(R);
	int n = R.Chance(1, 2) ? 256 + (int)R.Range(-1, 1) : (int)R.Range(10, 300), Free = (int)R.Range(3, 9), Out = 0;
	Ev("%d handles", n);
	for (int Life = 0; Life < 2; Life++)
	{
		std::vector<Slot<Sync::Semaphore> > S((size_t)n);
		Out = 0;
		for (int i = 0; i < n; i++)
		{
			S[(size_t)i].Make();
			if (!S[(size_t)i].P->Create(Name.c_str(), i ? Free + 1 : Free))  Bad("create-failed", "creating a semaphore failed");
			if (Out < Free - 1 && R.Chance(1, 8) && S[(size_t)i].P->Lock(0))  Out++;
		}
		if (!Out)  { if (!S[0].P->Lock(0))  Bad("not-fresh", "a new semaphore has no permit"); Out++; }
		// Close in any order; up to the last one the state stays.
		for (int i = n; i > 0; i--)
		{
			size_t k = R.Below((std::uint64_t)i);
			std::swap(S[k], S[(size_t)i - 1]);
			if (i < 4 || R.Chance(1, 16))
			{
				Slot<Sync::Semaphore> X;
				X.Make();
				int p = -1;
				if (!X.P->Create(Name.c_str(), 100))  Bad("create-failed", "creating a semaphore failed");
				if (!X.P->Unlock(&p) || p != Free - Out)  Bad("state-lost", H::Format("with %d of %d handles open a semaphore of %d with %d taken has %d permits", i, n, Free, Out, p));
				if (!X.P->Lock(0))  Bad("state-lost", "a permit vanished");
				X.Kill();
				nProbe++;
			}
			S[(size_t)i - 1].Kill();
		}
		nOpen += (unsigned)n;
	}
	CheckLeaks();
	H::Count("crowds of handles");
	std::uint64_t h = 9;
	for (auto &l : Log())  h = H::Hash(l, h);
	H::Sig(H::HashU((std::uint64_t)Out, H::Hash(Name, h)));
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	Log().clear();
	nOpen = nFresh = nJoined = nProbe = nRaces = nRefused = nLong = 0;
	if (R.Chance(1, 200))  Crowd(R);
	else  switch (R.Below(5))
	{
		case 0:  Sequential(R);  break;
		case 1:  InitOnce(R);  break;
		default:  Racing(R);  break;
	}
	H::Count("opens (sequential)", nOpen);
	H::Count("opens of a fresh object", nFresh);
	H::Count("opens of a live object", nJoined);
	H::Count("state probes", nProbe);
	H::Count("racing open/use/close trials", nRaces);
	H::Count("creations refused by the system", nRefused);
	H::Count("sets of very long names", nLong);
	H::Count("context switches", VS::Switches());
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
