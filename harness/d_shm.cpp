// C07: named shared memory - same bytes, zeroed at first, one first per lifetime, nothing outside touched.
#include "synclib.h"
#include "sync/sync_sharedmem.h"
#include "sync/sync_semaphore.h"
using namespace CubicleSoft;
using namespace SL;

static std::uint64_t nOpen, nFirst, nWrite, nRead, nLife, nRefused;

struct Block { std::string Bytes; int Open = 0; };
struct Handle { Slot<Sync::SharedMem> M; int Key = -1; };

static void Sequential(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P;
	P.TruncEintrPct = R.Chance(1, 3) ? 40 : 0;
	VS::Reset(R.Next(), P);
	// Distinct names with the same and with different sizes (at least 8 apart, so that alignment cannot merge them).
	std::vector<std::pair<std::string, size_t> > Keys;
	size_t nK = (size_t)R.Range(1, 4);
	std::string Base = R.FromAlphabet((size_t)R.Range(1, 60), "abcXYZ0123456789._-");
	size_t Size = 1 + R.Size(60000);
	if (R.Chance(1, 10))
	{
		// Names beyond what the system takes: those that differ in one letter are still told apart.
		Base = R.FromAlphabet((size_t)(R.Chance(1, 2) ? R.Range(200, 300) : R.Range(200, 1200)), "abcdefghijklmnopqrstuvwxyz");
		size_t At = R.Chance(1, 4) ? Base.size() - 1 : R.Below(Base.size());
		for (size_t i = 0; i < nK; i++)  { Base[At] = (char)((i % 2 ? 'A' : 'a') + 5 * (i / 2)); Keys.push_back({ Base, Size }); }
		nK = 0;
	}
	for (size_t i = 0; i < nK; i++)
	{
		switch (i ? R.Below(5) : 0)
		{
			case 0:  Keys.push_back({ Base + std::to_string(i), Size });  break;
			case 1:  { size_t s2 = Size + 8 * (i + 1); Keys.push_back({ Base + "0", s2 }); break; }
			case 3:
			{
				// The same name with a size that is close to the first in some notation.
				size_t d = (size_t)1 << R.Range(4, 18);
				Keys.push_back({ Base + "0", Size + d });
				break;
			}
			case 4:
			{
				// Digits that could move between a size and a name in a composed name (overhead 48).
				size_t v = (Size + 48 + 3) & ~(size_t)3;
				if (v < 60000)  { std::string Dig = std::to_string((i % 5) * 2); Keys[0].first = Dig + Base; Keys.push_back({ Base, v * 10 + (size_t)((i % 5) * 2) - 48 }); }
				else  Keys.push_back({ Base + "0x", Size });
				break;
			}
			default:  Keys.push_back({ std::to_string(i) + Base, 1 + R.Size(3000) });  break;
		}
	}
	// Keep only keys that really differ.
	for (size_t i = 0; i < Keys.size(); i++)
		for (size_t j = i + 1; j < Keys.size(); )
		{
			if (Keys[i].first == Keys[j].first && (Keys[i].second + 7) / 8 == (Keys[j].second + 7) / 8)  Keys.erase(Keys.begin() + (long)j);
			else  j++;
		}
	nK = Keys.size();
	int nH = (int)R.Range(2, 6);
	std::vector<Handle> Hs((size_t)nH);
	std::vector<Block> Bs(nK);
	H::Rng r(R.Next());
	int Opened = 0;
	VS::Spawn([&]() {
		auto Drop = [&](Handle &h) {
			if (h.Key < 0)  return;
			Opened--;
			if (--Bs[(size_t)h.Key].Open == 0)  { Bs[(size_t)h.Key].Bytes.clear(); nLife++; }
			h.Key = -1;
		};
		int Steps = (int)r.Range(8, 40);
		for (int s = 0; s < Steps; s++)
		{
			Handle &h = Hs[r.Below((std::uint64_t)nH)];
			if (h.Key < 0 || r.Chance(1, 4))
			{
				if (h.M.P && r.Chance(1, 2))  { Drop(h); h.M.Kill(); }
				if (!h.M.P)
				{
					h.M.Make();
					if (h.M.P->First() || h.M.P->RawData() != NULL || h.M.P->GetSize() != 0)  Bad("fresh-object", "an object that was never created has data");
					if (r.Chance(1, 6) && h.M.P->Create(NULL, 10))  Bad("null-name", "unnamed shared memory was created");
				}
				Drop(h);
				int k = (int)r.Below(nK);
				Block &b = Bs[(size_t)k];
				Ev("create key %d size %zu (open %d)", k, Keys[(size_t)k].second, b.Open);
				if (!h.M.P->Create(Keys[(size_t)k].first.c_str(), Keys[(size_t)k].second))  Bad("create-failed", "creating shared memory failed");
				nOpen++;
				h.Key = k;
				Opened++;
				bool First = b.Open++ == 0;
				if (First)  { nFirst++; b.Bytes.assign(Keys[(size_t)k].second, '\0'); }
				if (h.M.P->First() != First)  Bad("first-flag", H::Format("First() is %d for %s handle", h.M.P->First(), First ? "the only" : "a later"));
				if (h.M.P->GetSize() != Keys[(size_t)k].second)  Bad("size", "the size reported is not the requested one");
				if (!h.M.P->RawData())  Bad("no-data", "no data pointer");
			}
			else
			{
				Block &b = Bs[(size_t)h.Key];
				char *d = h.M.P->RawData();
				size_t n = b.Bytes.size();
				if (r.Chance(1, 2))
				{
					size_t a = r.Below(n), l = r.Chance(1, 3) ? n - a : r.Below(n - a) + 1;
					if (r.Chance(1, 4))  { a = 0; l = n; }
					std::string v = r.Chance(1, 2) ? std::string(l, (char)0xFF) : r.Bytes(l);
					memcpy(d + a, v.data(), l);
					b.Bytes.replace(a, l, v);
					nWrite++;
				}
				else
				{
					nRead++;
					if (memcmp(d, b.Bytes.data(), n))  Bad("content", "bytes differ from what was written through the handles of this block");
				}
				if (h.M.P->GetSize() != n)  Bad("size", "the size reported is not the requested one");
			}
			// Every open block still has its own content, whichever handle looks.
			for (auto &x : Hs)  if (x.Key >= 0 && r.Chance(1, 3) && memcmp(x.M.P->RawData(), Bs[(size_t)x.Key].Bytes.data(), Bs[(size_t)x.Key].Bytes.size()))  Bad("content", "another block's operation changed the content");
			if (VS::OpenFds())  Bad("leak", "a descriptor stays open");
			if (VS::Mappings() != Opened)  Bad("leak", H::Format("%d mappings for %d open handles", VS::Mappings(), Opened));
		}
		for (auto &h : Hs)  { Drop(h); h.M.Kill(); }
	}, 1);
	if (VS::Run() != VS::Done)  Bad("stuck", "opening shared memory never returns");
	CheckLeaks();
	std::uint64_t sg = 3;
	for (auto &l : Log())  sg = H::Hash(l, sg);
	H::Sig(sg);
}

// Sizes no 32-bit number holds, and sizes nobody can have.
static void Huge(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P;
	P.TruncEintrPct = R.Chance(1, 3) ? 40 : 0;
	VS::Reset(R.Next(), P);
	std::string Name = R.FromAlphabet((size_t)R.Range(1, 60), "abcXYZ0123456789._-");
	size_t Small = 1 + R.Size(5000), Big = Small + ((size_t)R.Range(1, 3) << 32);
	bool BigFirst = R.Chance(1, 2);
	size_t Impossible[] = { SIZE_MAX - R.Below(200), SIZE_MAX / 2 - R.Below(100), ((size_t)1 << 50) + R.Below(1000), ((size_t)1 << 62), ((size_t)1 << 63) + R.Below(64) };
	size_t No = Impossible[R.Below(5)];
	H::Rng r(R.Next());
	VS::Spawn([&]() {
		Slot<Sync::SharedMem> A, B, C;
		A.Make();
		B.Make();
		C.Make();
		Ev("create size %zu", No);
		if (C.P->Create(Name.c_str(), No) || C.P->First() || C.P->RawData() != NULL || C.P->GetSize())  Bad("impossible-size", H::Format("shared memory of %zu bytes was created", No));
		nRefused++;
		if (VS::OpenFds() || VS::Mappings())  Bad("leak", "a refused creation keeps a descriptor or a mapping");
		for (int i = 0; i < 2; i++)
		{
			bool b = (i == 0) == BigFirst;
			size_t n = b ? Big : Small;
			Ev("create size %zu", n);
			Sync::SharedMem *M = b ? B.P : A.P;
			if (!M->Create(Name.c_str(), n))  Bad("create-failed", "creating shared memory failed");
			nOpen++;
			if (!M->First())  Bad("first-flag", "the only handle of this name and size is not the first");
			nFirst++;
			if (M->GetSize() != n)  Bad("size", "the size reported is not the requested one");
			if (!M->RawData())  Bad("no-data", "no data pointer");
		}
		std::string v = r.Bytes(Small), z(Small, '\0');
		memcpy(A.P->RawData(), v.data(), Small);
		if (memcmp(B.P->RawData(), z.data(), Small) || memcmp(B.P->RawData() + (Big - Small), z.data(), Small))  Bad("content", "a block of another size shows what was written to this one");
		std::string w = r.Bytes(Small);
		memcpy(B.P->RawData() + (Big - Small), w.data(), Small);
		memcpy(B.P->RawData(), w.data(), Small);
		nWrite += 2;
		if (memcmp(A.P->RawData(), v.data(), Small) || memcmp(B.P->RawData() + (Big - Small), w.data(), Small))  Bad("content", "bytes differ from what was written through the handles of this block");
		nRead++;
		if (VS::OpenFds())  Bad("leak", "a descriptor stays open");
		if (VS::Mappings() != 2)  Bad("leak", "not one mapping for each open handle");
		A.Kill();
		B.Kill();
		C.Kill();
		nLife += 2;
	}, 1);
	if (VS::Run() != VS::Done)  Bad("stuck", "opening shared memory never returns");
	CheckLeaks();
	H::Count("huge sizes", 2);
	H::Count("impossible sizes");
	H::Sig(H::Hash(Name, No));
}
// The system refuses to size or map a block: the open fails, and neither other handles nor later opens notice.
static void Refused(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P;
	P.TruncEintrPct = R.Chance(1, 3) ? 40 : 0;
	(R.Chance(1, 2) ? P.TruncFailPct : P.MapFailPct) = 60;
	VS::Reset(R.Next(), P);
	size_t Size = 1 + R.Size(5000);
	H::Rng r(R.Next());
	VS::Spawn([&]() {
		Slot<Sync::SharedMem> Hs[4];
		std::string Bytes;
		int Open = 0;
		bool Is[4] = {};
		for (auto &h : Hs)  h.Make();
		for (int s = (int)r.Range(6, 20); s; s--)
		{
			int i = (int)r.Below(4);
			if (Is[i] && r.Chance(1, 2))
			{
				if (memcmp(Hs[i].P->RawData(), Bytes.data(), Size))  Bad("content", "bytes differ from what was written through the handles of this block");
				Bytes = r.Bytes(Size);
				memcpy(Hs[i].P->RawData(), Bytes.data(), Size);
				nWrite++;
				continue;
			}
			if (Is[i])  { Is[i] = false; Open--; }
			if (r.Chance(1, 4))  { Hs[i].Kill(); Hs[i].Make(); continue; }
			bool Faulty = r.Chance(2, 3);
			VS::SetFaults(Faulty);
			std::uint64_t f0 = VS::Faults();
			bool Ok = Hs[i].P->Create("refused", Size);
			bool Hit = VS::Faults() != f0;
			VS::SetFaults(false);
			Ev("h%d create %s%s", i, Ok ? "ok" : "refused", Hit ? " (faults)" : "");
			if (VS::OpenFds())  Bad("leak", "a descriptor stays open");
			if (VS::Mappings() != Open + Ok)  Bad("leak", H::Format("%d mappings for %d open handles", VS::Mappings(), Open + Ok));
			if (!Ok)
			{
				if (!Hit)  Bad("create-failed", "creating shared memory failed");
				if (Hs[i].P->First() || Hs[i].P->RawData() != NULL || Hs[i].P->GetSize())  Bad("uncreated-usable", "a handle whose creation failed offers memory, has a size or says it is the first");
				nRefused++;
				continue;
			}
			nOpen++;
			if (!Open)  { Bytes.assign(Size, '\0'); nFirst++; }
			if (Hs[i].P->First() != !Open)  Bad("first-flag", H::Format("First() is %d for %s handle", Hs[i].P->First(), Open ? "a later" : "the only"));
			if (Hs[i].P->GetSize() != Size)  Bad("size", "the size reported is not the requested one");
			if (memcmp(Hs[i].P->RawData(), Bytes.data(), Size))  Bad("content", "bytes differ from what was written through the handles of this block");
			nRead++;
			Is[i] = true;
			Open++;
		}
		for (auto &h : Hs)  h.Kill();
	}, 1);
	if (VS::Run() != VS::Done)  Bad("stuck", "opening shared memory never returns after the system refused it once");
	VS::SetFaults(false);
	CheckLeaks();
	std::uint64_t sg = 5;
	for (auto &l : Log())  sg = H::Hash(l, sg);
	H::Sig(sg);
}

struct Life { int Fiber; std::uint64_t CS, CE, XS, XE; bool First; };

static void Racing(H::Rng &R)
{
	VS::ShmReset();
	VS::Policy P = RandPolicy(R);
	P.TruncEintrPct = R.Chance(1, 3) ? 40 : 0;
	if (R.Chance(1, 8))  P.ShmFailPct = 30;
	VS::Reset(R.Next(), P);
	Bare<Sync::SharedMem>(R);
	VS::Track(true);
	int nF = (int)R.Range(2, 4), Rounds = (int)R.Range(1, 3);
	bool Keep = R.Chance(1, 3);
	size_t Size = 16 * 8 + R.Size(2000);
	std::vector<H::Rng> FR;
	for (int i = 0; i < nF; i++)  FR.push_back(H::Rng(R.Next()));
	std::vector<Life> L;
	std::vector<std::uint64_t> CellWrittenBy(16, 0);     // Seq of the Create return of the handle that last wrote the cell
	int Up = 0;
	for (int i = 0; i < nF; i++)
		VS::Spawn([&, i]() {
			H::Rng &r = FR[(size_t)i];
			for (int k = 0; k < (Keep ? 1 : Rounds); k++)
			{
				Slot<Sync::SharedMem> M;
				M.Make();
				size_t Me;
				L.push_back(Life{ i, VS::Seq(), Pending, Pending, Pending, false });
				Me = L.size() - 1;
				for (int Try = 0; ; Try++)
				{
					if (Try >= 40)  VS::SetFaults(false);
					std::uint64_t f0 = VS::FaultsOf(VS::Self());
					if (M.P->Create("race", Size))  break;
					if (VS::FaultsOf(VS::Self()) == f0)  Bad("create-failed", "creating shared memory failed");
					if (M.P->First() || M.P->RawData() != NULL || M.P->GetSize())  Bad("uncreated-usable", "a handle whose creation failed offers memory, has a size or says it is the first");
					nRefused++;
					L[Me].CS = VS::Seq();
				}
				L[Me].CE = VS::Seq();
				L[Me].First = M.P->First();
				Ev("f%d open first=%d", i, M.P->First());
				// Cells: one 8-byte word per fiber, the rest stays zero.
				std::uint64_t *w = (std::uint64_t *)M.P->RawData();
				auto Get = [&](size_t x) { std::uint64_t v; memcpy(&v, (char *)w + 8 * x, 8); return v; };
				if (L[Me].First)
				{
					for (size_t x = 0; x < 16; x++)
						if (Get(x) && CellWrittenBy[x] < L[Me].CS)  Bad("not-zeroed", "the first handle sees data of an earlier lifetime");
				}
				for (size_t b = 128; b < Size; b++)  if (((char *)w)[b])  Bad("not-zeroed", "bytes nobody wrote are not zero");
				std::uint64_t v = ((std::uint64_t)i + 1) << 32 | (std::uint64_t)(k + 1);
				CellWrittenBy[(size_t)i] = L[Me].CE;
				memcpy((char *)w + 8 * (size_t)i, &v, 8);
				for (std::uint64_t n = r.Below(4); n; n--)  VS::Point();
				if (r.Chance(1, 4))  VS::SleepUs(r.Below(10000));
				if (Get((size_t)i) != v)  Bad("content", "a value written through an open handle vanished");
				nWrite++;
				if (Keep)
				{
					Up++;
					while (Up < nF)  VS::SleepUs(500);
					// Everybody is open: all see everybody's value.
					for (int j = 0; j < nF; j++)  if (Get((size_t)j) != ((std::uint64_t)(j + 1) << 32 | 1))  Bad("content", "a handle does not see what another wrote");
					nRead++;
				}
				L[Me].XS = VS::Seq();
				M.Kill();
				L[Me].XE = VS::Seq();
				Ev("f%d closed", i);
			}
		}, i + 1);
	VS::Outcome Res = VS::Run();
	VS::Track(false);
	VS::SetFaults(false);
	if (Res == VS::StepLimit)  Bad("livelock", "no progress within the step limit");
	if (Res == VS::Stuck)  Bad("stuck", "opening shared memory never returns");
	int Firsts = 0;
	for (size_t a = 0; a < L.size(); a++)
	{
		if (L[a].First)
		{
			Firsts++;
			for (size_t b = 0; b < L.size(); b++)
				if (b != a && L[b].CE < L[a].CS && L[b].XS > L[a].CE)  Bad("two-firsts", "a handle is told it is the first while another is open");
		}
		else
		{
			bool Other = false;
			for (size_t b = 0; b < L.size(); b++)
				if (b != a && L[b].CS < L[a].CE && L[b].XE > L[a].CS)  Other = true;
			if (!Other)  Bad("no-first", "the only open handle is not the first");
		}
	}
	if (!Firsts)  Bad("no-first", "nobody is the first");
	if (Keep && Firsts != 1)  Bad("two-firsts", H::Format("%d handles that are open together are told they are the first", Firsts));
	nOpen += L.size();
	nFirst += (std::uint64_t)Firsts;
	CheckLeaks();
	H::Sig(VS::ScheduleHash());
	H::Count("racing trials");
	if (H::WantSample())  H::Sample(Tail(40));
}
static void RunCase(H::Rng &R, std::uint64_t)
{
	Log().clear();
	nOpen = nFirst = nWrite = nRead = nLife = nRefused = 0;
	if (R.Chance(1, 12))  Huge(R);  else if (R.Chance(1, 8))  Refused(R);  else if (R.Chance(1, 3))  Sequential(R);  else  Racing(R);
	if (!VS::ShmModesOpen())  Bad("mode", "a block cannot be opened by other users");
	H::Count("opens", nOpen);
	H::Count("first opens", nFirst);
	H::Count("creations the system refused", nRefused);
	H::Count("writes", nWrite);
	H::Count("whole-block reads", nRead);
	H::Count("lifetimes ended", nLife);
	H::Count("context switches", VS::Switches());
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
