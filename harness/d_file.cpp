// C23: an open file is an array of bytes with a position, also when system calls are interrupted, partial or fail.
#include "faultio.h"
#include <sys/mman.h>
#include "utf8/utf8_file_dir.h"
using namespace CubicleSoft;
using CL::Bad;
using CL::Ev;
typedef UTF8::File File;

struct Model
{
	static const size_t K = 8192;
	std::map<std::uint64_t, std::string> B;  // blocks that were written
	std::uint64_t Size = 0;
	std::string Get(std::uint64_t p, size_t n) const
	{
		std::string r;
		while (n)
		{
			size_t o = (size_t)(p % K), k = std::min(n, K - o);
			auto it = B.find(p / K);
			if (it == B.end())  r.append(k, '\0');
			else  r.append(it->second, o, k);
			p += k;
			n -= k;
		}
		return r;
	}
	void Put(std::uint64_t p, const char *d, size_t n)
	{
		if (n && p + n > Size)  Size = p + n;
		while (n)
		{
			size_t o = (size_t)(p % K), k = std::min(n, K - o);
			std::string &b = B[p / K];
			if (b.empty())  b.assign(K, '\0');
			memcpy(&b[o], d, k);
			p += k;
			d += k;
			n -= k;
		}
	}
	void Truncate() { B.clear(); Size = 0; }
};
struct Handle { File *F = NULL; std::uint64_t Pos = 0; bool R = false, W = false, App = false, Alone = true; };

static const char *Name = "f";
static void CheckPos(Handle &h, const char *What, const Model &M)
{
	if (h.F->GetCurrPos() != h.Pos)  Bad("position", H::Format("after %s the position is %llu, not %llu", What, (unsigned long long)h.F->GetCurrPos(), (unsigned long long)h.Pos));
	if (h.Alone && h.F->GetMaxPos() != M.Size)  Bad("size", H::Format("after %s the size is %llu, not %llu", What, (unsigned long long)h.F->GetMaxPos(), (unsigned long long)M.Size));
}
// One call for more bytes than 31 or 32 bits can count.  Only what is not zero is really transferred.
static void HugeCase(H::Rng &R)
{
	unlink(Name);
	size_t Size = (R.Chance(1, 2) ? (size_t)1 << 31 : (size_t)1 << 32) + (size_t)R.Below(100000) + 1;
	char *Mem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (Mem == (char *)MAP_FAILED)  { H::Count("no-huge-memory"); return; }
	auto &I = FIO::S().MemIslands;
	I.clear();
	for (size_t At : { (size_t)R.Below(5000), (size_t)0x7ffff000 - 2000, Size - 2000 })
	{
		std::string d = R.Bytes(2000);
		memcpy(Mem + At, d.data(), d.size());
		I.push_back({(off_t)At, (off_t)(At + d.size())});
	}
	if (I[2].first < I[1].second)  I[1].second = I[2].second, I.pop_back();
	bool Dflt = R.Chance(1, 2);
	std::uint64_t Off = R.Chance(1, 2) ? 0 : R.Below(3000);
	Ev(H::Format("write of %zu bytes at %llu", Size, (unsigned long long)Off));
	{
		File F;
		size_t n = 0;
		std::string Head = R.Bytes((size_t)Off);
		if (!F.Open(Name, O_RDWR | O_CREAT, Dflt ? File::ShareBoth : File::ShareNone))  Bad("open", "opening failed");
		if (!F.Write((const std::uint8_t *)Head.data(), Head.size(), n) || n != Head.size())  Bad("write", "writing failed");
		FIO::Plan P;
		P.Eintr = R.Chance(1, 2) ? 20 : 0;
		FIO::Begin(P);
		FIO::S().Virtual = true;
		FIO::S().ZeroMem = {Mem, Size};
		n = 0;
		bool Ok = F.Write((const std::uint8_t *)Mem, Size, n);
		if (FIO::S().Fds.size())  FIO::Settle(*FIO::S().Fds.begin());
		FIO::S().Virtual = false;
		FIO::End();
		if (!Ok || n != Size)  Bad("write", H::Format("a write of %zu bytes answers %d and %zu", Size, Ok, n));
		struct stat st;
		if (stat(Name, &st) || (std::uint64_t)st.st_size != Off + Size)  Bad("content", H::Format("the file has %llu bytes, not %llu", (unsigned long long)st.st_size, (unsigned long long)(Off + Size)));
		if (F.GetCurrPos() != Off + Size || F.GetMaxPos() != Off + Size)  Bad("position", "wrong position after a very large write");
		int fd = open(Name, O_RDONLY | O_CLOEXEC);
		for (auto &i : I)
		{
			std::string g((size_t)(i.second - i.first), '?');
			if (pread(fd, &g[0], g.size(), (off_t)Off + i.first) != (ssize_t)g.size() || memcmp(g.data(), Mem + i.first, g.size()))  Bad("content", H::Format("the file differs at %lld", (long long)i.first));
		}
		close(fd);
		size_t Ask = Size + (R.Chance(1, 2) ? 0 : (size_t)R.Below(9000));
		char *Mem2 = (char *)mmap(NULL, Ask, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (Mem2 == (char *)MAP_FAILED)  H::HarnessError("no memory");
		if (!F.Seek(File::SeekBackward, Size))  Bad("seek", "seeking failed");
		if (F.GetCurrPos() != Off)  Bad("seek", "seeking went elsewhere");
		FIO::S().Islands.clear();
		for (auto &i : I)  FIO::S().Islands.push_back({i.first + (off_t)Off, i.second + (off_t)Off});
		FIO::Begin(P);
		FIO::S().Virtual = true;
		FIO::S().ZeroMem = {Mem2, Ask};
		n = 0;
		Ok = F.Read((std::uint8_t *)Mem2, Ask, n);
		FIO::S().Virtual = false;
		FIO::S().ZeroMem = {NULL, 0};
		FIO::End();
		if (!Ok || n != Size)  Bad("read", H::Format("a read of %zu bytes where there are %zu answers %d and %zu", Ask, Size, Ok, n));
		if (F.GetCurrPos() != Off + Size)  Bad("position", "wrong position after a very large read");
		for (auto &i : I)  if (memcmp(Mem + i.first, Mem2 + i.first, (size_t)(i.second - i.first)))  Bad("content", H::Format("what was read differs at %lld", (long long)i.first));
		munmap(Mem2, Ask);
	}
	munmap(Mem, Size);
	I.clear();
	FIO::S().Islands.clear();
	unlink(Name);
	H::Count("very large transfers", 2);
}

static void RunCase(H::Rng &R, std::uint64_t Case)
{
	CL::LogReset();
	FIO::End();
	FIO::S().R = H::Rng(R.Next());
	if (Case % 10000 == 11)  { HugeCase(R); H::Sig(CL::LogSig); return; }
	Model M;
	unlink(Name);
	// A file, possibly already large.
	std::uint64_t Base = 0;
	{
		int fd = open(Name, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
		std::string Init = R.Bytes(R.Chance(1, 3) ? 0 : R.Size(20000));
		if (R.Chance(1, 6))
		{
			static const std::uint64_t Marks[] = {1ull << 31, 1ull << 32, 3ull << 32, (1ull << 33) + 12345, 1ull << 40, 5ull << 41, (1ull << 43) - 70000};
			Base = Marks[R.Below(7)] - Init.size() / 2 - R.Below(3);
		}
		if (pwrite(fd, Init.data(), Init.size(), (off_t)Base) != (ssize_t)Init.size())  H::HarnessError("cannot set up");
		if (Init.empty() && Base && ftruncate(fd, (off_t)Base))  H::HarnessError("cannot set up");
		close(fd);
		M.Put(Base, Init.data(), Init.size());
		M.Size = Base + Init.size();
		Ev(H::Format("file of %zu bytes at %llu", Init.size(), (unsigned long long)Base));
	}
	Handle Hs[2];
	for (auto &h : Hs)  { void *p = malloc(sizeof(File)); memset(p, 0xA5, sizeof(File)); h.F = new (p) File; }
	bool Faulty = R.Chance(2, 3), Two = R.Chance(1, 4);
	FIO::Plan Soft;
	if (Faulty)  { Soft.Eintr = (unsigned)R.Below(40); Soft.Short = (unsigned)R.Below(60); }
	auto Open = [&](Handle &h, bool First)
	{
		int Acc = R.Chance(1, 2) ? O_RDWR : R.Chance(1, 2) ? O_RDONLY : O_WRONLY;
		int Fl = Acc;
		if (R.Chance(1, 5) && Acc != O_RDONLY)  Fl |= O_APPEND;
		if (R.Chance(1, 12) && Acc != O_RDONLY)  Fl |= O_TRUNC;
		if (R.Chance(1, 4))  Fl |= O_CREAT;
		Ev(H::Format("open %o", Fl));
		if (!h.F->Open(Name, Fl, File::ShareBoth))  Bad("open", "opening a file that is there failed");
		if (!h.F->IsOpen())  Bad("open", "the file is not open after opening it");
		if (Fl & O_TRUNC)  M.Truncate();
		h.Pos = 0;
		h.R = Acc != O_WRONLY;
		h.W = Acc != O_RDONLY;
		h.App = (Fl & O_APPEND) != 0;
		h.Alone = !Two;
		(void)First;
		// At this moment the size is known for sure.
		if (h.F->GetMaxPos() != M.Size)  Bad("size", H::Format("the size after opening is %llu, not %llu", (unsigned long long)h.F->GetMaxPos(), (unsigned long long)M.Size));
		CheckPos(h, "opening", M);
	};
	{
		size_t n = 77;
		unsigned char c[4];
		Handle &h = Hs[0];
		if (h.F->GetCurrPos() || h.F->GetMaxPos())  Bad("closed", "a file that was never opened has a position or a size");
		if (h.F->IsOpen() || h.F->Read(c, 4, n) || h.F->Write(c, 4, n) || h.F->Seek(File::SeekStart, 0) || h.F->UpdateMaxPos() || h.F->Flush())  Bad("closed", "a file that is not open can be used");
	}
	Open(Hs[0], true);
	if (Two)  Open(Hs[1], true);
	size_t Steps = R.Below(40) + 1;
	for (size_t s = 0; s < Steps; s++)
	{
		Handle &h = Hs[Two && R.Chance(1, 2)];
		FIO::Plan P = Soft;
		size_t Len = R.Chance(1, 60) ? (size_t)R.Below(150000) : R.Size(9000);
		std::uint64_t Pos0 = h.Pos;
		switch (R.Below(12))
		{
			case 0: case 1: case 2:
			{
				if (Faulty && R.Chance(1, 6))  P.ReadErr = (long)R.Below(3);
				unsigned char *B = (unsigned char *)malloc(Len);
				memset(B, 0xA5, Len);
				size_t Got = 0xA5A5;
				FIO::Begin(P);
				bool Ok = h.F->Read(B, Len, Got);
				bool Hard = FIO::S().Hard;
				FIO::End();
				Ev(H::Format("read %zu at %llu -> %d %zu", Len, (unsigned long long)h.Pos, Ok, Got));
				if (!h.R)  { if (Ok)  Bad("read", "a file opened for writing only can be read"); free(B); break; }
				std::uint64_t Avail = h.Pos < M.Size ? M.Size - h.Pos : 0;
				size_t Want = (size_t)std::min<std::uint64_t>(Len, Avail);
				if (Hard)
				{
					H::Count("failed-reads");
					if (Ok)  Bad("error-hidden", "a read that failed reported success");
					if (Got != FIO::S().Read)  Bad("count", H::Format("a failed read says it read %zu bytes, not %zu", Got, FIO::S().Read));
				}
				else
				{
					if (!Ok)  Bad("read", "a read failed");
					if (Got != Want)  Bad("count", H::Format("a read of %zu bytes got %zu of %zu", Len, Got, Want));
				}
				if (Got > Len)  Bad("count", "a read says it read more than asked for");
				std::string Is = M.Get(h.Pos, Got);
				if (memcmp(B, Is.data(), Got))
					for (size_t i = 0; i < Got; i++)  if (B[i] != (unsigned char)Is[i])  Bad("content", H::Format("byte %llu read as %02X, stored as %02X", (unsigned long long)(h.Pos + i), B[i], (unsigned char)Is[i]));
				for (size_t i = Got; i < Len; i++)  if (B[i] != 0xA5)  Bad("beyond", "a read wrote behind the bytes it says it read");
				h.Pos += Got;
				H::Count("bytes-read", Got);
				free(B);
				CheckPos(h, "reading", M);
				break;
			}
			case 3: case 4: case 5:
			{
				if (Faulty && R.Chance(1, 6))  P.WriteErr = (long)R.Below(3);
				bool Z = R.Chance(1, 5);
				std::string D = Z ? R.FromAlphabet(R.Below(300), "abc\n") : R.Bytes(Len);
				char *B = (char *)malloc(D.size() + Z);
				memcpy(B, D.data(), D.size());
				if (Z)  B[D.size()] = 0;
				size_t Got = 0xA5A5;
				FIO::Begin(P);
				bool Ok = Z ? h.F->Write(B, Got) : h.F->Write((const std::uint8_t *)B, D.size(), Got);
				bool Hard = FIO::S().Hard;
				FIO::End();
				free(B);
				if (!h.W)  { if (Ok)  Bad("write", "a file opened for reading only can be written"); break; }
				Ev(H::Format("write %zu at %llu -> %d %zu", D.size(), (unsigned long long)h.Pos, Ok, Got));
				if (Hard)
				{
					H::Count("failed-writes");
					if (Ok)  Bad("error-hidden", "a write that failed reported success");
					if (Got != FIO::S().Written)  Bad("count", H::Format("a failed write says it wrote %zu bytes, not %zu", Got, FIO::S().Written));
				}
				else
				{
					if (!Ok)  Bad("write", "a write failed");
					if (Got != D.size())  Bad("count", H::Format("a write of %zu bytes says %zu", D.size(), Got));
				}
				std::uint64_t At = h.App ? M.Size : h.Pos;
				if (Got > D.size())  Bad("count", "a write says it wrote more than asked for");
				M.Put(At, D.data(), Got);
				if (Got)  h.Pos = At + Got;
				H::Count("bytes-written", Got);
				// Whether a write that stored nothing moves an appending file to its end is not specified.
				if (h.App && !Got)  h.Pos = h.F->GetCurrPos();
				CheckPos(h, "writing", M);
				break;
			}
			case 6: case 7: case 8: case 9:
			{
				if (Faulty && R.Chance(1, 8))  P.SeekErr = 0;
				File::SeekType W = (File::SeekType)R.Below(4);
				std::uint64_t Max = h.F->GetMaxPos(), To;
				switch (R.Below(5))
				{
					case 0:  To = R.Below(4);  break;
					case 1:  To = R.U64();  break;
					case 2:  To = Max + (std::uint64_t)R.Range(-2, 2);  break;
					case 3:  To = ~(std::uint64_t)0 - R.Below(3) - (R.Chance(1, 2) ? h.Pos : 0);  break;
					default:  To = Base + R.Below(std::max<std::uint64_t>(1, Max - std::min(Max, Base)) + 2);  break;
				}
				std::uint64_t Want;
				switch (W)
				{
					case File::SeekStart:  Want = std::min(To, Max);  break;
					case File::SeekEnd:  Want = To > Max ? 0 : Max - To;  break;
					case File::SeekForward:  Want = h.Pos > Max || To > Max - h.Pos ? Max : h.Pos + To;  break;
					default:  Want = To > h.Pos ? 0 : h.Pos - To;  break;
				}
				FIO::Begin(P);
				bool Ok = h.F->Seek(W, To);
				bool Hard = FIO::S().Hard;
				FIO::End();
				Ev(H::Format("seek %d %llu from %llu -> %d %llu", W, (unsigned long long)To, (unsigned long long)h.Pos, Ok, (unsigned long long)h.F->GetCurrPos()));
				if (Hard ? Ok : !Ok)  Bad("seek", Hard ? "a seek that failed reported success" : "a seek failed");
				if (Ok)  h.Pos = Want;
				H::Count(Ok ? "seeks" : "failed-seeks");
				CheckPos(h, "seeking", M);
				break;
			}
			case 10:
				if (!h.F->UpdateMaxPos())  Bad("size", "finding the size of an open file failed");
				if (h.F->GetMaxPos() != M.Size)  Bad("size", H::Format("the size is given as %llu, not %llu", (unsigned long long)h.F->GetMaxPos(), (unsigned long long)M.Size));
				{
					unsigned long y = FIO::Syncs();
					if (h.F->Flush() != h.W)  Bad("flush", "flushing failed or worked on a read-only file");
					if (h.W && FIO::Syncs() == y)  Bad("flush", "flushing did not ask the system to commit anything");
				}
				CheckPos(h, "asking for the size", M);
				break;
			case 11:
				if (R.Chance(1, 3))
				{
					if (R.Chance(1, 2))
					{
						size_t n = 77;
						unsigned char c[4];
						h.F->Close();
						if (h.F->IsOpen() || h.F->Read(c, 4, n) || h.F->Write(c, 4, n) || h.F->Seek(File::SeekStart, 0))  Bad("closed", "a closed file can be used");
					}
					Open(h, false);
				}
				break;
		}
		(void)Pos0;
	}
	for (auto &h : Hs)  { h.F->~File(); free((void *)h.F); }
	if (FIO::S().Fds.size())  Bad("descriptor-leak", "a descriptor remains open");
	// What is on disk, without the library.
	struct stat st;
	if (stat(Name, &st) || (std::uint64_t)st.st_size != M.Size)  Bad("disk", H::Format("the file has %llu bytes, not %llu", (unsigned long long)st.st_size, (unsigned long long)M.Size));
	{
		int fd = open(Name, O_RDONLY | O_CLOEXEC);
		std::vector<std::pair<std::uint64_t, std::uint64_t> > Rg;
		if (M.Size < 2000000)  Rg.push_back({0, M.Size});
		else
		{
			Rg.push_back({0, 200000});
			std::uint64_t B0 = Base > 200000 ? Base - 200000 : 0;
			Rg.push_back({B0, M.Size});
		}
		std::vector<unsigned char> Buf(1 << 16);
		size_t Seen = 0;
		for (auto &r : Rg)
			for (std::uint64_t p = r.first; p < r.second; )
			{
				size_t n = (size_t)std::min<std::uint64_t>(Buf.size(), r.second - p);
				ssize_t k = pread(fd, Buf.data(), n, (off_t)p);
				if (k <= 0)  H::HarnessError("cannot read the file back");
				std::string w = M.Get(p, (size_t)k);
				if (memcmp(w.data(), Buf.data(), (size_t)k))
					for (size_t i = 0; i < (size_t)k; i++)  if (Buf[i] != (unsigned char)w[i])  Bad("disk", H::Format("byte %llu on disk is %02X, not %02X", (unsigned long long)(p + i), Buf[i], (unsigned char)w[i]));
				p += (std::uint64_t)k;
				Seen += (size_t)k;
			}
		close(fd);
		H::Count("bytes-compared", Seen);
	}
	H::Count("interruptions", FIO::S().NEintr);
	H::Count("partial-transfers", FIO::S().NShort);
	FIO::S().NEintr = FIO::S().NShort = 0;
	if (Two)  H::Count("two-handles");
	if (Base)  H::Count("large-files");
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(10));
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, FIO::Init); }
