// C26: listing, making and removing directories, in a scratch directory, with symbolic links leading out of the tree.
#include "faultio.h"
#include "utf8/utf8_file_dir.h"
#include <algorithm>
using namespace CubicleSoft;
using CL::Bad;
using CL::Ev;
typedef UTF8::Dir Dir;

// Everything below a directory: path -> type, mode and content.
static void Snap(const std::string &p, std::map<std::string, std::string> &M)
{
	DIR *d = opendir(p.c_str());
	if (!d)  return;
	std::vector<std::string> N;
	while (struct dirent *e = readdir(d))  if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))  N.push_back(e->d_name);
	closedir(d);
	for (auto &n : N)
	{
		std::string q = p + "/" + n;
		struct stat st;
		if (lstat(q.c_str(), &st))  continue;
		std::string v = H::Format("%o ", st.st_mode);
		if (S_ISREG(st.st_mode))  v += FIO::Slurp(q);
		if (S_ISLNK(st.st_mode))  { char b[500]; ssize_t k = readlink(q.c_str(), b, sizeof(b)); if (k > 0)  v.append(b, (size_t)k); }
		M[q] = v;
		if (S_ISDIR(st.st_mode))  Snap(q, M);
	}
}
static std::vector<std::string> Good = {"a", "b", "c", "dir", "x.y", "\xC3\xA9", "\xE6\x96\x87\xE5\xAD\x97", "with space", ".hidden", "...", "-rf", "\xCC\x81" "acute", "test"};
static std::string AnyName(H::Rng &R)
{
	static const std::vector<std::string> Odd = {"a\\b", "..\\x", "\\", "*", "a?b", "new\nline", "\x01\x02", "\x7F", "\xFF\xFE", "bad\xC3", "<>|\"", "~", "..\\..\\outside", "\\tmp", "$HOME", "%s%n", " ", "..."};
	switch (R.Below(4))
	{
		case 0:  return R.Pick(Odd);
		case 1:  return R.FromAlphabet(R.Chance(1, 5) ? 255 : R.Below(20) + 1, "abcdefg");
		default:  return R.Pick(Good);
	}
}
static std::uint64_t Made;
static void Tree(H::Rng &R, const std::string &p, int Depth, bool Files)
{
	size_t n = R.Below(Depth > 3 ? 3 : 6);
	for (size_t i = 0; i < n; i++)
	{
		std::string q = p + "/" + AnyName(R);
		if (q.size() > 3000 || FIO::There(q))  continue;
		int r;
		unsigned k = (unsigned)R.Below(Files ? 8 : 2);
		Made++;
		switch (k)
		{
			case 0: case 1: case 2:  r = mkdir(q.c_str(), 0755); if (!r && Depth < 6)  Tree(R, q, Depth + 1, Files);  break;
			case 3: case 4:  FIO::Spit(q, "x");  break;
			case 5:  r = symlink(R.Chance(1, 2) ? (FIO::S().Root + "/outside").c_str() : "../outside", q.c_str());  break;
			case 6:  r = symlink(R.Chance(1, 3) ? "." : R.Chance(1, 2) ? ".." : (FIO::S().Root + "/outside/deep/f").c_str(), q.c_str());  break;
			case 7:  r = R.Chance(1, 2) ? symlink("nowhere", q.c_str()) : R.Chance(1, 2) ? mkfifo(q.c_str(), 0644) : mknod(q.c_str(), S_IFSOCK | 0644, 0);  break;
		}
		(void)r;
	}
}
static std::string Form(H::Rng &R, const std::string &p)
{
	switch (R.Below(7))
	{
		case 0:  return FIO::S().Root + "/" + p;
		case 1:  return "./" + p;
		case 2:  return p + "/";
		case 3:  return "other/../" + p;
		case 4:  return p + "/.";
		case 5:  return FIO::S().Root + "//" + p + "//";
		default:  return p;
	}
}
static void Setup()
{
	FIO::Wipe();
	mkdir("outside", 0755);
	mkdir("outside/deep", 0755);
	FIO::Spit("outside/deep/f", "precious");
	FIO::Spit("outside/g", "precious too");
	FIO::Spit("sibling", "keep");
	mkdir("other", 0755);
}
static void List(H::Rng &R)
{
	mkdir("list", 0755);
	Tree(R, "list", 5, true);
	size_t Extra = R.Chance(1, 10) ? (size_t)R.Below(300) : 0;
	for (size_t i = 0; i < Extra; i++)  FIO::Spit(H::Format("list/n%zu", i), "");
	std::vector<std::string> Want, Got;
	DIR *d = opendir("list");
	while (struct dirent *e = readdir(d))  Want.push_back(e->d_name);
	closedir(d);
	std::string p = Form(R, "list");
	Ev(H::Format("list %s: %zu entries", p.c_str(), Want.size()));
	size_t Fds = FIO::OpenFds();
	{
		void *Room = malloc(sizeof(Dir));
		memset(Room, 0xA5, sizeof(Dir));
		Dir *D = new (Room) Dir;
		char x[300];
		if (D->Read(x, 300) || D->Close())  Bad("closed", "a directory that is not open can be read or closed");
		if (R.Chance(1, 5))
		{
			if (D->Open("list/nothing there") || D->Open("sibling"))  Bad("open", "something that is not a directory was opened");
			if (D->Read(x, 300))  Bad("closed", "a directory that was not opened can be read");
		}
		int Rounds = (int)R.Range(1, 2);
		for (int r = 0; r < Rounds; r++)
		{
			Got.clear();
			if (!D->Open(p.c_str()))  Bad("open", "opening a directory failed: " + p);
			if (R.Chance(1, 8))
			{
				// Names that do not fit are refused, and nothing is written past the buffer.
				size_t n = (size_t)R.Below(12);
				char *b = (char *)malloc(n);
				for (size_t i = 0; i < Want.size(); i++)
				{
					memset(b, 0x5A, n);
					if (D->Read(b, n) && (strnlen(b, n) == n || std::find(Want.begin(), Want.end(), std::string(b)) == Want.end()))  Bad("entries", "a name was cut off");
				}
				free(b);
				if (R.Chance(1, 2))  D->Close();
				if (!D->Open(p.c_str()))  Bad("open", "opening a directory again failed: " + p);
			}
			char *b = (char *)malloc(256);
			for (;;)
			{
				memset(b, 0x5A, 256);
				if (!D->Read(b, 256))  break;
				Got.push_back(std::string(b, strnlen(b, 256)));
				if (Got.size() > Want.size() + 5)  Bad("entries", "a directory listing does not end");
			}
			if (D->Read(b, 256))  Bad("entries", "a directory that has ended gives more entries");
			free(b);
			std::sort(Want.begin(), Want.end());
			std::sort(Got.begin(), Got.end());
			if (Got != Want)  Bad("entries", H::Format("a directory of %zu entries was listed as %zu, or with different names", Want.size(), Got.size()));
		}
		D->~Dir();
		free(Room);
	}
	if (FIO::OpenFds() != Fds)  Bad("descriptor-leak", "a directory remains open");
	H::Count("entries-listed", Got.size());
}
static void Make(H::Rng &R)
{
	std::vector<std::string> Seg;
	size_t n = (size_t)R.Range(1, 6);
	for (size_t i = 0; i < n; i++)  Seg.push_back(Good[R.Below(11)]);
	mkdir("mk", 0755);
	std::string p = "mk";
	// Some of it is there already, or is a file.
	size_t Have = (size_t)R.Below(n + 1);
	bool FileInWay = R.Chance(1, 8) && Have < n;
	for (size_t i = 0; i < Have; i++)  { p += "/" + Seg[i]; mkdir(p.c_str(), 0700); }
	if (FileInWay)  FIO::Spit(p + "/" + Seg[Have], "file");
	std::string Full = "mk";
	for (auto &s : Seg)  Full += "/" + s;
	bool Rec = R.Chance(2, 3);
	static const int Modes[] = {0777, 0755, 0700, 0750};
	int Mode = Modes[R.Below(4)];
	std::string Arg = Form(R, Full);
	std::map<std::string, std::string> Before, After;
	Snap(".", Before);
	Ev(H::Format("mkdir %s (%zu of %zu levels there%s) mode %o recursive %d", H::Escape(Arg).c_str(), Have, n, FileInWay ? ", then a file" : "", Mode, Rec));
	bool Def = Mode == 0777 && !Rec && R.Chance(1, 2);
	bool Ok = Def ? Dir::Mkdir(Arg.c_str()) : Dir::Mkdir(Arg.c_str(), Mode, Rec);
	Snap(".", After);
	bool Can = Have < n && !FileInWay && (Rec || Have + 1 == n);
	if (Ok != Can)  Bad("mkdir", H::Format("making \"%s\" returned %d", H::Escape(Arg).c_str(), Ok));
	if (Can)
	{
		std::string q = "./mk";
		for (size_t i = 0; i < n; i++)
		{
			q += "/" + Seg[i];
			if (i >= Have)  Before[q] = H::Format("%o ", (unsigned)(S_IFDIR | (Mode & ~022)));
		}
		H::Count("levels-made", n - Have);
	}
	if (After != Before)
	{
		std::string x;
		for (auto &a : After)  if (!Before.count(a.first) || Before[a.first] != a.second)  x += " +" + H::Escape(a.first) + " " + a.second.substr(0, 10);
		for (auto &a : Before)  if (!After.count(a.first))  x += " -" + H::Escape(a.first);
		Bad("mkdir", "making \"" + H::Escape(Arg) + "\" made something else:" + x);
	}
}
static void Remove(H::Rng &R)
{
	std::string Top = R.Chance(1, 2) ? "tree" : R.Chance(1, 2) ? "\xC3\xA9t\xC3\xA9" : "other/sub";
	int Kind = (int)R.Below(12);  // 0 a link to a directory, 1 a file, 2 nothing, 3 empty, otherwise a tree
	bool Rec = Kind > 3 ? R.Chance(3, 4) : R.Chance(1, 2), NoUnlink = R.Chance(1, 10), TooDeep = false;
	switch (Kind)
	{
		case 0:  if (symlink((FIO::S().Root + "/outside").c_str(), Top.c_str()))  {}  break;
		case 1:  FIO::Spit(Top, "file");  break;
		case 2:  break;
		case 3:  mkdir(Top.c_str(), 0755);  break;
		default:
			mkdir(Top.c_str(), 0755);
			Tree(R, Top, 0, !R.Chance(1, 8));
			if (R.Chance(1, 60))
			{
				size_t Many = (size_t)R.Range(100, 700);
				for (size_t i = 0; i < Many; i++)  FIO::Spit(Top + H::Format("/entry %zu", i), "");
				H::Count("crowded-trees");
			}
			if (R.Chance(1, 60))
			{
				// Deeper than any path can say.
				int fd = open(Top.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
				size_t Levels = (size_t)R.Range(20, 120);
				std::string Nm(100, 'd');
				TooDeep = Levels * 101 + Top.size() + FIO::S().Root.size() > 4000;
				for (size_t i = 0; i < Levels; i++)
				{
					mkdirat(fd, Nm.c_str(), 0755);
					int k = openat(fd, Nm.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
					close(fd);
					fd = k;
				}
				close(fd);
				H::Count("deep-trees");
			}
			break;
	}
	std::map<std::string, std::string> Before, After;
	Snap(".", Before);
	bool HasFiles = false, Empty = true;
	size_t Inside = 0;
	std::string Pre = "./" + Top + "/";
	for (auto &b : Before)  if (b.first.compare(0, Pre.size(), Pre) == 0)  { Empty = false; Inside++; if (strtoul(b.second.c_str(), NULL, 8) / 010000 != S_IFDIR / 010000)  HasFiles = true; }
	std::string Arg = Form(R, Top);
	Ev(H::Format("rmdir %s kind %d recursive %d with %zu entries%s", H::Escape(Arg).c_str(), Kind, Rec, Inside, NoUnlink ? ", unlink fails" : ""));
	FIO::Plan P;
	if (NoUnlink)  P.UnlinkErr = EPERM;
	size_t Fds = FIO::OpenFds();
	FIO::Begin(P);
	bool Ok = Rec || R.Chance(1, 2) ? Dir::Rmdir(Arg.c_str(), Rec) : Dir::Rmdir(Arg.c_str());
	FIO::End();
	if (FIO::OpenFds() != Fds)  Bad("descriptor-leak", "a directory remains open");
	Snap(".", After);
	int Can = Kind >= 3 ? (Rec ? !(NoUnlink && HasFiles) : Empty) : 0;
	if (TooDeep)  Can = Rec ? -1 : 0;
	if (Ok && Can == 0)  Bad("rmdir", "removing " + H::Escape(Arg) + " reported success");
	if (!Ok && Can == 1)
	{
		std::string Left;
		for (auto &a : After)  if (a.first.compare(0, Pre.size(), Pre) == 0 && Left.size() < 300)  Left += " " + H::Escape(a.first);
		Bad("rmdir", "removing " + H::Escape(Arg) + " failed, leaving" + Left);
	}
	if (Ok && FIO::There(Top))  Bad("rmdir", "removing " + H::Escape(Arg) + " reported success, but it is still there");
	// Nothing else may be gone or changed.
	for (auto &b : Before)
	{
		bool In = b.first == "./" + Top || b.first.compare(0, Pre.size(), Pre) == 0;
		auto it = After.find(b.first);
		if (In && Kind >= 3 && (Ok || Rec) && (it == After.end()))  continue;
		if (it == After.end() || it->second != b.second)  Bad("outside", "removing " + H::Escape(Arg) + " also changed " + H::Escape(b.first));
	}
	for (auto &a : After)  if (!Before.count(a.first))  Bad("outside", "removing " + H::Escape(Arg) + " created " + H::Escape(a.first));
	if (Ok)  { H::Count("trees-removed"); H::Count("entries-removed", Inside + 1); }
	else  H::Count("removals-refused");
}
static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	FIO::End();
	FIO::S().R = H::Rng(R.Next());
	Setup();
	switch (R.Below(5))
	{
		case 0:  List(R);  break;
		case 1: case 2:  Make(R);  break;
		default:  Remove(R);  break;
	}
	H::Count("entries-made", Made);
	Made = 0;
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(4));
	FIO::Wipe();
}
static void Init() { umask(022); FIO::Init(); }
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, Init); }
