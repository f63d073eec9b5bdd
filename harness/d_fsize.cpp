// C16: file sizes as text.
#include "contlib.h"
#include "convert/convert_int.h"
using namespace CubicleSoft;
using CL::Bad;

static std::string Expect(bool Neg, std::uint64_t N, size_t Frac, char NumSep, char DecSep, char UnitSep, const std::string &Unit)
{
	static const char Units[] = "\0KMGTPE";
	unsigned u = 0;
	if (Frac)
	{
		// The unit moves up as soon as the text would show 1000 or more.
		unsigned __int128 Limit = 1;
		while (u < 6 && N >= (unsigned __int128)(u ? 1000 : 1024) * Limit)  { u++; Limit *= 1024; }
	}
	else  while (u < 6 && (N >> (10 * u)) >= 1024)  u++;
	if (u < 2)  Frac = 0;
	std::uint64_t Div = 1ull << (10 * u);
	std::uint64_t Int = N / Div, Rem = N % Div;
	std::string r;
	unsigned k = 0;
	do
	{
		if (NumSep && k && k % 3 == 0)  r.insert(r.begin(), NumSep);
		r.insert(r.begin(), (char)('0' + Int % 10));
		Int /= 10;
		k++;
	} while (Int);
	if (Frac)
	{
		r += DecSep;
		unsigned __int128 x = Rem;
		for (size_t i = 0; i < Frac; i++)  { x *= 10; r += (char)('0' + (unsigned)(x / Div)); x %= Div; }
	}
	if (UnitSep)  r += UnitSep;
	if (u)  { r += Units[u]; r += 'B'; }
	else  r += Unit;
	return Neg ? "-" + r : r;
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	for (int k = 0; k < 8; k++)
	{
		std::uint64_t U = R.U64();
		switch (R.Below(4))
		{
			case 0:  { unsigned e = (unsigned)R.Below(7) * 10; U = (R.Chance(1, 2) ? 1ull << e : e ? 1000ull << (e - 10) : 1000) + (std::uint64_t)R.Range(-2, 2); break; }
			case 1:  { unsigned e = (unsigned)R.Below(7) * 10; U = (R.Below(1100) << e) + (R.Next() & ((1ull << e) - 1)); break; }
		}
		bool Signed = R.Chance(1, 3);
		std::int64_t I = (std::int64_t)U;
		bool Neg = Signed && I < 0;
		std::uint64_t Mag = Neg ? 0 - U : U;
		size_t Frac = R.Chance(1, 3) ? 2 : R.Chance(1, 2) ? (size_t)R.Below(5) : (size_t)R.Below(70);
		char NumSep = R.Chance(1, 2) ? '\0' : ',', DecSep = R.Chance(1, 2) ? '.' : ',', UnitSep = R.Chance(1, 2) ? ' ' : R.Chance(1, 2) ? '\0' : '_';
		std::string Unit = R.Chance(1, 2) ? "bytes" : R.FromAlphabet(R.Below(12), "bytesB");
		std::string Want = Expect(Neg, Mag, Frac, NumSep, DecSep, UnitSep, Unit);
		// A little spare room may be asked for: the unit of bytes plus four characters.
		size_t Min = Neg + std::max(Want.size() - Neg + 1, 5 + Unit.size());
		size_t Size = R.Chance(1, 2) ? (size_t)std::max<std::int64_t>(0, (std::int64_t)Min + R.Range(-4, 4)) : (size_t)R.Below(120);
		if (R.Chance(1, 40))  { Frac = (size_t)-1 - R.Below(5); Want.assign(1 << 20, 'x'); Min = Want.size(); }
		if (R.Chance(1, 8))  { Want = Expect(Neg, Mag, 2, 0, '.', ' ', "bytes"); Frac = 2; NumSep = 0; DecSep = '.'; UnitSep = ' '; Unit = "bytes"; Min = Neg + std::max(Want.size() - Neg + 1, 5 + Unit.size()); }
		std::string In = H::Format("%s%llu frac %zu separators %d %d %d unit \"%s\" into %zu bytes", Neg ? "-" : "", (unsigned long long)Mag, Frac, NumSep, DecSep, UnitSep, Unit.c_str(), Size);
		CL::LogSig = H::Hash(In, CL::LogSig);
		char *B = (char *)malloc(Size), *Un = strdup(Unit.c_str());
		memset(B, 0xA5, Size);
		bool Def = Frac == 2 && !NumSep && DecSep == '.' && UnitSep == ' ' && Unit == "bytes" && R.Chance(1, 2);
		bool Ok;
		if (Def)  Ok = Signed ? Convert::Int::ToFilesizeString(B, Size, I) : Convert::Int::ToFilesizeString(B, Size, U);
		else  Ok = Signed ? Convert::Int::ToFilesizeString(B, Size, I, Frac, NumSep, DecSep, UnitSep, Un) : Convert::Int::ToFilesizeString(B, Size, U, Frac, NumSep, DecSep, UnitSep, Un);
		bool Small = Mag < 1024000;
		if (Frac > 1000 && Small)  Want = Expect(Neg, Mag, 0, NumSep, DecSep, UnitSep, Unit), Min = Neg + std::max(Want.size() - Neg + 1, 5 + Unit.size());
		if (Ok)
		{
			if (Want.size() + 1 > Size)  Bad("success-without-room", In + " reported success; the text is \"" + Want.substr(0, 100) + "\"");
			size_t n = strnlen(B, Size);
			if (n != Want.size() || memcmp(B, Want.data(), n))  Bad("wrong-text", In + " gave \"" + H::Escape(std::string(B, n)) + "\", not \"" + Want.substr(0, 100) + "\"");
			H::Count("converted");
			H::Count(("unit:" + std::string(1, Mag < 1024 ? 'b' : Want[Want.size() - 2])).c_str());
		}
		else
		{
			if (Size >= Min)  Bad("failed-with-room", In + " failed; the text is \"" + Want.substr(0, 100) + "\"");
			H::Count("refused");
		}
		free(B);
		free(Un);
		if (H::WantSample())  H::Sample(In + " -> " + (Ok ? Want : "refused"));
	}
	H::Sig(CL::LogSig);
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
