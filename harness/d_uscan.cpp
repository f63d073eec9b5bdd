// C18: scanning UTF-8 strings.
#include "utflib.h"
using namespace UL;
using CubicleSoft::UTF8::Util;

static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	for (int k = 0; k < 4; k++)
	{
		bool Valid;
		Units U = AnyText(R, 1, false, Valid);
		U.push_back(0);
		Mem S(U, 1);
		const char *Str = (const char *)S.P;
		size_t Bytes = U.size() - 1;
		// The characters up to the first malformed byte.
		std::vector<Cp> C;
		for (size_t i = 0; i < Bytes; )
		{
			std::uint32_t c;
			size_t n = Seq((const std::uint8_t *)Str + i, Bytes - i, c);
			if (!n)  break;
			C.push_back({c, i, i + n});
			i += n;
		}
		if (C.size() && Combining(C[0].C))  C.clear();
		auto HasComb = [&](size_t i) { return i + 1 < C.size() && Combining(C[i + 1].C); };
		std::string What = Show(U);
		CL::Ev(What);

		{
			std::uint32_t Res = 0xA5A5A5A5, Next = 0xA5A5A5A5;
			size_t Pos = 0, Size = 0xA5A5;
			bool Comb = R.Chance(1, 2);
			for (size_t i = 0; ; i++)
			{
				size_t Before = Pos;
				bool Ok = Util::NextCodePoint(Res, Next, Str, Pos, Size, Comb);
				if (Ok != (i < C.size()))  Bad(Ok ? "extra-character" : "missing-character", H::Format("stepping through %s: step %zu returned %d, there are %zu characters", What.c_str(), i, Ok, C.size()));
				if (!Ok)  break;
				if (Res != C[i].C)  Bad("wrong-character", H::Format("stepping through %s: step %zu gave U+%X, not U+%X", What.c_str(), i, Res, C[i].C));
				if (Next != (i + 1 < C.size() ? C[i + 1].C : 0))  Bad("wrong-lookahead", H::Format("stepping through %s: step %zu looked ahead to U+%X", What.c_str(), i, Next));
				if (Comb != HasComb(i))  Bad("wrong-combining", H::Format("stepping through %s: step %zu says combining=%d", What.c_str(), i, Comb));
				if (Pos > Bytes || Pos < Before || Pos != (i + 1 < C.size() ? C[i + 1].End : C[i].End))  Bad("wrong-position", H::Format("stepping through %s: step %zu is at %zu", What.c_str(), i, Pos));
				if (Size != Bytes)  Bad("wrong-size", H::Format("stepping through %s: size %zu, not %zu", What.c_str(), Size, Bytes));
			}
			if (Util::NextCodePoint(Res, Next, Str, Pos, Size, Comb))  Bad("extra-character", "stepping past the end of " + What + " reported a character");
		}
		size_t Want = 0;
		for (size_t i = 0; i < C.size(); i++)  Want += !HasComb(i);
		size_t Got = Util::strlen(Str);
		if (Got != Want)  Bad("wrong-length", H::Format("%s counts %zu characters, not %zu", What.c_str(), Got, Want));

		for (int f = 0; f < 3; f++)
		{
			std::uint32_t c = C.size() && R.Chance(2, 3) ? R.Pick(C).C : AnyCp(R);
			bool Allow = R.Chance(1, 2);
			size_t At = (size_t)-1;
			if (Allow || !Combining(c))
			{
				for (size_t i = 0; i < C.size() && At == (size_t)-1; i++)  if (C[i].C == c && (Allow || !HasComb(i)))  At = C[i].Start;
			}
			size_t Pos = 0xA5A5;
			bool Ok = R.Chance(1, 4) && !Allow ? Util::FindCodePoint(Pos, c, Str) : Util::FindCodePoint(Pos, c, Str, Allow);
			if (Ok != (At != (size_t)-1))  Bad("wrong-find", H::Format("looking for U+%X (combining %d) in %s returned %d", c, Allow, What.c_str(), Ok));
			if (Ok && Pos != At)  Bad("wrong-find", H::Format("U+%X (combining %d) in %s found at %zu, not %zu", c, Allow, What.c_str(), Pos, At));
			H::Count(Ok ? "found" : "not-found");
			if (Util::IsCombiningCodePoint(c) != Combining(c))  Bad("wrong-combining", H::Format("U+%X: combining=%d", c, Util::IsCombiningCodePoint(c)));
		}
		{
			std::vector<char> As;
			for (size_t i = 0; i < C.size(); i++)  if (C[i].C < 0x80 && !HasComb(i))  As.push_back((char)C[i].C);
			char Ch = 'x';
			std::uint32_t Next = 0;
			size_t Pos = 0, Size = 0;
			for (size_t i = 0; ; i++)
			{
				bool Ok = Util::NextASCIICodePoint(Ch, Next, Str, Pos, Size);
				if (Ok != (i < As.size()))  Bad("wrong-ascii", H::Format("ASCII characters of %s: step %zu returned %d, there are %zu", What.c_str(), i, Ok, As.size()));
				if (!Ok)  break;
				if (Ch != As[i])  Bad("wrong-ascii", H::Format("ASCII characters of %s: step %zu gave %02X, not %02X", What.c_str(), i, (unsigned char)Ch, (unsigned char)As[i]));
			}
		}
		H::Count(Valid ? "valid-text" : "damaged-text");
		H::Count("characters", C.size());
	}
	{
		std::uint32_t c = R.Chance(1, 2) ? AnyCp(R) : (std::uint32_t)R.Next();
		if (Util::IsCombiningCodePoint(c) != Combining(c))  Bad("wrong-combining", H::Format("U+%X: combining=%d", c, Util::IsCombiningCodePoint(c)));
	}
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail());
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
