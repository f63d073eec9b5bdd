// C17: conversion between UTF-8, UTF-16 and UTF-32.
#include "utflib.h"
using namespace UL;
using CubicleSoft::UTF8::Util;

static void *MallocMgr;
static std::map<void *, size_t> Given;
static void *AltMalloc(void *m, size_t n)
{
	if (m != MallocMgr)  Bad("allocator-manager", "the custom allocator was called without its manager");
	A::Outside O;
	void *p = malloc(n);
	memset(p, 0xA5, n);
	Given[p] = n;
	return p;
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	A::Reset();
	static const unsigned Widths[] = {1, 2, 4};
	for (int k = 0; k < 4; k++)
	{
		bool To = R.Chance(1, 2);
		unsigned SW = To ? Widths[R.Below(3)] : 1, DW = To ? 1 : Widths[R.Below(3)];
		bool Alloc = R.Chance(1, 4), Valid;
		Units U = AnyText(R, SW, !Alloc, Valid);
		bool Term = Alloc || R.Chance(1, 2);
		if (Term)  U.push_back(0);
		std::string What = H::Format("%s %u->%u %s", To ? "to" : "from", SW, DW, Show(U).c_str());
		CL::Ev(What);
		Mem S(U, SW);
		size_t Last, Chars;
		Units Want = Convert(U, SW, DW, (size_t)-1, Last, &Chars);
		if (Alloc)
		{
			bool Alt = R.Chance(1, 2);
			MallocMgr = &Chars;
			Given.clear();
			size_t GotLast = 0xA5A5;
			bool UseLast = R.Chance(1, 2);
			void *P;
			{
				A::Scope Sc;
				P = To ? (void *)(Alt ? Util::ConvertToUTF8(S.P, SW, UseLast ? &GotLast : NULL, MallocMgr, AltMalloc) : UseLast ? Util::ConvertToUTF8(S.P, SW, &GotLast) : Util::ConvertToUTF8(S.P, SW))
					: (Alt ? Util::ConvertFromUTF8((char *)S.P, DW, MallocMgr, AltMalloc) : Util::ConvertFromUTF8((char *)S.P, DW));
			}
			if (!P)  Bad("no-result", What + " gave no result");
			if (Alt && (Given.size() != 1 || !Given.count(P)))  Bad("allocator-ignored", What + " did not use the custom allocator");
			size_t Len = 0; while (Read((char *)P + Len * DW, 1, DW)[0])  Len++;
			if (Len + 1 != Want.size())  Bad("wrong-text", What + H::Format(" gave %zu units, expected ", Len + 1) + Show(Want));
			Units Got = Read(P, Want.size(), DW);
			if (Got != Want)  Bad("wrong-text", What + " gave " + Show(Got) + ", expected " + Show(Want));
			if (To && UseLast && GotLast != Last)  Bad("wrong-position", What + H::Format(" stopped at %zu, not %zu", GotLast, Last));
			if (Alt)  free(P);
			else if (To || DW == 1)  delete[] (std::uint8_t *)P;
			else if (DW == 2)  delete[] (std::uint16_t *)P;
			else  delete[] (std::uint32_t *)P;
			if (A::Live())  Bad("leak", What + " leaked");
			H::Count("allocating");
		}
		else
		{
			// First the size, then into a buffer of some capacity.
			size_t n = R.Chance(1, 2) ? (size_t)-1 : R.Below(50) + 1;
			if (To)  Util::ConvertToUTF8(S.P, U.size(), SW, NULL, n);
			else  Util::ConvertFromUTF8((std::uint8_t *)S.P, U.size(), NULL, n, DW);
			if (n != Want.size())  Bad("wrong-size", What + H::Format(" needs %zu units, %zu were predicted", Want.size(), n));
			size_t Cap = R.Chance(1, 2) ? Want.size() : R.Chance(1, 2) ? R.Below(Want.size() + 2) : (size_t)std::max<std::int64_t>(0, (std::int64_t)Want.size() + R.Range(-5, 5));
			Units Fit = Convert(U, SW, DW, Cap, Last);
			Mem D(Cap, DW);
			size_t GotLast = 0xA5A5;
			bool UseLast = R.Chance(1, 2);
			n = Cap;
			if (To)  Util::ConvertToUTF8(S.P, U.size(), SW, (std::uint8_t *)D.P, n, UseLast ? &GotLast : NULL);
			else  Util::ConvertFromUTF8((std::uint8_t *)S.P, U.size(), D.P, n, DW);
			if (n > Cap)  Bad("wrong-size", What + H::Format(" reported %zu units in a buffer of %zu", n, Cap));
			Units Got = Read(D.P, n, DW);
			if (Got != Fit)  Bad("wrong-text", What + H::Format(" into %zu gave ", Cap) + Show(Got) + ", expected " + Show(Fit));
			if (To && UseLast && GotLast != Last)  Bad("wrong-position", What + H::Format(" into %zu stopped at %zu, not %zu", Cap, GotLast, Last));
			if (Fit.size() < Want.size())  H::Count("buffer-full");
			if (To && UseLast && Fit.size() < Want.size() && Last)
			{
				// Resuming where the conversion stopped gives the rest, unless the rest starts with a combining character.
				Units Rest(U.begin() + Last, U.end());
				size_t Dummy;
				Units RestWant = Convert(Rest, SW, DW, (size_t)-1, Dummy);
				Mem S2(Rest, SW), D2(RestWant.size(), DW);
				size_t n2 = RestWant.size();
				Util::ConvertToUTF8(S2.P, Rest.size(), SW, (std::uint8_t *)D2.P, n2);
				if (Read(D2.P, n2, DW) != RestWant)  Bad("wrong-text", "the rest of " + What + " came out wrong");
			}
			else if (Fit.size() == Want.size() && Valid)
			{
				// And back.
				size_t Dummy;
				Units Back = Convert(Want, DW, SW, (size_t)-1, Dummy);
				Mem S2(Want, DW), D2(Back.size(), SW);
				size_t n2 = Back.size();
				if (To)  Util::ConvertFromUTF8((std::uint8_t *)S2.P, Want.size(), D2.P, n2, SW);
				else  Util::ConvertToUTF8(S2.P, Want.size(), DW, (std::uint8_t *)D2.P, n2);
				if (Read(D2.P, n2, SW) != Back)  Bad("round-trip", What + " does not convert back");
				H::Count("round-trips");
			}
		}
		H::Count(Valid ? "valid-text" : "damaged-text");
		H::Count("characters", Chars);
		H::Count(H::Format("%s:%u", To ? "to-utf8-from" : "from-utf8-to", (To ? SW : DW) * 8).c_str());
	}
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail());
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
