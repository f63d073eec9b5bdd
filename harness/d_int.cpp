// C15: integer to text, stand-alone and inside variant strings and the serializer.
#include "contlib.h"
#include "convert/convert_int.h"
#include "templates/static_mixed_var.h"
#include "sync/sync_tls.h"
#include "json/json_serializer.h"
using namespace CubicleSoft;
using CL::Bad;

// Digits by exact division of a wider type, grouped from the right in threes.
static std::string Text(bool Neg, unsigned __int128 Mag, char Sep, unsigned Radix)
{
	std::string r;
	unsigned k = 0;
	do
	{
		if (Sep && k && k % 3 == 0)  r.insert(r.begin(), Sep);
		r.insert(r.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(unsigned)(Mag % Radix)]);
		Mag /= Radix;
		k++;
	} while (Mag);
	return Neg ? "-" + r : r;
}
static void Check(const char *What, bool Ok, const char *Buf, size_t Size, const std::string &Want, const std::string &In)
{
	bool Fits = Want.size() + 1 <= Size;
	if (Ok != Fits)  Bad(Ok ? "success-without-room" : "failed-with-room", H::Format("%s of %s into %zu bytes returned %d; the text is \"%s\"", What, In.c_str(), Size, Ok, Want.c_str()));
	if (!Ok)  return;
	size_t n = strnlen(Buf, Size);
	if (n != Want.size() || memcmp(Buf, Want.data(), n))  Bad("wrong-text", H::Format("%s of %s gave \"%s\", not \"%s\"", What, In.c_str(), H::Escape(std::string(Buf, n)).c_str(), Want.c_str()));
}

static Sync::TLS *T;
static void Init() { A::Install(); T = new Sync::TLS; if (!T->ThreadInit())  H::HarnessError("ThreadInit"); }

static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	A::Reset();
	for (int k = 0; k < 8; k++)
	{
		bool Signed = R.Chance(1, 2);
		std::uint64_t U = R.U64();
		if (R.Chance(1, 12))  U = R.Pick(std::vector<std::uint64_t>{0, 1, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0x8000000000000001ull, ~0ull, 1000, 999, 1000000, 9999999});
		unsigned Radix = R.Chance(1, 2) ? 10 : R.Chance(1, 3) ? R.Pick(std::vector<unsigned>{2, 8, 16, 36}) : (unsigned)R.Range(2, 36);
		if (R.Chance(1, 8))
		{
			// Powers of the radix and their neighbours.
			unsigned __int128 p = 1;
			for (std::uint64_t j = R.Below(64); j && p * Radix < ((unsigned __int128)1 << 64); j--)  p *= Radix;
			U = (std::uint64_t)p + (std::uint64_t)R.Range(-1, 1);
		}
		std::int64_t I = (std::int64_t)U;
		bool Neg = Signed && I < 0;
		unsigned __int128 Mag = Neg ? (unsigned __int128)(-(__int128)I) : Signed ? (unsigned __int128)I : U;
		char Sep = R.Chance(1, 2) ? '\0' : R.Chance(1, 2) ? ',' : (char)R.Range(1, 255);
		std::string In = Signed ? std::to_string((long long)I) : std::to_string((unsigned long long)U);
		In += H::Format(" radix %u separator %d", Radix, (unsigned char)Sep);
		std::string Want = Text(Neg, Mag, Sep, Radix), Bare = Text(Neg, Mag, 0, Radix), Dec = Text(Neg, Mag, 0, 10);
		CL::LogSig = H::Hash(In, CL::LogSig);
		{
			// Buffers from far too small to larger than needed, exactly as large as said.
			size_t Size = R.Chance(1, 2) ? (size_t)std::max<std::int64_t>(0, (std::int64_t)Want.size() + R.Range(-3, 4)) : (size_t)R.Below(100);
			char *B = (char *)malloc(Size);
			memset(B, 0xA5, Size);
			bool Ok = Signed ? Convert::Int::ToString(B, Size, I, Sep, Radix) : Convert::Int::ToString(B, Size, U, Sep, Radix);
			Check("Convert::Int::ToString", Ok, B, Size, Want, In);
			H::Count(Ok ? "converted" : "refused");
			free(B);
			if (R.Chance(1, 16))
			{
				size_t BadRadix = R.Pick(std::vector<size_t>{0, 1, 37, 100, (size_t)-1});
				char b[80];
				bool Ok2 = Signed ? Convert::Int::ToString(b, sizeof(b), I, Sep, BadRadix) : Convert::Int::ToString(b, sizeof(b), U, Sep, BadRadix);
				if (Ok2)  Bad("bad-radix", H::Format("radix %zu was accepted", BadRadix));
			}
			if (R.Chance(1, 4))
			{
				char b[80];
				bool Ok2 = Signed ? Convert::Int::ToString(b, sizeof(b), I) : Convert::Int::ToString(b, sizeof(b), U);
				Check("Convert::Int::ToString by default", Ok2, b, sizeof(b), Dec, In);
			}
		}
		if (k < 4)
		{
			size_t Size = R.Chance(1, 2) ? (size_t)std::max<std::int64_t>(0, (std::int64_t)Bare.size() + R.Range(-3, 4)) : (size_t)R.Below(100);
			char *B = (char *)malloc(Size);
			memset(B, 0xA5, Size);
			bool Ok;
			if (Radix == 10 && R.Chance(1, 2))
			{
				// The default radix.
				if (R.Chance(1, 2))  Ok = Signed ? StaticMixedVar<char[64]>::IntToString(B, Size, I) : StaticMixedVar<char[64]>::IntToString(B, Size, U);
				else  Ok = Signed ? Sync::TLS::MixedVar::IntToString(B, Size, I) : Sync::TLS::MixedVar::IntToString(B, Size, U);
			}
			else if (R.Chance(1, 2))  Ok = Signed ? StaticMixedVar<char[64]>::IntToString(B, Size, I, Radix) : StaticMixedVar<char[64]>::IntToString(B, Size, U, Radix);
			else  Ok = Signed ? Sync::TLS::MixedVar::IntToString(B, Size, I, Radix) : Sync::TLS::MixedVar::IntToString(B, Size, U, Radix);
			Check("MixedVar::IntToString", Ok, B, Size, Bare, In);
			free(B);
		}
		switch (R.Below(4))
		{
			case 0:
			{
				std::string Pre = R.FromAlphabet(R.Below(6), "abc");
				bool Front = R.Chance(1, 2);
				StaticMixedVar<char[120]> *V = new StaticMixedVar<char[120]>;
				V->SetStr(Pre.c_str());
				if (Front)  { if (Signed)  V->PrependInt(I, Radix);  else  V->PrependUInt(U, Radix); }
				else if (Signed)  V->AppendInt(I, Radix);
				else  V->AppendUInt(U, Radix);
				std::string Got(V->GetStr(), V->GetSize());
				if (Got != (Front ? Bare + Pre : Pre + Bare))  Bad("wrong-text", "fixed variant holds \"" + H::Escape(Got) + "\" after adding " + In + " to \"" + Pre + "\"");
				delete V;
				H::Count("fixed-variant");
				break;
			}
			case 1:
			{
				std::string Pre = R.FromAlphabet(R.Below(6), "abc");
				bool Front = R.Chance(1, 2);
				Sync::TLS::MixedVar V(T);
				V.SetStr(Pre.c_str());
				if (Front)  { if (Signed)  V.PrependInt(I, Radix);  else  V.PrependUInt(U, Radix); }
				else if (Signed)  V.AppendInt(I, Radix);
				else  V.AppendUInt(U, Radix);
				std::string Got(V.GetStr(), V.GetSize());
				if (Got != (Front ? Bare + Pre : Pre + Bare))  Bad("wrong-text", "growable variant holds \"" + H::Escape(Got) + "\" after adding " + In + " to \"" + Pre + "\"");
				H::Count("growable-variant");
				break;
			}
			case 2:
			{
				std::uint8_t *B = (std::uint8_t *)malloc(64);
				JSON::Serializer S;
				S.SetBuffer(B, 64);
				bool Ok = Signed ? S.AppendInt(I) : S.AppendUInt(U);
				Ok = Ok && S.Finish();
				std::string Got((char *)S.GetBuffer(), S.GetCurrPos());
				if (!Ok || Got != Dec)  Bad("wrong-text", "serializer wrote \"" + H::Escape(Got) + "\" for " + In);
				free(B);
				H::Count("serializer");
				break;
			}
		}
		H::Count(Neg ? "negative" : "non-negative");
	}
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(H::Format("eight conversions, last signature %llx", (unsigned long long)CL::LogSig));
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, Init); }
