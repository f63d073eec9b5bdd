// C22: small buffers. Every program runs on one large buffer and on small ones that are drained when a call is refused.
#include "jsonlib.h"
using namespace JL;

static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	size_t Depth = R.Chance(1, 3) ? (size_t)R.Range(1, 6) : 30;
	bool Esc = R.Chance(1, 2);
	const char *KS = KeySplits[R.Below(5)], *VS = ValSplits[R.Below(5)];
	Ser Big(Esc, KS, VS, Depth);
	size_t Cap = 1 << 17;
	std::vector<char> BB(Cap);
	Big.SetBuffer((std::uint8_t *)BB.data(), Cap);
	alignas(Ser) unsigned char Room[sizeof(Ser)];
	memset(Room, 0xA5, sizeof(Room));
	Ser *S = new (Room) Ser(Esc, KS, VS, Depth);
	std::string Out;
	char *B = NULL;
	size_t Size = 0;
	unsigned MaxSize = R.Chance(1, 3) ? 6 : R.Chance(1, 2) ? 40 : 200;
	auto NewBuf = [&](size_t Want)
	{
		free(B);
		Size = Want;
		B = (char *)malloc(Size);
		memset(B, 0xA5, Size);
		S->SetBuffer((std::uint8_t *)B, Size);
		CL::Ev(H::Format("buffer of %zu", Size));
		if (S->GetBuffer() != (std::uint8_t *)B || S->GetCurrPos())  Bad("new-buffer", "a new buffer does not start empty");
		if (S->GetBufferSize() != (Size ? Size - 1 : 0))  Bad("new-buffer", H::Format("a buffer of %zu bytes says it holds %zu", Size, S->GetBufferSize()));
	};
	if (R.Chance(1, 10))
	{
		// No buffer yet: nothing fits.
		Model M(Depth);
		Op O;
		do  O = AnyOp(R, M, 8);  while (O.K >= FIN);
		CL::Ev("no buffer, " + O.Show());
		if (Do(*S, O) || S->GetCurrPos())  Bad("no-buffer", "a call without a buffer was accepted");
	}
	NewBuf(R.Below(MaxSize + 1));
	Model M(Depth);
	size_t n = (size_t)R.Below(40) + 1;
	bool Multi = false;
	for (size_t i = 0; i <= n; i++)
	{
		Op O;
		if (i == n)  O.K = FIN;
		else  O = AnyOp(R, M, R.Chance(1, 10) ? 120 : 10);
		if (i == n && M.Root.empty())  break;
		size_t P0 = Big.GetCurrPos();
		size_t Est = (size_t)-1, EstKey = (size_t)-1;
		char Mode = M.Mode();
		if (O.K == STR)  Est = S->CalculateStrSize(O.S.c_str());
		if (O.K == STRN)  { Mem N(O.S, false); Est = S->CalculateStrSize(N.P, O.S.size()); }
		if (O.HasKey)  EstKey = R.Chance(1, 2) ? S->CalculateStrSize(O.Key.c_str(), true) : S->CalculateStrSize(O.Key.c_str(), O.Key.size(), true);
		bool Want = Do(Big, O);
		size_t Need = Big.GetCurrPos() - P0;
		std::string Added(BB.data() + P0, Need);
		CL::Ev(O.Show());
		bool Done = false;
		for (unsigned Try = 0; !Done; Try++)
		{
			size_t Pos = S->GetCurrPos();
			std::string Snap(B, Size);
			Ser::ModeType Md = S->GetCurrMode();
			bool Got = Do(*S, O);
			size_t Now = S->GetCurrPos();
			if (Now > S->GetBufferSize())  Bad("position", "the position is beyond the buffer after " + O.Show());
			if (Got && !Want)  Bad("accepted", "accepted with a small buffer, refused with a large one: " + O.Show());
			if (O.K != FIN)
			{
				if (Got && Now - Pos != Need)  Bad("different", "appended a different amount than with a large buffer: " + O.Show());
				if (Got && Need && (memcmp(B + Pos, Added.data(), Need) || B[Now]))  Bad("different", "appended something different than with a large buffer: " + O.Show());
				if (!Got && (Now != Pos || S->GetCurrMode() != Md || memcmp(B, Snap.data(), std::min(Size, Pos + 1))))  Bad("refused-changed", "a refused call changed something: " + O.Show());
				size_t Extra = O.K == BOOL && O.B ? 1 : 0;
				if (!Got && Want && Size && Pos + Need + Extra <= Size - 1)  Bad("refused-fits", H::Format("refused though it needs %zu of %zu bytes at %zu: ", Need, Size - 1, Pos) + O.Show());
			}
			if (Got == Want && (Got || O.K != FIN))  { Done = true; if (Got)  H::Count("calls-accepted"); break; }
			if (!Want)  break;
			// Out of room: drain and repeat.
			H::Count("drains");
			Multi = true;
			Out.append(B, Now);
			size_t Least = O.K == FIN ? 1 : Need + 1;
			if (Now == 0 || Size < 1 || R.Chance(1, 4))
			{
				size_t Ns = Now == 0 ? (size_t)R.Range(1, 3) * Least + (Try > 3 ? 8 : 0) : R.Below(MaxSize + 1);
				NewBuf(Ns);
			}
			else
			{
				if (R.Chance(1, 4))  S->SetBuffer((std::uint8_t *)B, Size);
				else  S->ResetPos();
				CL::Ev("drained");
				if (S->GetCurrPos())  Bad("reset-position", "the position is not 0 after draining");
			}
			if (Try > 400)  Bad("never-fits", "a call does not fit however large the buffer is: " + O.Show());
		}
		if (Want)
		{
			M.Apply(O);
			if (Est != (size_t)-1 && !O.HasKey)
			{
				// The estimate covers the string and its quotes.
				size_t Split = 0;
				if (Mode == 'a' && P0)  while (Split < Added.size() && Added[Split] != '"')  Split++;
				if (Need - Split > Est)  Bad("estimate", H::Format("estimated %zu bytes, wrote %zu: ", Est, Need - Split) + O.Show());
			}
			if (EstKey != (size_t)-1 && O.K != STR && O.K != STRN)
			{
				size_t V = O.K == SO || O.K == SA || O.K == SS ? 1 : O.K == NUL ? 4 : O.K == BOOL ? (O.B ? 4 : 5) : 0;
				size_t Split = 0;
				while (Split < Added.size() && Added[Split] != '"')  Split++;
				if (V && Need - Split - V > EstKey)  Bad("estimate", H::Format("estimated %zu bytes for the key, wrote %zu: ", EstKey, Need - Split - V) + O.Show());
			}
		}
	}
	Out.append(B, S->GetCurrPos());
	std::string Ref(BB.data(), Big.GetCurrPos());
	if (Out != Ref)  Bad("document", "drained document " + H::Escape(Out, 800) + " differs from " + H::Escape(Ref, 800));
	if (Multi)  H::Count("drained-documents");
	H::Count("documents");
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(12));
	S->~Ser();
	free(B);
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
