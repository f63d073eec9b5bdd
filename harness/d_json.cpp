// C21: serialized documents parse back to what was appended.
#include "jsonlib.h"
using namespace JL;

static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	size_t Depth = R.Chance(1, 3) ? (size_t)R.Range(1, 6) : R.Chance(1, 2) ? 20 : R.Chance(1, 6) ? 1000 : 512;
	bool Esc = R.Chance(1, 2);
	const char *KS = KeySplits[R.Below(5)], *VS = ValSplits[R.Below(5)];
	CL::Ev(H::Format("depth %zu slashes %d", Depth, Esc));
	alignas(Ser) unsigned char Room[sizeof(Ser)];
	memset(Room, 0xA5, sizeof(Room));
	Ser *S = Depth == 512 && R.Chance(1, 4) ? (KS = ": ", VS = ", ", R.Chance(1, 2) ? (Esc = false, new (Room) Ser()) : new (Room) Ser(Esc)) : new (Room) Ser(Esc, KS, VS, Depth);
	size_t Cap = 1 << 17;
	char *B = (char *)malloc(Cap);
	unsigned Docs = 1 + (unsigned)R.Below(3);
	for (unsigned d = 0; d < Docs; d++)
	{
		if (!d || R.Chance(1, 2))  S->SetBuffer((std::uint8_t *)B, Cap);
		if (d || R.Chance(1, 8))  { CL::Ev("Reset"); S->Reset(); }
		Model M(Depth);
		size_t n = (size_t)R.Below(60) + 1, Nest = R.Chance(1, 30) ? (size_t)R.Range(60, 1100) : 0, Close = Nest && R.Chance(1, 2) ? (size_t)R.Range(1, 1100) : 0;
		for (size_t i = 0; i < Nest + Close + n; i++)
		{
			Op O;
			if (i < Nest)  { O.K = R.Chance(1, 2) ? SO : SA; O.HasKey = M.Mode() == 'o'; O.Key = "k"; }
			else if (i < Nest + Close)  O.K = M.Mode() == 'o' ? EO : EA;
			else  O = AnyOp(R, M, R.Chance(1, 10) ? 200 : 20);
			bool Want = M.Accepts(O);
			size_t Pos = S->GetCurrPos();
			std::string Before(B, Pos);
			CL::Ev(O.Show());
			bool Got = Do(*S, O);
			if (Got && !Want)  Bad("accepted", "a call that does not fit the structure was accepted: " + O.Show());
			if (!Got && Want)  Bad("refused", "a call that fits the structure was refused: " + O.Show());
			size_t Now = S->GetCurrPos();
			if (Now < Pos || memcmp(B, Before.data(), Pos))  Bad("earlier-text", "a call changed earlier text: " + O.Show());
			if (!Got && Now != Pos)  Bad("refused-changed", "a refused call changed the text: " + O.Show());
			if (Got && Now != Pos && B[Now])  Bad("terminator", "the text is not terminated after " + O.Show());
			if (Got)
			{
				if (O.K == ESC)  Esc = O.B;
				if (O.K == STR || O.K == STRN || O.HasKey)
				{
					for (size_t k = Pos; k < Now; k++)
					{
						if (B[k] == '\\')  { k++; if (B[k] == '/' && !Esc)  Bad("slash", "a slash was escaped with escaping off: " + O.Show()); }
						else if (B[k] == '/' && Esc)  Bad("slash", "a slash was not escaped with escaping on: " + O.Show());
					}
					H::Count("strings");
				}
				if (O.K == DBL)  H::Count("doubles");
				M.Apply(O);
			}
			else  H::Count("calls-refused");
			if (S->IsKeyRequired() != (M.Mode() == 'o'))  Bad("key-required", "IsKeyRequired is wrong after " + O.Show());
		}
		if (d + 1 < Docs && R.Chance(1, 2))  { CL::Ev("given up"); H::Count("documents-given-up"); continue; }
		if (M.Root.empty())  { Op O; O.K = NUL; O.Short = true; CL::Ev(O.Show()); if (!Do(*S, O))  Bad("refused", "the root value was refused"); M.Apply(O); }
		CL::Ev("Finish");
		if (!S->Finish())  Bad("refused", "Finish failed");
		std::string Doc(B, S->GetCurrPos());
		Parser P(Doc);
		if (!P.Doc(M.Root[0]))  Bad("document", P.Err + " in " + H::Escape(Doc, 3000));
		H::Count("documents");
		H::Count("bytes", Doc.size());
		if (H::WantSample())  H::Sample(H::Escape(Doc, 400));
	}
	H::Sig(CL::LogSig);
	S->~Ser();
	free(B);
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
