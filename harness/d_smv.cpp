// C19: fixed-capacity variants (StaticMixedVar, UTF8MixedVar) against a model string.
#include "utflib.h"
#include "utf8/utf8_mixed_var.h"
using namespace UL;
using namespace CubicleSoft;

struct Model
{
	int Mode = 0;
	std::int64_t I = 0;
	double D = 0;
	std::string S;
};
static std::string Num(bool Neg, std::uint64_t m, unsigned Radix)
{
	std::string r;
	do { r.insert(r.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[m % Radix]); m /= Radix; } while (m);
	return Neg ? "-" + r : r;
}
static std::string Dbl(double d, size_t Prec) { char b[2000]; snprintf(b, sizeof(b), "%.*g", (int)Prec, d); return b; }
static double AnyDouble(H::Rng &R)
{
	switch (R.Below(5))
	{
		case 0:  return (double)R.Range(-1000, 1000);
		case 1:  { std::uint64_t b = R.Next(); double d; memcpy(&d, &b, 8); return d == d ? d : 0.5; }
		case 2:  return R.Pick(std::vector<double>{0.0, -0.0, 1e100, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 123456789.125, 1e-5, 1e16, 2.2250738585072014e-308});
	}
	return (double)R.Range(-100000, 100000) / 1024;
}

// The wide-character operations exist only on one of the two.
template <class V> struct Wide { static const bool Has = false; template <class... X> static void Set(V &, X...) {} static void Append(V &, const wchar_t *) {} static void From(V &, wchar_t *, size_t &) {} };
template <class T> struct Wide<UTF8::UTF8MixedVar<T>>
{
	typedef UTF8::UTF8MixedVar<T> V;
	static const bool Has = true;
	static void Set(V &v, const wchar_t *s, size_t n) { v.SetUTF8(s, n); }
	static void Set(V &v, const wchar_t *s) { v.SetUTF8(s); }
	static void Append(V &v, const wchar_t *s) { v.AppendUTF8(s); }
	static void From(V &v, wchar_t *d, size_t &n) { v.ConvertFromUTF8(d, n); }
};

template <class V> static void Check(V *v, const Model &m, size_t Cap)
{
	if ((int)v->MxMode != m.Mode)  Bad("wrong-type", H::Format("type is %d, not %d", (int)v->MxMode, m.Mode));
	if (v->IsNone() != (m.Mode == MV_None) || v->IsBool() != (m.Mode == MV_Bool) || v->IsInt() != (m.Mode == MV_Int) || v->IsUInt() != (m.Mode == MV_UInt) || v->IsDouble() != (m.Mode == MV_Double) || v->IsStr() != (m.Mode == MV_Str))  Bad("wrong-type", "the type queries disagree");
	if (v->GetInt() != m.I || v->GetUInt() != (std::uint64_t)m.I || v->GetBool() != (m.I != 0))  Bad("wrong-value", H::Format("integer is %lld, not %lld", (long long)v->GetInt(), (long long)m.I));
	double d = v->GetDouble();
	if (memcmp(&d, &m.D, sizeof(d)))  Bad("wrong-value", H::Format("double is %g, not %g", d, m.D));
	if (v->GetSize() != m.S.size())  Bad("wrong-size", H::Format("size is %zu, not %zu", v->GetSize(), m.S.size()));
	if (v->GetMaxSize() != Cap || v->GetSize() >= Cap)  Bad("wrong-capacity", H::Format("size %zu capacity %zu", v->GetSize(), v->GetMaxSize()));
	if (memcmp(v->GetStr(), m.S.data(), m.S.size()))  Bad("wrong-text", "the text is \"" + H::Escape(std::string(v->GetStr(), v->GetSize())) + "\", not \"" + H::Escape(m.S) + "\"");
	if (v->GetStr()[m.S.size()])  Bad("not-terminated", "the text is not terminated");
}

template <class V> static void Go(H::Rng &R, size_t Cap, const char *Name)
{
	CL::LogReset();
	CL::Ev(Name);
	std::vector<V *> Vs;
	std::vector<Model> Ms;
	size_t Count = (size_t)R.Range(1, 2);
	for (size_t i = 0; i < Count; i++)
	{
		void *p = malloc(sizeof(V));
		memset(p, 0xA5, sizeof(V));
		Vs.push_back(new (p) V);
		Ms.push_back(Model());
		Check(Vs[i], Ms[i], Cap);
	}
	bool Full = false;
	for (std::uint64_t Steps = R.Range(1, 40); Steps; Steps--)
	{
		size_t w = R.Below(Count);
		V *v = Vs[w];
		Model &m = Ms[w];
		auto Add = [&](const std::string &s) { m.S += s; if (m.S.size() > Cap - 1)  { m.S.resize(Cap - 1); Full = true; } };
		auto Pre = [&](const std::string &s) { if (m.S.size() + s.size() < Cap)  m.S = s + m.S;  else  Full = true; };
		// Text around what is still free.
		size_t Free = Cap - 1 - m.S.size();
		size_t n = R.Chance(1, 3) ? (size_t)std::max<std::int64_t>(0, (std::int64_t)Free + R.Range(-2, 2)) : R.Chance(1, 4) ? (size_t)R.Below(Cap + 5) : (size_t)R.Below(6);
		std::string t = R.FromAlphabet(n, R.Chance(1, 4) ? std::string("ab\0\xFFz", 5) : "abcdefgh,.");
		std::string z = t.substr(0, t.find('\0'));
		bool Zero = R.Chance(1, 2);
		CL::Exact E(Zero ? z + '\0' : t);
		std::int64_t I = (std::int64_t)R.U64();
		unsigned Radix = R.Chance(1, 2) ? 10 : R.Chance(1, 2) ? 2 : (unsigned)R.Range(2, 36);
		if (R.Chance(1, 6))  I = R.Chance(1, 2) ? INT64_MIN : R.Chance(1, 2) ? -1 : INT64_MAX;
		double D = AnyDouble(R);
		bool Def = R.Chance(1, 2);              // leave out arguments that have the default value
		size_t Prec = R.Chance(1, 2) ? 16 : R.Chance(1, 2) ? (size_t)R.Below(25) : (size_t)R.Below(900);
		switch (R.Below(20))
		{
			case 0:  CL::Ev("SetBool"); v->SetBool(Zero); m.Mode = MV_Bool; m.I = Zero;  break;
			case 1:  CL::Ev("SetInt"); v->SetInt(I); m.Mode = MV_Int; m.I = I;  break;
			case 2:  CL::Ev("SetUInt"); v->SetUInt((std::uint64_t)I); m.Mode = MV_UInt; m.I = I;  break;
			case 3:  CL::Ev("SetDouble"); v->SetDouble(D); m.Mode = MV_Double; m.D = D;  break;
			case 4:  case 5:
				CL::Ev("Set " + H::Escape(t, 40));
				if (Zero)  v->SetStr(E.P);
				else  v->SetData(E.P, E.N);
				m.Mode = MV_Str;
				m.S.clear();
				Add(Zero ? z : t);
				break;
			case 6:  case 7:
				CL::Ev("Prepend " + H::Escape(t, 40));
				if (Zero)  v->PrependStr(E.P);
				else  v->PrependData(E.P, E.N);
				Pre(Zero ? z : t);
				break;
			case 8:  case 9:  case 10:
				CL::Ev("Append " + H::Escape(t, 40));
				if (Zero)  v->AppendStr(E.P);
				else  v->AppendData(E.P, E.N);
				Add(Zero ? z : t);
				break;
			case 11:
				CL::Ev(H::Format("PrependInt %lld/%u", (long long)I, Radix));
				if (Zero)  { { if (Def && Radix == 10)  v->PrependInt(I); else  v->PrependInt(I, Radix); } Pre(Num(I < 0, I < 0 ? 0 - (std::uint64_t)I : (std::uint64_t)I, Radix)); }
				else  { { if (Def && Radix == 10)  v->PrependUInt((std::uint64_t)I); else  v->PrependUInt((std::uint64_t)I, Radix); } Pre(Num(false, (std::uint64_t)I, Radix)); }
				break;
			case 12:
				CL::Ev(H::Format("AppendInt %lld/%u", (long long)I, Radix));
				if (Zero)  { { if (Def && Radix == 10)  v->AppendInt(I); else  v->AppendInt(I, Radix); } Add(Num(I < 0, I < 0 ? 0 - (std::uint64_t)I : (std::uint64_t)I, Radix)); }
				else  { { if (Def && Radix == 10)  v->AppendUInt((std::uint64_t)I); else  v->AppendUInt((std::uint64_t)I, Radix); } Add(Num(false, (std::uint64_t)I, Radix)); }
				break;
			case 13:
				CL::Ev(H::Format("Double %g/%zu", D, Prec));
				if (Zero)  { { if (Def && Prec == 16)  v->AppendDouble(D); else  v->AppendDouble(D, Prec); } Add(Dbl(D, Prec)); }
				else  { { if (Def && Prec == 16)  v->PrependDouble(D); else  v->PrependDouble(D, Prec); } Pre(Dbl(D, Prec)); }
				break;
			case 14:
			{
				char c = t.size() ? t[0] : 'q';
				CL::Ev("AppendChar");
				v->AppendChar(c);
				Add(std::string(1, c));
				break;
			}
			case 15:
			{
				char c = m.S.size() && R.Chance(1, 2) ? m.S.back() : 'k';
				CL::Ev("AppendMissingChar");
				v->AppendMissingChar(c);
				if (!m.S.size() || m.S.back() != c)  Add(std::string(1, c));
				break;
			}
			case 16:
			{
				char c = m.S.size() && R.Chance(2, 3) ? m.S.back() : 'k';
				bool Want = m.S.size() && m.S.back() == c;
				CL::Ev("RemoveTrailingChar");
				if (v->RemoveTrailingChar(c) != Want)  Bad("wrong-result", "removing a trailing character returned the wrong answer");
				if (Want)  m.S.pop_back();
				break;
			}
			case 17:
			{
				size_t k = R.Chance(1, 3) ? Cap - 1 + R.Below(3) : R.Below(Cap + 4);
				CL::Ev(H::Format("SetSize %zu", k));
				v->SetSize(k);
				if (k < Cap)
				{
					size_t Old = m.S.size();
					m.S.resize(k, 'r');
					// What a longer size uncovers is for the caller to fill.
					if (k > Old)
					{
						if (v->GetSize() != k)  Bad("wrong-size", "resizing did not take effect");
						memset(v->GetStr() + Old, 'r', k - Old);
					}
				}
				break;
			}
			case 18:
				if (Wide<V>::Has)
				{
					bool Valid;
					Units U = AnyText(R, 4, false, Valid);
					for (std::uint64_t j = R.Below(3) * Cap / 4; j; j--)  U.push_back((std::uint32_t)R.Pick(std::vector<int>{'x', 0xE9, 0x20AC, 0x1F600}));
					size_t Last;
					bool Term = R.Chance(1, 2);
					Units Ut = U;
					Ut.push_back(0);
					Mem S(Ut, 4), S0(U, 4);
					CL::Ev("wide " + Show(U));
					if (Zero)
					{
						Units Want = Convert(U, 4, 1, Cap - 1, Last);
						if (Term)  { if (R.Chance(1, 2))  Wide<V>::Set(*v, (wchar_t *)S.P);  else  Wide<V>::Set(*v, (wchar_t *)S.P, Ut.size()); }
						else  Wide<V>::Set(*v, (wchar_t *)S0.P, U.size());
						m.Mode = MV_Str;
						m.S.assign(Want.begin(), Want.end());
					}
					else
					{
						Units Want = Convert(U, 4, 1, Cap - 1 - m.S.size(), Last);
						Wide<V>::Append(*v, (wchar_t *)S.P);
						m.S.append(Want.begin(), Want.end());
					}
					H::Count("wide-text");
				}
				break;
			case 19:
				if (Wide<V>::Has && R.Chance(1, 2))
				{
					Units U;
					for (unsigned char c : m.S)  U.push_back(c);
					U.push_back(0);
					size_t Last, k = R.Chance(1, 2) ? U.size() : R.Below(U.size() + 2), n2 = k;
					Units Want = Convert(U, 1, 4, k, Last);
					Mem D2(k, 4);
					CL::Ev("to wide");
					Wide<V>::From(*v, (wchar_t *)D2.P, n2);
					if (n2 > k || Read(D2.P, n2, 4) != Want)  Bad("wrong-wide", "conversion to wide characters gave the wrong text");
				}
				else if (Count > 1)
				{
					CL::Ev("assign");
					*Vs[w] = *Vs[1 - w];
					Ms[w] = Ms[1 - w];
				}
				break;
		}
		for (size_t i = 0; i < Count; i++)  Check(Vs[i], Ms[i], Cap);
	}
	for (size_t i = 0; i < Count; i++)
	{
		Vs[i]->~V();
		free((void *)Vs[i]);
	}
	if (Full)  H::Count("reached-capacity");
	H::Count(Name);
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(20));
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	switch (R.Below(12))
	{
		case 0:  Go<StaticMixedVar<char[1]>>(R, 1, "static 1");  break;
		case 1:  Go<StaticMixedVar<char[2]>>(R, 2, "static 2");  break;
		case 2:  Go<StaticMixedVar<char[8]>>(R, 8, "static 8");  break;
		case 3:  Go<StaticMixedVar<char[33]>>(R, 33, "static 33");  break;
		case 4:  Go<StaticMixedVar<char[64]>>(R, 64, "static 64");  break;
		case 5:  Go<StaticMixedVar<char[1000]>>(R, 1000, "static 1000");  break;
		case 6:  Go<UTF8::UTF8MixedVar<char[1]>>(R, 1, "utf8 1");  break;
		case 7:  Go<UTF8::UTF8MixedVar<char[4]>>(R, 4, "utf8 4");  break;
		case 8:  Go<UTF8::UTF8MixedVar<char[16]>>(R, 16, "utf8 16");  break;
		case 9:  Go<UTF8::UTF8MixedVar<char[37]>>(R, 37, "utf8 37");  break;
		case 10:  Go<UTF8::UTF8MixedVar<char[128]>>(R, 128, "utf8 128");  break;
		case 11:  Go<UTF8::UTF8MixedVar<char[8192]>>(R, 8192, "utf8 8192");  break;
	}
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
