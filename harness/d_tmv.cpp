// C20: growable variants (Sync::TLS::MixedVar) against model strings.
#include "findlib.h"
#include "sync/sync_tls.h"
using namespace CubicleSoft;
using CL::Bad;
typedef Sync::TLS::MixedVar V;

struct Model
{
	int Mode = 0, Tls = 0;
	std::int64_t I = 0;
	double D = 0;
	std::string S;
	bool Fresh = true;
};
static std::string Num(bool Neg, std::uint64_t m, unsigned Radix)
{
	std::string r;
	do { r.insert(r.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[m % Radix]); m /= Radix; } while (m);
	return Neg ? "-" + r : r;
}
static std::string Dbl(double d, size_t Prec) { char b[2000]; snprintf(b, sizeof(b), "%.*g", (int)Prec, d); return b; }
static double AnyDouble(H::Rng &R)
{
	switch (R.Below(4))
	{
		case 0:  return (double)R.Range(-1000, 1000);
		case 1:  { std::uint64_t b = R.Next(); double d; memcpy(&d, &b, 8); return d == d ? d : 0.5; }
		case 2:  return R.Pick(std::vector<double>{0.0, -0.0, 1e100, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 123456789.125, 1e-5, 1e16});
	}
	return (double)R.Range(-100000, 100000) / 1024;
}
static size_t Replace(std::string &s, const std::string &a, const std::string &b)
{
	size_t n = 0;
	if (a.empty())  return 0;
	std::string r;
	for (size_t i = 0; i < s.size(); )
	{
		if (!s.compare(i, a.size(), a))  { r += b; i += a.size(); n++; }
		else  r += s[i++];
	}
	s = r;
	return n;
}

static void Check(V *v, const Model &m, Sync::TLS **T)
{
	if ((int)v->MxMode != m.Mode)  Bad("wrong-type", H::Format("type is %d, not %d", (int)v->MxMode, m.Mode));
	if (v->IsNone() != (m.Mode == Sync::TLS::TMV_None) || v->IsBool() != (m.Mode == Sync::TLS::TMV_Bool) || v->IsInt() != (m.Mode == Sync::TLS::TMV_Int) || v->IsUInt() != (m.Mode == Sync::TLS::TMV_UInt) || v->IsDouble() != (m.Mode == Sync::TLS::TMV_Double) || v->IsStr() != (m.Mode == Sync::TLS::TMV_Str))  Bad("wrong-type", "the type queries disagree");
	if (v->GetInt() != m.I || v->GetUInt() != (std::uint64_t)m.I || v->GetBool() != (m.I != 0))  Bad("wrong-value", H::Format("integer is %lld, not %lld", (long long)v->GetInt(), (long long)m.I));
	double d = v->GetDouble();
	if (memcmp(&d, &m.D, sizeof(d)))  Bad("wrong-value", H::Format("double is %g, not %g", d, m.D));
	if (v->GetTLS() != T[m.Tls])  Bad("wrong-allocator", "the variant uses the wrong allocator");
	if (v->GetSize() != m.S.size())  Bad("wrong-size", H::Format("size is %zu, not %zu", v->GetSize(), m.S.size()));
	if (!v->GetStr())
	{
		if (!m.Fresh)  Bad("lost-text", "the variant has no text");
		return;
	}
	if (memcmp(v->GetStr(), m.S.data(), m.S.size()))  Bad("wrong-text", "the text is \"" + H::Escape(std::string(v->GetStr(), v->GetSize())) + "\", not \"" + H::Escape(m.S) + "\"");
	if (v->GetStr()[m.S.size()])  Bad("not-terminated", "the text is not terminated");
}

static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	A::Reset();
	Sync::TLS *T[2];
	int NT = (int)R.Range(1, 2);
	for (int i = 0; i < NT; i++)
	{
		A::Scope S;
		T[i] = new Sync::TLS;
		if (!T[i]->ThreadInit((size_t)R.Range(3, 15)))  H::HarnessError("ThreadInit");
	}
	size_t Count = (size_t)R.Range(1, 4), Copies = 0, Big = 0;
	std::vector<V *> Vs(Count);
	std::vector<Model> Ms(Count);
	auto Make = [&](size_t i) {
		void *p = malloc(sizeof(V));
		memset(p, 0xA5, sizeof(V));
		Ms[i] = Model();
		Ms[i].Tls = (int)R.Below(NT);
		A::Scope S;
		if (R.Chance(1, 4))  { Vs[i] = new (p) V; Vs[i]->SetTLS(T[Ms[i].Tls]); }
		else  Vs[i] = new (p) V(T[Ms[i].Tls]);
	};
	auto Kill = [&](size_t i) { { A::Scope S; Vs[i]->~V(); } free((void *)Vs[i]); };
	for (size_t i = 0; i < Count; i++)  Make(i);
	for (std::uint64_t Steps = R.Range(1, 50); Steps; Steps--)
	{
		size_t w = R.Below(Count), o = R.Below(Count);
		V *v = Vs[w];
		Model &m = Ms[w];
		size_t n = R.Chance(1, 10) ? R.Size(40000) : R.Chance(1, 3) ? R.Size(300) : (size_t)R.Below(10);
		std::string t = R.FromAlphabet(n, R.Chance(1, 4) ? std::string("ab\0\xFFz", 5) : "aabc");
		std::string z = t.substr(0, t.find('\0'));
		bool Zero = R.Chance(1, 2);
		CL::Exact E(Zero ? z + '\0' : t);
		const std::string &x = Zero ? z : t;
		std::int64_t I = (std::int64_t)R.U64();
		unsigned Radix = R.Chance(1, 2) ? 10 : R.Chance(1, 2) ? 2 : (unsigned)R.Range(2, 36);
		if (R.Chance(1, 6))  I = R.Chance(1, 2) ? INT64_MIN : R.Chance(1, 2) ? -1 : INT64_MAX;
		double D = AnyDouble(R);
		bool Def = R.Chance(1, 2);              // leave out arguments that have the default value
		size_t Prec = R.Chance(1, 2) ? 16 : R.Chance(1, 2) ? (size_t)R.Below(25) : (size_t)R.Below(900);
		if (m.S.size() > 300000)  { v->SetSize(10); m.S.resize(10); }
		A::Scope S;
		auto Ev = [&](const std::string &s) { A::Outside O; CL::Ev(H::Format("%zu.", w) + s); };
		switch (R.Below(21))
		{
			case 0:  Ev("SetBool"); v->SetBool(Zero); m.Mode = Sync::TLS::TMV_Bool; m.I = Zero;  break;
			case 1:  Ev("SetInt"); v->SetInt(I); m.Mode = Sync::TLS::TMV_Int; m.I = I;  break;
			case 2:  Ev("SetUInt"); v->SetUInt((std::uint64_t)I); m.Mode = Sync::TLS::TMV_UInt; m.I = I;  break;
			case 3:  Ev("SetDouble"); v->SetDouble(D); m.Mode = Sync::TLS::TMV_Double; m.D = D;  break;
			case 4:
				Ev(H::Format("Set %zu", x.size()));
				if (Zero)  v->SetStr(E.P);
				else  v->SetData(E.P, E.N);
				m.Mode = Sync::TLS::TMV_Str;
				{ A::Outside O; m.S = x; }
				m.Fresh = false;
				break;
			case 5:  case 6:
				Ev(H::Format("Prepend %zu", x.size()));
				if (Zero)  v->PrependStr(E.P);
				else  v->PrependData(E.P, E.N);
				{ A::Outside O; m.S = x + m.S; }
				m.Fresh = false;
				break;
			case 7:  case 8:  case 9:
				Ev(H::Format("Append %zu", x.size()));
				if (Zero)  v->AppendStr(E.P);
				else  v->AppendData(E.P, E.N);
				{ A::Outside O; m.S += x; }
				m.Fresh = false;
				break;
			case 10:
			case 11:
			{
				Ev(H::Format("Int %lld/%u", (long long)I, Radix));
				bool Front = R.Chance(1, 2);
				if (Zero)  { if (Front)  { if (Def && Radix == 10)  v->PrependInt(I); else  v->PrependInt(I, Radix); }  else  { if (Def && Radix == 10)  v->AppendInt(I); else  v->AppendInt(I, Radix); } }
				else if (Front)  { if (Def && Radix == 10)  v->PrependUInt((std::uint64_t)I); else  v->PrependUInt((std::uint64_t)I, Radix); }
				else  { if (Def && Radix == 10)  v->AppendUInt((std::uint64_t)I); else  v->AppendUInt((std::uint64_t)I, Radix); }
				A::Outside O;
				std::string d = Zero ? Num(I < 0, I < 0 ? 0 - (std::uint64_t)I : (std::uint64_t)I, Radix) : Num(false, (std::uint64_t)I, Radix);
				m.S = Front ? d + m.S : m.S + d;
				m.Fresh = false;
				break;
			}
			case 12:
			{
				Ev(H::Format("Double %g/%zu", D, Prec));
				if (Zero)  { if (Def && Prec == 16)  v->AppendDouble(D); else  v->AppendDouble(D, Prec); }
				else  { if (Def && Prec == 16)  v->PrependDouble(D); else  v->PrependDouble(D, Prec); }
				A::Outside O;
				m.S = Zero ? m.S + Dbl(D, Prec) : Dbl(D, Prec) + m.S;
				m.Fresh = false;
				break;
			}
			case 13:
			{
				char c = t.size() ? t[0] : 'q';
				Ev("AppendChar");
				v->AppendChar(c);
				A::Outside O;
				m.S += c;
				m.Fresh = false;
				break;
			}
			case 14:
			{
				char c = m.S.size() && R.Chance(1, 2) ? m.S.back() : 'k';
				Ev("AppendMissingChar");
				v->AppendMissingChar(c);
				A::Outside O;
				if (!m.S.size() || m.S.back() != c)  { m.S += c; m.Fresh = false; }
				break;
			}
			case 15:
			{
				char c = m.S.size() && R.Chance(2, 3) ? m.S.back() : 'k';
				bool Want = m.S.size() && m.S.back() == c;
				Ev("RemoveTrailingChar");
				if (v->RemoveTrailingChar(c) != Want)  Bad("wrong-result", "removing a trailing character returned the wrong answer");
				if (Want)  m.S.pop_back();
				break;
			}
			case 16:
			{
				size_t k = R.Chance(1, 3) ? m.S.size() + R.Size(200) : R.Below(m.S.size() + 1);
				Ev(H::Format("SetSize %zu", k));
				v->SetSize(k);
				A::Outside O;
				size_t Old = m.S.size();
				m.S.resize(k, 'r');
				m.Fresh = false;
				if (v->GetSize() != k)  Bad("wrong-size", "resizing did not take effect");
				if (k > Old)  memset(v->GetStr() + Old, 'r', k - Old);
				break;
			}
			case 17:  case 18:
			{
				A::Outside O;
				// A piece of the text, or something else, replaced by something longer, shorter or as long.
				std::string a, b;
				if (m.S.size() && R.Chance(2, 3))  { size_t i = R.Below(m.S.size()); a = m.S.substr(i, R.Chance(1, 2) ? 1 : R.Below(20)); }
				else  a = R.FromAlphabet(R.Below(4), "abr");
				b = R.FromAlphabet(R.Chance(1, 3) ? a.size() : R.Below(12), "aXYr");
				if (m.S.size() > 60000 && b.size() > a.size())  b.resize(a.size());
				bool Zs = R.Chance(1, 2) && a.find('\0') == std::string::npos;
				CL::Exact Ea(Zs ? a + '\0' : a), Eb(Zs ? b + '\0' : b);
				Ev(H::Format("Replace %zu by %zu", a.size(), b.size()));
				size_t Got;
				{ A::Scope S2; Got = Zs ? v->ReplaceStr(Ea.P, Eb.P) : v->ReplaceData(Ea.P, Ea.N, Eb.P, Eb.N); }
				size_t Want = Replace(m.S, a, b);
				if (Got != Want)  Bad("wrong-count", H::Format("replaced %zu times, not %zu", Got, Want));
				if (Want)  H::Count("replaced");
				break;
			}
			case 19:
				Ev(H::Format("= %zu", o));
				*v = *Vs[o];
				{ A::Outside O; Model c = Ms[o]; m = c; }
				Copies++;
				break;
			case 20:
				if (R.Chance(1, 2))
				{
					// A fresh copy in place of this one.
					if (o == w)  break;
					Ev(H::Format("copy of %zu", o));
					A::Outside O;
					Kill(w);
					void *p = malloc(sizeof(V));
					memset(p, 0xA5, sizeof(V));
					{ A::Scope S2; Vs[w] = new (p) V(*Vs[o]); }
					m = Ms[o];
					Copies++;
				}
				else  { A::Outside O; Ev("new"); Kill(w); Make(w); }
				break;
		}
		A::Outside O;
		if (m.S.size() > 40000)  Big++;
		for (size_t i = 0; i < Count; i++)  Check(Vs[i], Ms[i], T);
	}
	for (size_t i = 0; i < Count; i++)  Kill(i);
	for (int i = 0; i < NT; i++)
	{
		A::Scope S;
		T[i]->ThreadEnd();
		delete T[i];
	}
	if (A::Live())  Bad("leak", H::Format("%zu blocks were leaked", A::Live()));
	H::Count("copies", Copies);
	H::Count("beyond-cached-sizes", Big);
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(20));
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase, A::Install); }
