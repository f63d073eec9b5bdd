// Shared by the JSON drivers: random programs of serializer calls, a model of the structure, a strict parser.
#ifndef VERIF_JSONLIB_H
#define VERIF_JSONLIB_H
#include "contlib.h"
#include "json/json_serializer.h"
#include <cmath>
#include <locale.h>

namespace JL
{
	using CL::Bad;
	typedef CubicleSoft::JSON::Serializer Ser;

	struct Node
	{
		char T = 'n';  // n, t, f, i (64-bit signed), u, d, s, a, o
		std::int64_t I = 0;
		std::uint64_t U = 0;
		double D = 0;
		int Prec = 0;
		std::string S;
		std::vector<std::string> K;
		std::vector<Node> C;
	};

	inline std::string Cp(std::uint32_t c)
	{
		std::string r;
		if (c < 0x80)  r += (char)c;
		else if (c < 0x800)  { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000)  { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
		else  { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
		return r;
	}
	inline std::string Text(H::Rng &R, size_t Max, bool Zeros)
	{
		std::string r;
		size_t n = R.Chance(1, 8) ? 0 : (size_t)R.Below(Max) + 1;
		for (size_t i = 0; i < n; i++)
		{
			switch (R.Below(6))
			{
				case 0:  r += "\"\\/\b\f\n\r\t"[R.Below(8)];  break;
				case 1:  { char c = (char)R.Below(0x21); if (c || Zeros)  r += c; break; }
				case 2:  { std::uint32_t c = R.Chance(1, 2) ? (std::uint32_t)R.Below(0x800) : (std::uint32_t)R.Below(0x110000); if ((c >= 0xD800 && c < 0xE000) || (!c && !Zeros))  c = 'x'; r += Cp(c); break; }
				case 3:  r += "/\\u/b\"0"[R.Below(7)];  break;
				default:  r += (char)R.Range(0x20, 0x7F);  break;
			}
		}
		return r;
	}

	// A strict reader of RFC 8259 texts.
	struct Parser
	{
		const std::string &T;
		size_t P = 0;
		std::string Err;
		explicit Parser(const std::string &t) : T(t) {}
		bool Fail(const char *m) { if (Err.empty())  Err = H::Format("%s at byte %zu", m, P); return false; }
		void Ws() { while (P < T.size() && (T[P] == ' ' || T[P] == '\t' || T[P] == '\n' || T[P] == '\r'))  P++; }
		bool Lit(const char *s) { size_t n = strlen(s); if (T.compare(P, n, s))  return Fail("bad literal"); P += n; return true; }
		bool Hex(std::uint32_t &c)
		{
			c = 0;
			for (int i = 0; i < 4; i++, P++)
			{
				if (P >= T.size() || !isxdigit((unsigned char)T[P]))  return Fail("bad escape");
				c = c * 16 + (std::uint32_t)(isdigit((unsigned char)T[P]) ? T[P] - '0' : (T[P] | 32) - 'a' + 10);
			}
			return true;
		}
		bool Str(std::string &r)
		{
			if (P >= T.size() || T[P] != '"')  return Fail("no string");
			P++;
			for (;;)
			{
				if (P >= T.size())  return Fail("unterminated string");
				unsigned char c = (unsigned char)T[P++];
				if (c == '"')  return true;
				if (c < 0x20)  return Fail("raw control character");
				if (c != '\\')  { r += (char)c; continue; }
				if (P >= T.size())  return Fail("unterminated escape");
				switch (T[P++])
				{
					case '"':  r += '"';  break;
					case '\\':  r += '\\';  break;
					case '/':  r += '/';  break;
					case 'b':  r += '\b';  break;
					case 'f':  r += '\f';  break;
					case 'n':  r += '\n';  break;
					case 'r':  r += '\r';  break;
					case 't':  r += '\t';  break;
					case 'u':
					{
						std::uint32_t u, v;
						if (!Hex(u))  return false;
						if (u >= 0xD800 && u < 0xDC00)
						{
							if (T.compare(P, 2, "\\u"))  return Fail("lone surrogate");
							P += 2;
							if (!Hex(v))  return false;
							if (v < 0xDC00 || v > 0xDFFF)  return Fail("lone surrogate");
							u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
						}
						else if (u >= 0xDC00 && u < 0xE000)  return Fail("lone surrogate");
						r += Cp(u);
						break;
					}
					default:  return Fail("unknown escape");
				}
			}
		}
		bool Num(std::string &s)
		{
			size_t b = P;
			auto Dig = [&]() { size_t n = 0; while (P < T.size() && isdigit((unsigned char)T[P]))  { P++; n++; } return n; };
			if (P < T.size() && T[P] == '-')  P++;
			if (P < T.size() && T[P] == '0')  P++;
			else if (!Dig())  return Fail("bad number");
			if (P < T.size() && T[P] == '.')  { P++; if (!Dig())  return Fail("bad number"); }
			if (P < T.size() && (T[P] | 32) == 'e')
			{
				P++;
				if (P < T.size() && (T[P] == '+' || T[P] == '-'))  P++;
				if (!Dig())  return Fail("bad number");
			}
			s = T.substr(b, P - b);
			return true;
		}
		// Reads a value and compares it with what was appended.
		bool Val(const Node &N)
		{
			Ws();
			switch (N.T)
			{
				case 'n':  return Lit("null");
				case 't':  return Lit("true");
				case 'f':  return Lit("false");
				case 'i': case 'u': case 'd':
				{
					std::string s;
					if (!Num(s))  return false;
					if (N.T == 'i')  { if (s != std::to_string((long long)N.I))  return Fail("wrong integer"); return true; }
					if (N.T == 'u')  { if (s != std::to_string((unsigned long long)N.U))  return Fail("wrong integer"); return true; }
					char b[1200];
					snprintf(b, sizeof(b), "%.*g", N.Prec, N.D);
					double Got = strtod(s.c_str(), NULL), Want = strtod(b, NULL);
					if (memcmp(&Got, &Want, sizeof(Got)))  return Fail("wrong number");
					return true;
				}
				case 's':
				{
					std::string s;
					if (!Str(s))  return false;
					if (s != N.S)  return Fail("wrong string");
					return true;
				}
				case 'a': case 'o':
				{
					if (P >= T.size() || T[P] != (N.T == 'a' ? '[' : '{'))  return Fail("no container");
					P++;
					for (size_t i = 0; i < N.C.size(); i++)
					{
						if (i)  { Ws(); if (P >= T.size() || T[P] != ',')  return Fail("no comma"); P++; }
						if (N.T == 'o')
						{
							std::string k;
							Ws();
							if (!Str(k))  return false;
							if (k != N.K[i])  return Fail("wrong key");
							Ws();
							if (P >= T.size() || T[P] != ':')  return Fail("no colon");
							P++;
						}
						if (!Val(N.C[i]))  return false;
					}
					Ws();
					if (P >= T.size() || T[P] != (N.T == 'a' ? ']' : '}'))  return Fail("container not closed");
					P++;
					return true;
				}
			}
			return Fail("model");
		}
		bool Doc(const Node &N)
		{
			if (!Val(N))  return false;
			Ws();
			return P == T.size() || Fail("text after the end");
		}
	};

	// A call on a serializer.
	enum Kind { SO, EO, SA, EA, SS, ES, NUL, BOOL, INT, UINT, DBL, STR, STRN, RAW, FIN, ESC, KSP, VSP, NKinds };
	static const char *const Names[] = {"StartObject", "EndObject", "StartArray", "EndArray", "StartStr", "EndStr", "AppendNull", "AppendBool", "AppendInt", "AppendUInt", "AppendDouble", "AppendStr", "AppendStr(n)", "Append", "Finish", "SetEscapeSlashes", "SetKeySplitter", "SetValSplitter"};
	struct Op
	{
		Kind K = NUL;
		bool HasKey = false, B = false, Short = false;
		std::string Key, S;
		std::int64_t I = 0;
		std::uint64_t U = 0;
		double D = 0;
		size_t Prec = 0;
		int Loc = 0;  // locale of the calling thread: C, decimal comma, decimal point of two bytes
		std::string Show() const
		{
			std::string r = Names[K];
			r += "(";
			if (HasKey)  r += "key \"" + H::Escape(Key, 60) + "\" ";
			if (K == BOOL || K == ESC)  r += B ? "true" : "false";
			if (K == INT)  r += std::to_string((long long)I);
			if (K == UINT)  r += std::to_string((unsigned long long)U);
			if (K == DBL)  r += H::Format("%.17g precision %zu%s", D, Prec, Loc == 1 ? " in a locale with a decimal comma" : Loc == 2 ? " in a locale with a wide decimal point" : "");
			if (K == STR || K == STRN || K == RAW || K == KSP || K == VSP)  r += "\"" + H::Escape(S, 80) + "\"";
			return r + ")";
		}
	};
	static const char *const KeySplits[] = {": ", ":", " : ", "\n:\t", "  :"};
	static const char *const ValSplits[] = {", ", ",", ",\n", " ,", ",\r\n\t\t"};

	// What the caller may rely on about the structure.
	struct Model
	{
		struct Lv { char T; Node *N; };  // r, R (root used), o, a, s
		std::vector<Lv> L;
		std::vector<Node> Root;
		size_t MaxDepth;
		bool Esc;
		size_t KeyLen, ValLen;
		explicit Model(size_t D) : MaxDepth(D), Esc(false), KeyLen(0), ValLen(0) { L.push_back({'r', NULL}); Root.reserve(1); }
		char Mode() const { return L.back().T; }
		bool NextOk(bool HasKey) const { return Mode() == 'r' ? !HasKey : Mode() == 'o' ? HasKey : Mode() == 'a' ? !HasKey : false; }
		bool Accepts(const Op &O) const
		{
			switch (O.K)
			{
				case SO: case SA: case SS:  return L.size() + 1 <= MaxDepth && NextOk(O.HasKey);
				case EO:  return Mode() == 'o';
				case EA:  return Mode() == 'a';
				case ES:  return Mode() == 's';
				case DBL:  return std::isfinite(O.D) && NextOk(O.HasKey);
				case STR: case STRN:  return Mode() == 's' || NextOk(O.HasKey);
				case RAW: case FIN: case ESC: case KSP: case VSP:  return true;
				default:  return NextOk(O.HasKey);
			}
		}
		Node *Add(const Op &O, char T)
		{
			Node n;
			n.T = T;
			Node *At;
			if (Mode() == 'r')  { Root.push_back(n); L[0].T = 'R'; At = &Root[0]; }
			else
			{
				Node *N = L.back().N;
				if (Mode() == 'o')  N->K.push_back(O.Key);
				N->C.push_back(n);
				At = &N->C.back();
			}
			return At;
		}
		void Apply(const Op &O)
		{
			switch (O.K)
			{
				// Pointers into a parent's children stay valid: only the innermost open container grows.
				case SO:  { Node *N = Add(O, 'o'); L.push_back({'o', N}); break; }
				case SA:  { Node *N = Add(O, 'a'); L.push_back({'a', N}); break; }
				case SS:  { Node *N = Add(O, 's'); L.push_back({'s', N}); break; }
				case EO: case EA: case ES:  L.pop_back();  break;
				case NUL:  Add(O, 'n');  break;
				case BOOL:  Add(O, O.B ? 't' : 'f');  break;
				case INT:  Add(O, 'i')->I = O.I;  break;
				case UINT:  Add(O, 'u')->U = O.U;  break;
				case DBL:  { Node *N = Add(O, 'd'); N->D = O.D; N->Prec = (int)std::min<size_t>(O.Prec, 1000); break; }
				case STR: case STRN:  if (Mode() == 's')  L.back().N->S += O.S; else  Add(O, 's')->S = O.S;  break;
				case FIN:  while (L.size() > 1)  L.pop_back();  break;
				default:  break;
			}
		}
	};

	inline double AnyDouble(H::Rng &R)
	{
		static const double Fixed[] = {0.0, -0.0, 1.0, -1.0, 0.1, 5e-324, -5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e100, 1e21, 1e22, 123456789012345680.0, 1e-5, 1e-4, 9.999999e5, 0.30000000000000004};
		switch (R.Below(6))
		{
			case 0:  return Fixed[R.Below(sizeof(Fixed) / sizeof(Fixed[0]))];
			case 1:  { std::uint64_t u = R.Next(); double d; memcpy(&d, &u, 8); return d; }
			case 2:  return (double)R.Range(-1000000, 1000000) / 1000;
			case 3:  return (double)(std::int64_t)R.U64();
			case 4:  return R.Chance(1, 3) ? (R.Chance(1, 2) ? INFINITY : -INFINITY) : R.Chance(1, 2) ? NAN : std::ldexp((double)R.Range(-99, 99), (int)R.Range(-1080, 1020));
			default:  return std::ldexp((double)(R.Next() >> 11), (int)R.Range(-120, 60));
		}
	}
	// A call, mostly one that fits the structure.
	inline Op AnyOp(H::Rng &R, const Model &M, size_t MaxStr)
	{
		Op O;
		static const Kind Vals[] = {NUL, BOOL, INT, UINT, DBL, STR, STRN, STR};
		char m = M.Mode();
		unsigned r = (unsigned)R.Below(100);
		if (r < 6)  O.K = (Kind)R.Below(RAW);
		else if (r < 9)  O.K = m == 's' ? STR : RAW;
		else if (r < 12)  O.K = (Kind)(ESC + R.Below(3));
		else if (m == 's')  O.K = R.Chance(1, 3) ? ES : R.Chance(1, 2) ? STR : STRN;
		else if (m == 'R')  O.K = (Kind)R.Below(RAW);
		else if (r < 40)  O.K = R.Chance(1, 3) ? SO : R.Chance(1, 2) ? SA : SS;
		else if (r < 55 && m != 'r')  O.K = m == 'o' ? EO : EA;
		else  O.K = Vals[R.Below(8)];
		O.HasKey = m == 'o' ? !R.Chance(1, 20) : R.Chance(1, 25);
		if (O.K == EO || O.K == EA || O.K == ES || O.K >= RAW)  O.HasKey = false;
		// Inside a string a key means nothing.
		if (m == 's' && (O.K == STR || O.K == STRN))  O.HasKey = false;
		if (O.HasKey)  O.Key = Text(R, R.Chance(1, 3) ? MaxStr : 6, false);
		O.B = R.Chance(1, 2);
		O.Short = !O.HasKey && R.Chance(1, 2);
		std::uint64_t u = R.U64();
		O.I = R.Chance(1, 20) ? INT64_MIN : (std::int64_t)u;
		O.U = u;
		O.D = AnyDouble(R);
		O.Loc = R.Chance(1, 4) ? (int)R.Range(1, 2) : 0;
		static const size_t Precs[] = {0, 1, 2, 6, 15, 16, 17, 20, 50, 93, 94, 95, 98, 99, 100, 101, 300, 767, 800, 1000, 5000};
		O.Prec = R.Chance(1, 2) ? 17 : R.Chance(1, 3) ? (size_t)R.Below(30) : Precs[R.Below(sizeof(Precs) / sizeof(Precs[0]))];
		switch (O.K)
		{
			case STR:  O.S = Text(R, MaxStr, false);  break;
			case STRN:  O.S = Text(R, MaxStr, true);  break;
			case RAW:  O.S = R.FromAlphabet(R.Below(6) + 1, " \t\n\r");  break;
			case KSP:  O.S = KeySplits[R.Below(5)];  break;
			case VSP:  O.S = ValSplits[R.Below(5)];  break;
			default:  break;
		}
		return O;
	}
	// Exact-size copies of the call's strings, so that reading past them is seen.
	struct Mem
	{
		char *P;
		Mem(const std::string &s, bool Term) { P = (char *)malloc(s.size() + Term); memcpy(P, s.data(), s.size()); if (Term)  P[s.size()] = 0; }
		~Mem() { free(P); }
	};
	// Programs choose their locale; the document must not depend on it. Only the call runs under it, the checker keeps "C".
	struct InLocale
	{
		locale_t Old;
		static locale_t Get(int n)
		{
			static locale_t L[3];
			static bool Got[3];
			if (!Got[n])  { Got[n] = true; L[n] = newlocale(LC_NUMERIC_MASK, n == 1 ? "comma" : "wide", (locale_t)0); }
			return L[n];
		}
		explicit InLocale(int n) : Old((locale_t)0)
		{
			locale_t l = n ? Get(n) : (locale_t)0;
			if (n)  H::Count(l ? "numbers written under another locale" : "locales not available");
			if (l)  Old = uselocale(l);
		}
		~InLocale() { if (Old)  uselocale(Old); }
	};
	inline bool Do(Ser &S, const Op &O)
	{
		Mem Key(O.Key, true), Z(O.S, true), N(O.S, false);
		const char *k = O.HasKey ? Key.P : NULL;
		switch (O.K)
		{
			case SO:  return O.Short ? S.StartObject() : S.StartObject(k);
			case EO:  return S.EndObject();
			case SA:  return O.Short ? S.StartArray() : S.StartArray(k);
			case EA:  return S.EndArray();
			case SS:  return O.Short ? S.StartStr() : S.StartStr(k);
			case ES:  return S.EndStr();
			case NUL:  return O.Short ? S.AppendNull() : S.AppendNull(k);
			case BOOL:  return O.Short ? S.AppendBool(O.B) : S.AppendBool(k, O.B);
			case INT:  return O.Short ? S.AppendInt(O.I) : S.AppendInt(k, O.I);
			case UINT:  return O.Short ? S.AppendUInt(O.U) : S.AppendUInt(k, O.U);
			case DBL:  { InLocale L(O.Loc); return O.Short ? S.AppendDouble(O.D, O.Prec) : S.AppendDouble(k, O.D, O.Prec); }
			case STR:  return O.Short ? S.AppendStr((const char *)Z.P) : S.AppendStr(k, Z.P);
			case STRN:  return O.Short ? S.AppendStr((const char *)N.P, O.S.size()) : S.AppendStr(k, N.P, O.S.size());
			case RAW:  return O.Short ? S.Append(Z.P) : S.Append(N.P, O.S.size());
			case FIN:  return S.Finish();
			case ESC:  S.SetEscapeSlashes(O.B);  return true;
			case KSP:  for (const char *p : KeySplits)  if (O.S == p)  S.SetKeySplitter(p);  return true;
			case VSP:  for (const char *p : ValSplits)  if (O.S == p)  S.SetValSplitter(p);  return true;
			default:  return false;
		}
	}
}
#endif
