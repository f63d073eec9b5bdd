// Shared by the Unicode drivers: an independent decoder and encoder, and texts of every validity.
#ifndef VERIF_UTFLIB_H
#define VERIF_UTFLIB_H
#include "contlib.h"
#include "utf8/utf8_util.h"

namespace UL
{
	using CL::Bad;
	struct Cp { std::uint32_t C; size_t Start, End; };
	inline bool Combining(std::uint32_t c) { return (c >= 0x300 && c <= 0x36F) || (c >= 0x1DC0 && c <= 0x1DFF) || (c >= 0x20D0 && c <= 0x20FF) || (c >= 0xFE20 && c <= 0xFE2F); }
	inline bool Scalar(std::uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
	inline bool Allowed(std::uint32_t c) { return Scalar(c) && !(c >= 0xFDD0 && c <= 0xFDEF) && (c & 0xFFFF) < 0xFFFE; }
	// Table 3-7 of the Unicode standard. Returns the length of the well-formed sequence at s, or 0.
	inline size_t Seq(const std::uint8_t *s, size_t n, std::uint32_t &c)
	{
		if (!n)  return 0;
		auto In = [&](size_t i, unsigned lo, unsigned hi) { return i < n && s[i] >= lo && s[i] <= hi; };
		if (s[0] <= 0x7F)  { c = s[0]; return 1; }
		if (s[0] >= 0xC2 && s[0] <= 0xDF)
		{
			if (!In(1, 0x80, 0xBF))  return 0;
			c = (s[0] - 0xC0u) * 64 + (s[1] - 0x80u);
			return 2;
		}
		if (s[0] >= 0xE0 && s[0] <= 0xEF)
		{
			if (!In(1, s[0] == 0xE0 ? 0xA0 : 0x80, s[0] == 0xED ? 0x9F : 0xBF) || !In(2, 0x80, 0xBF))  return 0;
			c = (s[0] - 0xE0u) * 4096 + (s[1] - 0x80u) * 64 + (s[2] - 0x80u);
			return 3;
		}
		if (s[0] >= 0xF0 && s[0] <= 0xF4)
		{
			if (!In(1, s[0] == 0xF0 ? 0x90 : 0x80, s[0] == 0xF4 ? 0x8F : 0xBF) || !In(2, 0x80, 0xBF) || !In(3, 0x80, 0xBF))  return 0;
			c = (s[0] - 0xF0u) * 262144 + (s[1] - 0x80u) * 4096 + (s[2] - 0x80u) * 64 + (s[3] - 0x80u);
			return 4;
		}
		return 0;
	}
	inline void Put8(std::string &s, std::uint32_t c)
	{
		if (c < 0x80)  s += (char)c;
		else if (c < 0x800)  { s += (char)(0xC0 + c / 64); s += (char)(0x80 + c % 64); }
		else if (c < 0x10000)  { s += (char)(0xE0 + c / 4096); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
		else  { s += (char)(0xF0 + c / 262144); s += (char)(0x80 + c / 4096 % 64); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
	}
	// Code units of one width, as numbers.
	typedef std::vector<std::uint32_t> Units;
	inline void Put(Units &u, std::uint32_t c, unsigned Width)
	{
		if (Width == 1)  { std::string s; Put8(s, c); for (char ch : s)  u.push_back((std::uint8_t)ch); }
		else if (Width == 2 && c > 0xFFFF)  { u.push_back(0xD800 + (c - 0x10000) / 1024); u.push_back(0xDC00 + (c - 0x10000) % 1024); }
		else  u.push_back(c);
	}
	inline std::vector<Cp> Decode(const Units &u, unsigned Width)
	{
		std::vector<Cp> r;
		if (Width == 1)
		{
			std::vector<std::uint8_t> b(u.begin(), u.end());
			for (size_t i = 0; i < b.size(); )
			{
				std::uint32_t c;
				size_t k = Seq(b.data() + i, b.size() - i, c);
				if (k)  { r.push_back({c, i, i + k}); i += k; }
				else  i++;
			}
		}
		else if (Width == 2)
		{
			for (size_t i = 0; i < u.size(); i++)
			{
				if (u[i] >= 0xD800 && u[i] <= 0xDBFF)
				{
					if (i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] <= 0xDFFF)  { r.push_back({0x10000 + (u[i] - 0xD800) * 1024 + (u[i + 1] - 0xDC00), i, i + 2}); i++; }
				}
				else if (u[i] < 0xDC00 || u[i] > 0xDFFF)  r.push_back({u[i], i, i + 1});
			}
		}
		else  for (size_t i = 0; i < u.size(); i++)  if (Scalar(u[i]))  r.push_back({u[i], i, i + 1});
		return r;
	}
	// What the conversion keeps: permitted characters, not starting with a combining one, up to the first that does not fit.
	inline Units Convert(const Units &In, unsigned InWidth, unsigned OutWidth, size_t Cap, size_t &Last, size_t *Chars = nullptr)
	{
		Units r;
		Last = 0;
		if (Chars)  *Chars = 0;
		for (const Cp &c : Decode(In, InWidth))
		{
			if (!Allowed(c.C) || (r.empty() && Combining(c.C)))  continue;
			Units t;
			Put(t, c.C, OutWidth);
			if (r.size() + t.size() > Cap)  break;
			r.insert(r.end(), t.begin(), t.end());
			Last = c.End;
			if (Chars)  (*Chars)++;
		}
		return r;
	}
	inline std::uint32_t AnyCp(H::Rng &R)
	{
		static const std::vector<std::uint32_t> Edge = {1, 0x41, 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x2FF, 0x300, 0x301, 0x36F, 0x370, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1DBF, 0x1DC0, 0x1DFF, 0x1E00, 0x20CF, 0x20D0, 0x20FF, 0x2100, 0xD7FF, 0xE000, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFE1F, 0xFE20, 0xFE2F, 0xFE30,
			0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFF, 0x1FFFD, 0x1FFFE, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF};
		switch (R.Below(8))
		{
			case 0: case 1:  return (std::uint32_t)R.Range(0x20, 0x7E);
			case 2:  return R.Pick(Edge);
			case 3:  return (std::uint32_t)R.Range(0x80, 0x7FF);
			case 4:  { std::uint32_t c = (std::uint32_t)R.Range(0x800, 0xFFFF); return Scalar(c) ? c : 0xE9; }
			case 5:  return (std::uint32_t)R.Range(0x10000, 0x10FFFF);
			case 6:  return R.Pick(std::vector<std::uint32_t>{0x300, 0x301, 0x36F, 0x1DC0, 0x20D0, 0xFE20});
		}
		return ((std::uint32_t)R.Range(1, 0x10FFFF) & ~0xF800u) | 1;
	}
	// Valid text, text with damage, or noise, without a terminator.
	inline Units AnyText(H::Rng &R, unsigned Width, bool Zeros, bool &Valid)
	{
		Units u;
		int Style = (int)R.Below(4);
		size_t n = R.Chance(1, 8) ? (size_t)R.Below(60) : (size_t)R.Below(12);
		if (Style == 3)
		{
			Valid = false;
			for (size_t i = 0; i < n; i++)
			{
				std::uint32_t v;
				if (Width == 1)  v = R.Chance(1, 2) ? (std::uint32_t)R.Below(256) : R.Pick(std::vector<std::uint32_t>{0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF, 0x9F, 0xA0, 0x8F, 0x90, 'a', 0xCC, 0x80});
				else if (Width == 2)  v = R.Chance(1, 3) ? (std::uint32_t)R.Below(0x10000) : R.Pick(std::vector<std::uint32_t>{0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00, 'a', 0x300, 0xFFFE, 0xFFFF, 0xFDD0, 0xE000, 0xD7FF});
				else  v = R.Chance(1, 3) ? (std::uint32_t)R.Next() : R.Pick(std::vector<std::uint32_t>{0xD800, 0xDFFF, 0x110000, 0x10FFFF, 0xFFFFFFFF, 0x80000000, 'a', 0x300, 0xFFFE, 0x10000, 0x7FFFFFFF});
				if (!v && !Zeros)  v = 'z';
				u.push_back(v);
			}
			return u;
		}
		Valid = true;
		for (size_t i = 0; i < n; i++)
		{
			std::uint32_t c = AnyCp(R);
			if (Zeros && R.Chance(1, 20))  c = 0;
			Put(u, c, Width);
		}
		if (Style == 2 && u.size())
		{
			Valid = false;
			for (std::uint64_t k = R.Range(1, 3); k && u.size(); k--)
			{
				size_t i = R.Below(u.size());
				switch (R.Below(4))
				{
					case 0:  u.erase(u.begin() + i);  break;
					case 1:  u.resize(i);  break;
					case 2:  u[i] = Width == 1 ? (std::uint32_t)R.Range(0x80, 0xFF) : Width == 2 ? (std::uint32_t)R.Range(0xD800, 0xDFFF) : (std::uint32_t)R.Next() | 0x110000;  break;
					case 3:
						if (Width == 1)
						{
							// A longer form than needed, a surrogate, or beyond the last character.
							static const std::vector<std::string> Bads = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF", "\xE0\x81\x81", "\xF0\x81\x81\x81"};
							const std::string &b = R.Pick(Bads);
							for (size_t j = 0; j < b.size(); j++)  u.insert(u.begin() + i + j, (std::uint8_t)b[j]);
						}
						else  u.insert(u.begin() + i, 0xD800 + (std::uint32_t)R.Below(0x800));
						break;
				}
			}
		}
		return u;
	}
	inline std::string Show(const Units &u)
	{
		std::string r = "[";
		for (size_t i = 0; i < u.size() && i < 40; i++)  r += H::Format("%s%X", i ? " " : "", u[i]);
		return r + "]";
	}
	// Code units in memory of exactly their size.
	struct Mem
	{
		void *P;
		Mem(const Units &u, unsigned Width) : P(malloc(u.size() * Width))
		{
			for (size_t i = 0; i < u.size(); i++)
			{
				if (Width == 1)  ((std::uint8_t *)P)[i] = (std::uint8_t)u[i];
				else if (Width == 2)  ((std::uint16_t *)P)[i] = (std::uint16_t)u[i];
				else  ((std::uint32_t *)P)[i] = u[i];
			}
		}
		Mem(size_t n, unsigned Width) : P(malloc(n * Width)) { memset(P, 0xA5, n * Width); }
		~Mem() { free(P); }
		Mem(const Mem &) = delete;
	};
	inline Units Read(const void *P, size_t n, unsigned Width)
	{
		Units u;
		for (size_t i = 0; i < n; i++)  u.push_back(Width == 1 ? ((const std::uint8_t *)P)[i] : Width == 2 ? ((const std::uint16_t *)P)[i] : ((const std::uint32_t *)P)[i]);
		return u;
	}
}
#endif
