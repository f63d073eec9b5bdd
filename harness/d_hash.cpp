// C32: hash functions against a reference, at any address, and tables with different secrets side by side.
#include "contlib.h"
#include "templates/detachable_ordered_hash.h"
#include "templates/packed_ordered_hash.h"
#include "templates/cache.h"
#include <memory>
using namespace CubicleSoft;
using CL::Bad;

// SipHash-c-d as published, on bytes.
static std::uint64_t Rot(std::uint64_t x, int b) { return x << b | x >> (64 - b); }
static std::uint64_t Ref(const std::string &s, std::uint64_t k0, std::uint64_t k1, size_t c, size_t d)
{
	std::uint64_t v[4] = { k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull };
	auto Round = [&]()
	{
		v[0] += v[1]; v[2] += v[3];
		v[1] = Rot(v[1], 13); v[3] = Rot(v[3], 16);
		v[1] ^= v[0]; v[3] ^= v[2];
		v[0] = Rot(v[0], 32);
		v[2] += v[1]; v[0] += v[3];
		v[1] = Rot(v[1], 17); v[3] = Rot(v[3], 21);
		v[1] ^= v[2]; v[3] ^= v[0];
		v[2] = Rot(v[2], 32);
	};
	size_t n = s.size(), Full = n / 8;
	for (size_t i = 0; i <= Full; i++)
	{
		std::uint64_t m = 0;
		for (size_t j = 0; j < 8 && i * 8 + j < n; j++)  m |= (std::uint64_t)(unsigned char)s[i * 8 + j] << (8 * j);
		if (i == Full)  m |= (std::uint64_t)(n & 0xFF) << 56;
		v[3] ^= m;
		for (size_t r = 0; r < c; r++)  Round();
		v[0] ^= m;
	}
	v[2] ^= 0xFF;
	for (size_t r = 0; r < d; r++)  Round();
	return v[0] ^ v[1] ^ v[2] ^ v[3];
}
// The bytes somewhere in a block of their own: at the end of it, some way in.
struct At
{
	char *B, *P;
	At(H::Rng &R, const std::string &s, bool Nul = false)
	{
		size_t Off = (size_t)R.Below(17);
		B = (char *)malloc(Off + s.size() + Nul);
		memset(B, (int)R.Below(256), Off);
		P = B + Off;
		memcpy(P, s.data(), s.size());
		if (Nul)  P[s.size()] = 0;
	}
	~At() { free(B); }
};
static void RunCase(H::Rng &R, std::uint64_t)
{
	CL::LogReset();
	unsigned n = (unsigned)R.Below(12) + 1;
	for (unsigned i = 0; i < n; i++)
	{
		std::string s = R.Chance(1, 2) ? R.Bytes((size_t)R.Below(20)) : R.Chance(1, 4) ? std::string((size_t)R.Below(40), (char)R.Below(2)) : R.Chance(1, 20) ? R.Bytes((size_t)R.Below(700)) : R.Bytes((size_t)R.Below(80));
		std::uint64_t k0 = R.Chance(1, 4) ? R.U64() : R.Next(), k1 = R.Chance(1, 4) ? R.U64() : R.Next();
		size_t c = R.Chance(1, 2) ? 2 : (size_t)R.Below(5), d = R.Chance(1, 2) ? 4 : (size_t)R.Below(7);
		std::uint64_t Want = Ref(s, k0, k1, c, d);
		size_t Init = R.Chance(1, 2) ? 5381 : (size_t)R.U64();
		size_t D[4][2];
		for (int t = 0; t < 2; t++)
		{
			At a(R, s);
			const std::uint8_t *p = (const std::uint8_t *)a.P;
			std::uint64_t x = OrderedHashUtil::GetSipHashKey(p, s.size(), k0, k1, c, d), y = PackedOrderedHashUtil::GetSipHashKey(p, s.size(), k0, k1, c, d);
			if (x != Want || y != Want)  Bad("siphash", H::Format("SipHash-%zu-%zu of %zu bytes is %llx and %llx instead of %llx: ", c, d, s.size(), (unsigned long long)x, (unsigned long long)y, (unsigned long long)Want) + H::Escape(s));
			D[0][t] = OrderedHashUtil::GetDJBX33XHashKey(p, s.size(), Init);
			D[1][t] = PackedOrderedHashUtil::GetDJBX33XHashKey(p, s.size(), Init);
			D[2][t] = CacheUtil::GetHashKey((std::uint8_t *)a.P, s.size());
			std::string z = s.c_str();
			At b(R, z, true);
			D[3][t] = CacheUtil::GetHashKey(b.P);
		}
		for (int k = 0; k < 4; k++)  if (D[k][0] != D[k][1])  Bad("impure", H::Format("hash %d of the same %zu bytes differs between two places", k, s.size()));
		// Every byte counts, and so does the initial value.
		if (s.size())
		{
			std::string o = s;
			size_t w = (size_t)R.Below(s.size());
			o[w] ^= (char)(1 << R.Below(8));
			At a(R, o);
			const std::uint8_t *p = (const std::uint8_t *)a.P;
			if (OrderedHashUtil::GetDJBX33XHashKey(p, o.size(), Init) == D[0][0] || PackedOrderedHashUtil::GetDJBX33XHashKey(p, o.size(), Init) == D[1][0] || CacheUtil::GetHashKey((std::uint8_t *)a.P, o.size()) == D[2][0])
				Bad("ignored", H::Format("byte %zu of %zu does not count", w, s.size()));
			if (s.find('\0') == std::string::npos && o.find('\0') == std::string::npos)
			{
				At b(R, o, true);
				if (CacheUtil::GetHashKey(b.P) == D[3][0])  Bad("ignored", H::Format("byte %zu of %zu does not count in a terminated string", w, s.size()));
			}
		}
		CL::Ev(H::Format("%zu bytes %llx", s.size(), (unsigned long long)Want));
		H::Count("hashes");
	}
	if (R.Chance(1, 3))
	{
		// Tables with different secrets, modes and sizes, side by side.
		CL::Keys Ks(R, (size_t)R.Below(40) + 1);
		typedef OrderedHash<std::int64_t> OH;
		typedef PackedOrderedHash<std::int64_t> PH;
		std::vector<std::unique_ptr<OH> > O;
		std::vector<std::unique_ptr<PH> > P;
		for (int t = 0; t < 3; t++)
		{
			size_t Est = (size_t)R.Below(R.Chance(1, 4) ? 300 : 20);
			std::uint64_t a = R.U64(), b = R.U64();
			O.emplace_back(t == 0 ? new OH(Est) : t == 1 ? new OH(Est, a) : new OH(Est, a, b));
			P.emplace_back(t == 0 ? new PH(Est) : t == 1 ? new PH(Est, a) : new PH(Est, a, b));
		}
		std::map<CL::Key, std::int64_t> Model;
		for (size_t i = 0; i < Ks.K.size(); i++)
		{
			const CL::Key &k = Ks.K[i];
			if (R.Chance(1, 4) || Model.count(k))  continue;
			Model[k] = (std::int64_t)i;
			CL::Exact e(k.S);
			for (auto &t : O)  if (!(k.Str ? t->Push(e.P, e.N, (std::int64_t)i) : t->Push(k.I, (std::int64_t)i)))  Bad("insert", "a new key was refused: " + k.Text());
			for (auto &t : P)  if (!(k.Str ? t->Set(e.P, e.N, (std::int64_t)i) : t->Set(k.I, (std::int64_t)i)))  Bad("insert", "a new key was refused: " + k.Text());
		}
		for (const CL::Key &k : Ks.K)
		{
			auto m = Model.find(k);
			CL::Exact e(k.S);
			for (size_t t = 0; t < 3; t++)
			{
				auto a = k.Str ? O[t]->Find(e.P, e.N) : O[t]->Find(k.I);
				auto b = k.Str ? P[t]->Find(e.P, e.N) : P[t]->Find(k.I);
				if ((a != NULL) != (m != Model.end()) || (b != NULL) != (m != Model.end()))  Bad("lookup", H::Format("tables disagree (%zu): ", t) + k.Text());
				if (a && (a->Value != m->second || b->Value != m->second))  Bad("lookup", "tables hold different values: " + k.Text());
			}
			H::Count("lookups");
		}
		CL::Ev(H::Format("tables with %zu keys", Model.size()));
	}
	H::Sig(CL::LogSig);
	if (H::WantSample())  H::Sample(CL::Tail(12));
}
int main(int argc, char **argv) { return H::Main(argc, argv, RunCase); }
