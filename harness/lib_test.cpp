// The library the shared library driver loads.
#include <cstring>
#include <cstdint>
static std::uint64_t Calls[64];
static std::uint64_t LastHash;
static std::uint64_t Mix(const void *p, size_t n, std::uint64_t h) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++)  { h ^= b[i]; h *= 0x100000001b3ull; } return h; }
template <class T> static std::uint64_t M(T v, std::uint64_t h) { return Mix(&v, sizeof(v), h); }
struct Big { std::int64_t A[5]; };
extern "C"
{
	std::uint64_t lt_calls(int i) { return Calls[i]; }
	std::uint64_t lt_last() { return LastHash; }
	int f_int0() { Calls[0]++; LastHash = 1; return -7; }
	int f_int(int a, int b) { Calls[1]++; LastHash = M(b, M(a, 2)); return (int)(3u * (unsigned)a - (unsigned)b); }
	double f_dbl(double a, int b, float c) { Calls[2]++; LastHash = M(c, M(b, M(a, 3))); return a * b + c; }
	std::uint64_t f_many(std::int8_t a, std::uint16_t b, std::int32_t c, std::uint64_t d, double e, float f, const char *g, void *h, std::int64_t i, std::uint8_t j)
	{
		Calls[3]++;
		std::uint64_t x = 4;
		x = M(a, x); x = M(b, x); x = M(c, x); x = M(d, x); x = M(e, x); x = M(f, x); x = Mix(g, strlen(g), x); x = M(h, x); x = M(i, x); x = M(j, x);
		return LastHash = x;
	}
	const char *f_str(const char *s) { Calls[4]++; LastHash = Mix(s, strlen(s), 5); return *s ? s + 1 : s; }
	void f_void0() { Calls[5]++; LastHash = 6; }
	void f_void(int a, double b) { Calls[6]++; LastHash = M(b, M(a, 7)); }
	void f_out(int *p, int v) { Calls[7]++; LastHash = M(v, 8); *p = v; }
	bool f_bool(bool a) { Calls[8]++; LastHash = M(a, 9); return !a; }
	Big f_big(Big b, int k) { Calls[9]++; LastHash = M(k, M(b, 10)); for (int i = 0; i < 5; i++)  b.A[i] = (std::int64_t)((std::uint64_t)b.A[i] + (std::uint64_t)k); return b; }
	float f_flt(float a) { Calls[10]++; LastHash = M(a, 11); return a / 2; }
	std::int64_t f_i64(std::int64_t a) { Calls[11]++; LastHash = M(a, 12); return (std::int64_t)~(std::uint64_t)a; }
}
