// Watches the allocations made while library code runs (sanitizer allocator hooks), for leak checks.
#ifndef VERIF_ALLOC_H
#define VERIF_ALLOC_H
#include "common.h"
#include <sanitizer/allocator_interface.h>

namespace A
{
	static const size_t Cap = 1 << 20;
	inline const volatile void **Tab() { static const volatile void **t = (const volatile void **)::calloc(Cap, sizeof(void *)); return t; }
	struct St { size_t Live = 0; std::uint64_t Total = 0; volatile int Lock = 0; };
	inline St &S() { static St s; return s; }
	inline int &Depth() { static __thread int d; return d; }
	inline void Acquire() { while (__sync_lock_test_and_set(&S().Lock, 1))  ; }
	inline void Release() { __sync_lock_release(&S().Lock); }
	inline size_t Slot(const volatile void *p) { return (size_t)(((std::uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44); }
	inline void OnMalloc(const volatile void *p, size_t)
	{
		if (!Depth() || !p)  return;
		Acquire();
		const volatile void **t = Tab();
		size_t i = Slot(p);
		while (t[i] && t[i] != p)  i = (i + 1) & (Cap - 1);
		if (!t[i])  { t[i] = p; S().Live++; S().Total++; }
		Release();
	}
	inline void OnFree(const volatile void *p)
	{
		if (!p || !S().Live)  return;
		Acquire();
		const volatile void **t = Tab();
		size_t i = Slot(p);
		while (t[i] && t[i] != p)  i = (i + 1) & (Cap - 1);
		if (t[i] == p)
		{
			// Linear probing removal.
			size_t j = i;
			for (;;)
			{
				t[i] = nullptr;
				for (;;)
				{
					j = (j + 1) & (Cap - 1);
					if (!t[j])  { S().Live--; Release(); return; }
					size_t k = Slot(t[j]);
					if (i <= j ? (i < k && k <= j) : (i < k || k <= j))  continue;
					break;
				}
				t[i] = t[j];
				i = j;
			}
		}
		Release();
	}
	inline void Install()
	{
		Tab();
		S();
		if (!__sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree))  H::HarnessError("cannot install allocation hooks");
	}
	// Allocations made inside a Scope belong to the library until freed.
	struct Scope { Scope() { Depth()++; } ~Scope() { Depth()--; } };
	// Inside a Scope: what is allocated here belongs to the harness.
	struct Outside { int d; Outside() : d(Depth()) { Depth() = 0; } ~Outside() { Depth() = d; } };
	inline size_t Live() { return S().Live; }
	inline void Reset() { if (S().Live)  { memset((void *)Tab(), 0, Cap * sizeof(void *)); S().Live = 0; } }
}
#endif
