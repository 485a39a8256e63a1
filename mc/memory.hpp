// All memory requested by the code under test is counted, and any single request can be made to fail
// (link with -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free)
#pragma once
#include <cstdlib>
#include <cstddef>
#include <new>
#include <malloc.h>
extern "C" { void* __real_malloc(std::size_t); void* __real_calloc(std::size_t,std::size_t); void* __real_realloc(void*,std::size_t); void __real_free(void*); }
namespace mem {
inline long& live(){ static long x=0; return x; }      // bytes in use
inline long& blocks(){ static long x=0; return x; }    // blocks in use
inline long& peak(){ static long x=0; return x; }      // most bytes in use since it was set
inline long& requests(){ static long x=0; return x; }  // requests while armed
inline long& failAt(){ static long x=0; return x; }    // number of the request that fails, 0: none
inline bool& armed(){ static bool x=false; return x; }
inline bool& forever(){ static bool x=false; return x; }   // all later requests fail, too
inline bool& hit(){ static bool x=false; return x; }
inline bool deny(){ if (!armed()) return false; if (++requests()!=failAt()&&!(forever()&&failAt()&&requests()>failAt())) return false; hit()=true; return true; }
inline void* got(void* p){ if (p) { live()+=(long)malloc_usable_size(p); ++blocks(); if (live()>peak()) peak()=live(); } return p; }
struct Use { long l,b; }; inline Use use(){ return Use{live(),blocks()}; }
struct Arm { explicit Arm(long n, bool all=false){ requests()=0; failAt()=n; forever()=all; hit()=false; armed()=true; } ~Arm(){ armed()=false; } };
} // namespace mem
extern "C" {
void* __wrap_malloc(std::size_t n){ return mem::deny()?0:mem::got(__real_malloc(n)); }
void* __wrap_calloc(std::size_t n, std::size_t m){ return mem::deny()?0:mem::got(__real_calloc(n,m)); }
void* __wrap_realloc(void* p, std::size_t n){ if (mem::deny()) return 0; long b=p?(long)malloc_usable_size(p):0; void* r=__real_realloc(p,n); if (r||!n) { mem::live()-=b; if (p) --mem::blocks(); mem::got(r); } return r; }
void __wrap_free(void* p){ if (p) { mem::live()-=(long)malloc_usable_size(p); --mem::blocks(); } __real_free(p); }
}
void* operator new(std::size_t n){ void* r=__wrap_malloc(n?n:1); if (!r) throw std::bad_alloc(); return r; }
void* operator new[](std::size_t n){ void* r=__wrap_malloc(n?n:1); if (!r) throw std::bad_alloc(); return r; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n?n:1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n?n:1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, std::size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
