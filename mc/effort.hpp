// Counts the work done: basic blocks executed (-fsanitize-coverage=trace-pc) and bytes moved by functions of the C library
// (link with -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=memchr,--wrap=strlen)
#pragma once
#define NOCOV __attribute__((no_sanitize_coverage))
namespace effort { inline unsigned long work=0; inline bool on=false;
struct Count { unsigned long s; NOCOV Count():s(work){ on=true; } NOCOV unsigned long get(){ return work-s; } NOCOV ~Count(){ on=false; } }; }
extern "C" {
NOCOV void __sanitizer_cov_trace_pc(void){ if (effort::on) effort::work++; }
void* __real_memcpy(void*,const void*,unsigned long); void* __real_memmove(void*,const void*,unsigned long); void* __real_memset(void*,int,unsigned long); int __real_memcmp(const void*,const void*,unsigned long); void* __real_memchr(const void*,int,unsigned long); unsigned long __real_strlen(const char*);
NOCOV void* __wrap_memcpy(void* d, const void* s, unsigned long n){ if (effort::on) effort::work+=n/8; return __real_memcpy(d,s,n); }
NOCOV void* __wrap_memmove(void* d, const void* s, unsigned long n){ if (effort::on) effort::work+=n/8; return __real_memmove(d,s,n); }
NOCOV void* __wrap_memset(void* d, int c, unsigned long n){ if (effort::on) effort::work+=n/8; return __real_memset(d,c,n); }
NOCOV int __wrap_memcmp(const void* a, const void* b, unsigned long n){ if (effort::on) effort::work+=n/8; return __real_memcmp(a,b,n); }
NOCOV void* __wrap_memchr(const void* a, int c, unsigned long n){ if (effort::on) effort::work+=n/8; return __real_memchr(a,c,n); }
NOCOV unsigned long __wrap_strlen(const char* a){ unsigned long n=__real_strlen(a); if (effort::on) effort::work+=n/8; return n; }
}
