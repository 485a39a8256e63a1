// Detection of data races: all memory accesses of instrumented code (-fsanitize=thread) end in the functions defined here
// instead of the run time library of the compiler. Two threads run alternately under the control of the harness; an access is
// in conflict with one of the other thread if one of both is a write and they are not ordered by synchronization.
#include "race.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <malloc.h>
#include <dlfcn.h>
#include <sys/mman.h>
#define NI __attribute__((no_sanitize("thread"),noinline))
#define NS __attribute__((no_sanitize("thread")))
namespace race {
int cur=0; bool on=false; unsigned long accesses=0, syncs=0; char message[1024]={0};
enum {Bits=18, Size=1<<Bits};
struct Cell { unsigned long key; unsigned int r[2][8], w[2][8]; void* pc[2]; };
static Cell* table=0; static unsigned long used=0;
static unsigned int vc[2][2]={{1,0},{0,1}};
struct Sync { unsigned long a; unsigned int c[2]; }; static Sync sync_[4096]; static unsigned nsync=0;
NS void init(){ table=(Cell*)mmap(0,sizeof(Cell)*(unsigned long)Size,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (table==MAP_FAILED) abort(); }
NS static Cell* cell(unsigned long k, bool make){ unsigned long i=(k*0x9E3779B97F4A7C15UL)>>(64-Bits); for (;;i=(i+1)&(Size-1)) { Cell& c=table[i]; if (c.key==k+1) return &c; if (!c.key) { if (!make) return 0; if (++used>Size/2) { if (!message[0]) strcpy(message,"the table of accesses is full"); return 0; } c.key=k+1; return &c; } } }
NS static void report(unsigned long a, bool w, bool ow, void* pc, void* opc)
{
	if (message[0]) return; on=false; Dl_info i,j,d; char at[300]="memory"; if (dladdr((void*)a,&d)&&d.dli_sname&&a<(unsigned long)d.dli_saddr+65536) snprintf(at,sizeof(at),"%s+%lu",d.dli_sname,a-(unsigned long)d.dli_saddr);
	const char* f=dladdr(pc,&i)&&i.dli_sname?i.dli_sname:"?"; const char* g=dladdr(opc,&j)&&j.dli_sname?j.dli_sname:"?"; snprintf(message,sizeof(message),"%s by thread %d in %.250s and %s by thread %d in %.250s of %.250s without synchronization",w?"write":"read",cur,f,ow?"write":"read",3-cur,g,at); on=true;
}
NS static void access(unsigned long a, unsigned long n, bool w, void* pc)
{
	if (!on||!cur) return; accesses++; int me=cur-1, ot=1-me; unsigned int my=vc[me][me], seen=vc[me][ot];
	while (n) { unsigned long k=a>>3; unsigned o=a&7, m=8-o; if (m>n) m=n; Cell* c=cell(k,true); if (!c) return; for (unsigned i=o;i<o+m;i++) { if (c->w[ot][i]>seen) report((k<<3)+i,w,true,pc,c->pc[ot]); else if (w&&c->r[ot][i]>seen) report((k<<3)+i,w,false,pc,c->pc[ot]); (w?c->w:c->r)[me][i]=my; } c->pc[me]=pc; a+=m; n-=m; }
}
NS static void forget(unsigned long a, unsigned long n){ if (!table) return; for (unsigned long k=a>>3;k<=(a+n)>>3;k++) { Cell* c=cell(k,false); if (c) { memset(c->r,0,sizeof(c->r)); memset(c->w,0,sizeof(c->w)); } } }
NS static Sync& syncOf(unsigned long a){ for (unsigned i=0;i<nsync;i++) if (sync_[i].a==a) return sync_[i]; if (nsync==4096) abort(); Sync& s=sync_[nsync++]; s.a=a; s.c[0]=s.c[1]=0; return s; }
NS void acquire(const volatile void* a){ if (!on||!cur) return; syncs++; Sync& s=syncOf((unsigned long)a); for (int i=0;i<2;i++) if (s.c[i]>vc[cur-1][i]) vc[cur-1][i]=s.c[i]; }
NS void release(const volatile void* a){ if (!on||!cur) return; syncs++; Sync& s=syncOf((unsigned long)a); for (int i=0;i<2;i++) if (vc[cur-1][i]>s.c[i]) s.c[i]=vc[cur-1][i]; vc[cur-1][cur-1]++; }
NS void read(const volatile void* a, unsigned long n, void* pc){ access((unsigned long)a,n,false,pc); }
NS void write(const volatile void* a, unsigned long n, void* pc){ access((unsigned long)a,n,true,pc); }
NS void fresh(void* a, unsigned long n){ forget((unsigned long)a,n); }
} // namespace race
#define PC __builtin_return_address(0)
extern "C" {
#define RW(N) NS void __tsan_read##N(void* a){ race::read(a,N,PC); } NS void __tsan_write##N(void* a){ race::write(a,N,PC); } NS void __tsan_unaligned_read##N(void* a){ race::read(a,N,PC); } NS void __tsan_unaligned_write##N(void* a){ race::write(a,N,PC); } \
 NS void __tsan_volatile_read##N(void* a){ race::read(a,N,PC); } NS void __tsan_volatile_write##N(void* a){ race::write(a,N,PC); } NS void __tsan_unaligned_volatile_read##N(void* a){ race::read(a,N,PC); } NS void __tsan_unaligned_volatile_write##N(void* a){ race::write(a,N,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NS void __tsan_read_range(void* a, unsigned long n){ race::read(a,n,PC); }
NS void __tsan_write_range(void* a, unsigned long n){ race::write(a,n,PC); }
NS void __tsan_vptr_update(void** a, void* v){ if (*a!=v) race::write(a,8,PC); }
NS void __tsan_vptr_read(void** a){ race::read(a,8,PC); }
NS void __tsan_func_entry(void*){} NS void __tsan_func_exit(void){} NS void __tsan_init(void){}
// counting references orders the last one behind the others only
#define AT(B,T) \
NS T __tsan_atomic##B##_load(const volatile T* a, int){ race::acquire(a); return *a; } \
NS void __tsan_atomic##B##_store(volatile T* a, T v, int){ race::release(a); *a=v; } \
NS T __tsan_atomic##B##_exchange(volatile T* a, T v, int){ race::acquire(a); race::release(a); T o=*a; *a=v; return o; } \
NS T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int){ T o=*a; if ((T)(v<<1)<v) { race::release(a); if ((T)(o+v)==0) race::acquire(a); } *a=o+v; return o; } \
NS T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int){ T o=*a; race::release(a); if (o==v) race::acquire(a); *a=o-v; return o; } \
NS T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int){ race::acquire(a); race::release(a); T o=*a; *a=o|v; return o; } \
NS T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int){ race::acquire(a); race::release(a); T o=*a; *a=o&v; return o; } \
NS T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int){ race::acquire(a); race::release(a); T o=*a; *a=o^v; return o; } \
NS int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int){ race::acquire(a); if (*a==*e) { race::release(a); *a=v; return 1; } *e=*a; return 0; } \
NS int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int x, int y){ return __tsan_atomic##B##_compare_exchange_strong(a,e,v,x,y); }
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
NS void __tsan_atomic_thread_fence(int){} NS void __tsan_atomic_signal_fence(int){}
// static objects of functions are constructed under mutual exclusion
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
NS int __wrap___cxa_guard_acquire(void* g){ int r=__real___cxa_guard_acquire(g); race::acquire(g); return r; }
NS void __wrap___cxa_guard_release(void* g){ race::release(g); __real___cxa_guard_release(g); }
NS void __wrap___cxa_guard_abort(void* g){ race::release(g); __real___cxa_guard_abort(g); }
// memory: what is allocated is new, what is freed must not be in use by the other thread
void* __real_malloc(unsigned long); void* __real_calloc(unsigned long,unsigned long); void* __real_realloc(void*,unsigned long); void __real_free(void*);
NS void* __wrap_malloc(unsigned long n){ void* p=__real_malloc(n); if (p&&race::cur) race::fresh(p,malloc_usable_size(p)); return p; }
NS void* __wrap_calloc(unsigned long n, unsigned long m){ void* p=__real_calloc(n,m); if (p&&race::cur) race::fresh(p,malloc_usable_size(p)); return p; }
NS void __wrap_free(void* p){ if (p&&race::cur) race::write(p,malloc_usable_size(p),PC); __real_free(p); }
NS void* __wrap_realloc(void* p, unsigned long n){ if (p&&race::cur) race::write(p,malloc_usable_size(p),PC); void* q=__real_realloc(p,n); if (q&&race::cur) race::fresh(q,malloc_usable_size(q)); return q; }
// functions of the C library
void* __real_memcpy(void*,const void*,unsigned long); void* __real_memmove(void*,const void*,unsigned long); void* __real_memset(void*,int,unsigned long); int __real_memcmp(const void*,const void*,unsigned long); void* __real_memchr(const void*,int,unsigned long); unsigned long __real_strlen(const char*); int __real_strcmp(const char*,const char*);
NS void* __wrap_memcpy(void* d, const void* s, unsigned long n){ race::read(s,n,PC); race::write(d,n,PC); return __real_memcpy(d,s,n); }
NS void* __wrap_memmove(void* d, const void* s, unsigned long n){ race::read(s,n,PC); race::write(d,n,PC); return __real_memmove(d,s,n); }
NS void* __wrap_memset(void* d, int c, unsigned long n){ race::write(d,n,PC); return __real_memset(d,c,n); }
NS int __wrap_memcmp(const void* a, const void* b, unsigned long n){ race::read(a,n,PC); race::read(b,n,PC); return __real_memcmp(a,b,n); }
NS void* __wrap_memchr(const void* a, int c, unsigned long n){ race::read(a,n,PC); return __real_memchr(a,c,n); }
NS unsigned long __wrap_strlen(const char* a){ unsigned long n=__real_strlen(a); race::read(a,n+1,PC); return n; }
NS int __wrap_strcmp(const char* a, const char* b){ race::read(a,__real_strlen(a)+1,PC); race::read(b,__real_strlen(b)+1,PC); return __real_strcmp(a,b); }
}
NS void* operator new(unsigned long n){ void* r=__wrap_malloc(n?n:1); if (!r) throw std::bad_alloc(); return r; }
NS void* operator new[](unsigned long n){ return operator new(n); }
NS void operator delete(void* p) noexcept { __wrap_free(p); }
NS void operator delete[](void* p) noexcept { __wrap_free(p); }
NS void operator delete(void* p, unsigned long) noexcept { __wrap_free(p); }
NS void operator delete[](void* p, unsigned long) noexcept { __wrap_free(p); }
