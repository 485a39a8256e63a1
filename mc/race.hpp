// see race.cpp. All of this is called in a process of its own for each execution
#pragma once
#include <new>
namespace race {
extern int cur;                     // thread that runs: 1 or 2, 0: the harness
extern bool on;                     // accesses are recorded
extern unsigned long accesses, syncs;
extern char message[1024];          // the first conflict
void init();
void acquire(const volatile void* a); void release(const volatile void* a);
void read(const volatile void* a, unsigned long n, void* pc); void write(const volatile void* a, unsigned long n, void* pc); void fresh(void* a, unsigned long n);
} // namespace race
