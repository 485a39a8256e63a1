// Stateless bounded model checking of the real code by exhaustive enumeration of choice tapes.
//
// A harness provides   void mc_body( mc::Choice& c )   that builds one scenario from the choices c
// hands out, executes it against the real code and throws mc::Violation if the property is broken.
//   c.pick(n)   free choice: every one of the n alternatives is explored
//   c.dev(n)    deviation choice: alternative 0 is the default, the others cost 1 of the budget
// The explorer enumerates ALL tapes (depth first, odometer) whose number of deviations is <= the
// budget, iterating the budget from 0 up to the bound. Subtrees are distributed over forked workers.
#pragma once
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <stdexcept>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>

namespace mc {

struct Violation { std::string msg; explicit Violation(const std::string& m):msg(m){} };
struct SkipSubtree {};
struct BadTape {};

inline uint64_t mix(uint64_t h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
inline uint64_t hstr(const char* p, std::size_t n, uint64_t s=0xcbf29ce484222325ULL){ for (std::size_t i=0;i<n;i++){ s^=(unsigned char)p[i]; s*=0x100000001b3ULL; } return mix(s^n); }
inline uint64_t hstr(const std::string& x, uint64_t s=0xcbf29ce484222325ULL){ return hstr(x.data(),x.size(),s); }
inline uint64_t hcomb(uint64_t a, uint64_t b){ return mix(a*0x9E3779B97F4A7C15ULL+b+0x7F4A7C15ULL); }

std::string esc(const std::string& s);      // printable form of a byte string

struct Shared;  // counters in shared memory

class Choice
{
public:
	struct Ent { uint32_t v, n; bool dev; };
	// free choice
	unsigned pick(unsigned n) { return choose(n,false); }
	bool flip() { return choose(2,false)!=0; }
	// deviation choice (0 = default)
	unsigned dev(unsigned n) { return choose(n,true); }
	unsigned budgetLeft() const { return m_budget-m_used; }
	unsigned deviations() const { return m_used; }
	// free choice out of a list
	template <class T> const T& of(const std::vector<T>& l) { return l[ pick((unsigned)l.size())]; }
	template <class T> const T& devof(const std::vector<T>& l) { return l[ dev((unsigned)l.size())]; }

	// recording of what was covered
	void state(uint64_t h);             // a state of the system reached (by hash)
	void step(uint64_t n=1);            // transitions executed
	void trace(uint64_t n=1);           // complete model traces compared with the implementation
	void outcome(uint64_t h);           // distinct outcomes observed
	void show(const std::string& s);  // human readable form of the current scenario
	[[noreturn]] void fail(const std::string& m) { throw Violation(m); }
	bool thorough() const { return m_thorough; }
	bool replaying() const { return m_replay; }
	int  suite() const { return m_suite; }
	const std::string& shown() const { return m_show; }
	// --- used by the explorer only ---
	unsigned choose(unsigned n, bool dev);
	std::vector<Ent> m_tape; std::size_t m_pos=0;
	unsigned m_used=0, m_budget=0;
	bool m_thorough=false, m_replay=false; int m_suite=0;
	std::size_t m_sharddepth=3; unsigned m_worker=0, m_nworkers=1; bool m_sharded=false;
	std::string m_show;
};

// One suite = one body with its bounds
struct Suite
{
	std::string name;
	void (*body)(Choice&);
	unsigned budgetQuick, budgetThorough;  // max deviations
	unsigned sharddepth;
	std::string bounds;                    // text for the evidence
};

struct Probe   // known finding probe: returns empty string if the property holds on that input, else what failed
{
	std::string key;
	std::function<std::string()> run;
};

// to be provided by the harness
extern const char* property;
std::vector<Suite> suites(bool thorough);
std::vector<Probe> probes();
std::vector<std::string> assumptions();

} // namespace mc
#if !defined(PART) || PART==0
#define MC_PROPERTY(ID) namespace mc { const char* property=ID; }
#else
#define MC_PROPERTY(ID)
#endif
