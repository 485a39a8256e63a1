// The description of an automaton (tostring), compiled as C++98 as the library itself is
#include "textwolf/xmlpathautomaton.hpp"
#include "textwolf/charset.hpp"
#include <string>
#include <cstring>
#include <alloca.h>
typedef textwolf::XMLPathSelectAutomaton<textwolf::charset::IsoLatin> Atm98;
__attribute__((noinline)) static std::string describe( const char* steps, int kind, int a, int b)
{
	Atm98 atm; Atm98::PathElement p = *atm;
	for (; *steps; ++steps) switch (*steps)
	{
		case '/': p.forAllDescendants(); break;
		case '*': p.selectTag( 0); break;
		case '@': p.selectAttribute( "x"); break;
		case '=': p.ifAttribute( "x", "1"); break;
		case '(': p.selectContent(); break;
		default: { char n[2]; n[0] = *steps; n[1] = 0; p.selectTag( n); }
	}
	switch (kind) { case 0: p.INDEX( a); break; case 1: p.FROM( a); break; case 2: p.TO( a); break; case 3: p.RANGE( a, b); break; default: break; }
	p.assignType( 4);
	return atm.tostring();
}
// depth: size of stack used before
std::string describe98( const char* steps, int kind, int a, int b, unsigned depth)
{
	char* m = (char*)alloca( depth + 16); std::memset( m, 1, depth + 16); __asm__ volatile("" : : "r"(m) : "memory");
	return describe( steps, kind, a, b);
}
