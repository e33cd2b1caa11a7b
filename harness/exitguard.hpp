// std::exit of the code under test becomes a C++ level jump back to the harness.
#pragma once
#include <csetjmp>
#include <cstdlib>
#include <unistd.h>
namespace eg { inline jmp_buf& env() { static jmp_buf e; return e; } inline volatile bool& armed() { static volatile bool a = false; return a; } inline volatile int& code() { static volatile int c = 0; return c; } }
extern "C" void exit(int c) { if (eg::armed()) { eg::armed() = false; eg::code() = c; longjmp(eg::env(), 1); } _exit(c == 77 ? 99 : c); }
// returns true if fn called exit
template<typename F> inline bool exits(const F& fn) { if (setjmp(eg::env())) return true; eg::armed() = true; fn(); eg::armed() = false; return false; }
