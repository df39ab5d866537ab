// what fakecl.cpp needs
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <string>
namespace mc {
    [[noreturn]] inline void internal_error(const std::string &s) { puts(s.c_str()); exit(3); }
    enum Kind { FREE, PREEMPT, WAKE, FAULT, DATA };
    inline unsigned choose(unsigned, Kind = FREE, const char * = "") { return 0; }
    [[noreturn]] inline void failf(const char *sig, const char *fmt, ...) { va_list a; va_start(a, fmt); printf("%s: ", sig); vprintf(fmt, a); puts(""); exit(1); }
}
