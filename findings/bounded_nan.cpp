// A bounded value (probability, ...) must refuse NaN: it is in no interval.
#include "gapp.hpp"
#include <cstdio>
#include <csignal>
#include <limits>
#include <sys/wait.h>
#include <unistd.h>
using namespace gapp;
template<typename F> static bool aborts(F f) { pid_t p = fork(); if (!p) { (void)!freopen("/dev/null", "w", stderr); f(); _exit(0); } int s; waitpid(p, &s, 0); return WIFSIGNALED(s); }
int main()
{
    volatile double nan = std::numeric_limits<double>::quiet_NaN();
    bool a = aborts([&] { BinaryGA ga; ga.mutation_rate(nan); });
    bool b = aborts([&] { mutation::real::Gauss m(0.1, nan); });
    std::printf("NaN probability refused: %d, NaN deviation refused: %d\n", a, b);
    return a && b ? 0 : 1;
}
