// Passing a null pointer as the selection method must be diagnosed by the setter.
#include "gapp.hpp"
#include <cstdio>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace gapp;
template<typename F> static bool aborts(F f) { pid_t p = fork(); if (!p) { (void)!freopen("/dev/null", "w", stderr); f(); _exit(0); } int s; waitpid(p, &s, 0); return WIFSIGNALED(s); }
int main()
{
    bool a = aborts([] { algorithm::SingleObjective alg; alg.selection_method(std::unique_ptr<selection::Selection>{}); });
    bool b = aborts([] { algorithm::SingleObjective alg; alg.replacement_method(std::unique_ptr<replacement::Replacement>{}); });
    std::printf("null selection diagnosed: %d, null replacement diagnosed: %d\n", a, b);
    return a && b ? 0 : 1;
}
