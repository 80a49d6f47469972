// mutation::perm::Shift with a maximum range of 1.0 must not ask for two different positions among one (aborts or hangs without the repair).
#include "gapp.hpp"
#include <cstdio>
#include <unistd.h>
using namespace gapp;
struct F final : FitnessFunction<PermutationGene, 3> { FitnessVector invoke(const Chromosome<PermutationGene>&) const override { return { 0.0 }; } };
int main()
{
    alarm(20);
    PermutationGA ga(20);
    ga.mutation_method(mutation::perm::Shift(1.0, 1.0));
    ga.solve(F{}, 20);
    std::printf("ended normally\n");
}
