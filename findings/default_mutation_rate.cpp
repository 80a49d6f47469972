// A GA constructed without a mutation method must deduce the mutation rate from each problem it solves.
#include <gapp.hpp>
#include <cstdio>
using namespace gapp;
template<size_t N> struct F : FitnessFunction<BinaryGene, N> { FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { double s = 0; for (auto g : c) s += g; return { s }; } };
int main()
{
    BinaryGA ga(10);
    ga.solve(F<10>{}, 2); double p1 = ga.mutation_rate();
    ga.solve(F<200>{}, 2); double p2 = ga.mutation_rate();
    BinaryGA fresh(10);
    fresh.solve(F<200>{}, 2); double p3 = fresh.mutation_rate();
    std::printf("10 genes: %g, then 200 genes: %g (fresh GA: %g)\n", p1, p2, p3);
    return p2 != p3;
}
