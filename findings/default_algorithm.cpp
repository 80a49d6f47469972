// Constructors that are not given an algorithm (or are given a nullptr) must deduce it from the number of objectives.
#include <gapp.hpp>
#include <cstdio>
using namespace gapp;
struct F : FitnessFunction<BinaryGene, 10> { FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { return { double(c[0]), double(c[1]), 1.0 - c[0] }; } };
#ifndef NULLCASE
int main()
{
    BinaryGA ga(10, crossover::binary::SinglePoint{}, mutation::binary::Flip{ 0.1 }, stopping::NoEarlyStop{});
    ga.solve(F{}, 2);   // 3 objectives: NSGA-III expected
    bool ok = dynamic_cast<const algorithm::NSGA3*>(&ga.algorithm());
    std::printf("multi-objective algorithm chosen: %d\n", ok);
    return !ok;
}
#else
int main()
{
    BinaryGA ga(10, std::unique_ptr<algorithm::Algorithm>{});
    ga.solve(F{}, 2);
    bool ok = dynamic_cast<const algorithm::NSGA3*>(&ga.algorithm());
    std::printf("algorithm chosen: %d\n", ok);
    return !ok;
}
#endif
