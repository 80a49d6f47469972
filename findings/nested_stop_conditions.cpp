// Combined stop conditions can be combined further, and every part is evaluated in every generation.
#include <gapp.hpp>
#include <cstdio>
using namespace gapp;
struct F : FitnessFunction<RealGene, 2> { FitnessVector invoke(const Chromosome<RealGene>& c) const override { return { -(c[0]*c[0] + c[1]*c[1]) }; } };
static int inits = 0, evals = 0;
struct Always : stopping::StopCondition { bool stop_condition(const GaInfo&) override { return true; } };
struct Counter : stopping::StopCondition { void initialize(const GaInfo&) override { inits++; } bool stop_condition(const GaInfo&) override { evals++; return false; } };
struct After5 : stopping::StopCondition { bool stop_condition(const GaInfo& ga) override { return ga.generation_cntr() >= 5; } };
int main()
{
    RCGA ga(10);
    ga.stop_condition((Always{} || Counter{}) && !!After5{});
    ga.solve(F{}, Bounds{ -1.0, 1.0 }, 50);
    std::printf("nested part: initialized %d times, evaluated %d times in %zu generations\n", inits, evals, ga.generation_cntr() + 1);
    return !(inits == 1 && evals == int(ga.generation_cntr() + 1));
}
