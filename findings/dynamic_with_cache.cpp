// A dynamic fitness function with the cache turned on ("the cache will also be disabled when using a dynamic fitness function,
// regardless of the value set here"): the run aborted in an assertion.
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
struct Dyn final : FitnessFunction<BinaryGene, 8>
{
    Dyn() : FitnessFunction(Type::Dynamic) {}
    FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { return { double(std::count(c.begin(), c.end(), 1)) }; }
};
int main()
{
    BinaryGA ga{ 10 };
    ga.cache_size(2);
    ga.solve(Dyn{}, 5);
    std::puts("ok");
    return ga.num_fitness_evals() >= 50 ? 0 : 1;
}
