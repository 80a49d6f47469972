// The end-of-generation callback and the metrics must see each generation's own number.
#include <gapp.hpp>
#include <cstdio>
#include <vector>
using namespace gapp;
struct F : FitnessFunction<RealGene, 2> { FitnessVector invoke(const Chromosome<RealGene>& c) const override { return { -(c[0]*c[0] + c[1]*c[1]) }; } };
int main()
{
    std::vector<size_t> seen;
    RCGA ga(10);
    ga.track(metrics::FitnessMax{});
    ga.on_generation_end([&](const GaInfo& g) { seen.push_back(g.generation_cntr()); });
    ga.solve(F{}, Bounds{ -1.0, 1.0 }, 5);
    bool ok = seen.size() == 5;
    for (size_t i = 0; i < seen.size(); i++) { std::printf("callback %zu: generation_cntr() = %zu\n", i, seen[i]); ok = ok && seen[i] == i; }
    return !ok;
}
