// The scaling parameter of the sigma scaling selection must influence the selection: with a huge scale every candidate is about
// equally likely to be selected.
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
struct F final : FitnessFunction<BinaryGene, 8>
{
    FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { return { double(std::count(c.begin(), c.end(), 1)) }; }
};
static double share_of_worst(double scale)
{
    static double worst;
    auto a = std::make_unique<algorithm::SingleObjective>(selection::Sigma{ scale });
    auto* p = a.get();
    BinaryGA ga{ 50 };
    ga.algorithm(std::move(a));
    ga.on_generation_end([p](const GaInfo& g) {
        if (g.generation_cntr() != 0) return;
        const auto& fm = g.fitness_matrix(); p->prepareSelections(g, fm);
        double lo = 1e9; for (size_t i = 0; i < fm.size(); i++) lo = std::min(lo, fm[i][0]);
        size_t hit = 0, n = 200000, cnt = 0; for (size_t i = 0; i < fm.size(); i++) cnt += fm[i][0] == lo;
        rng::prng.seed(1);
        const auto& pop = dynamic_cast<const BinaryGA&>(g).population();
        for (size_t i = 0; i < n; i++) hit += p->select<BinaryGene>(dynamic_cast<const BinaryGA&>(g), pop, fm).fitness[0] == lo;
        worst = double(hit) / n / cnt * fm.size();
    });
    ga.solve(F{}, 1);
    return worst;
}
int main()
{
    double a = share_of_worst(0.5), b = share_of_worst(1000.0);
    std::printf("relative share of the worst candidate: scale 0.5 -> %.3f, scale 1000 -> %.3f\n", a, b);
    return b > 0.9 && a < 0.5 ? 0 : 1;
}
