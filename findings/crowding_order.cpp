// NSGA-II: the crowding distance used for a solution in the selections must be the distance of that solution, not of whichever
// candidate has the same number in the combined population. (build with -fno-access-control)
#include "gapp.hpp"
#include <cstdio>
#include <cmath>
using namespace gapp;
struct F final : FitnessFunction<RealGene, 2>
{
    FitnessVector invoke(const Chromosome<RealGene>& c) const override { return { c[0], 1.0 - c[0] * c[0] + 0.1 * c[1] }; }
};
int main()
{
    RCGA ga{ 20 };
    auto a = std::make_unique<algorithm::NSGA2>();
    auto* p = a.get();
    ga.algorithm(std::move(a));
    size_t wrong = 0, checked = 0;
    ga.on_generation_end([&](const GaInfo& g) {
        const auto& fm = g.fitness_matrix();
        for (size_t obj = 0; obj < 2; obj++)
        {
            double best = -1e300;
            for (size_t i = 0; i < fm.size(); i++) if (p->ranks_[i] == 0) best = std::max(best, fm[i][obj]);
            bool found = false;
            for (size_t i = 0; i < fm.size(); i++) if (p->ranks_[i] == 0 && fm[i][obj] == best) found = found || std::isinf(p->dists_[i]);
            checked++; wrong += !found;     // the extreme solutions of a front have an infinite crowding distance
        }
    });
    ga.solve(F{}, Bounds{ -1.0, 1.0 }, 30);
    std::printf("fronts checked: %zu, extreme solution without an infinite crowding distance: %zu\n", checked, wrong);
    return wrong ? 1 : 0;
}
