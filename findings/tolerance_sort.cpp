// The replacement keeps a solution and drops one that is better by more than the tolerance of the comparisons,
// because the comparator given to the sort is not a strict weak ordering (equality within a tolerance is not transitive).
#include "gapp.hpp"
#include <algorithm>
#include <cstdio>
using namespace gapp;
int main()
{
    BinaryGA ga(3);
    FitnessMatrix best_worst; double worst_gap = 0.0;
    for (int i = 0; i < 20000; i++)
    {
        FitnessMatrix fmat;
        for (int j = 0; j < 6; j++) fmat.append_row(std::vector<double>{ 0.2E-12 * rng::randomInt(0, 20) });
        std::unique_ptr<replacement::Replacement> keep = std::make_unique<replacement::KeepBest>();
        const auto kept = keep->nextPopulationImpl(ga, fmat);
        double low = 1.0, high = -1.0;
        for (size_t j = 0; j < 6; j++)
        {
            if (std::find(kept.begin(), kept.end(), j) != kept.end()) low = std::min(low, fmat[j][0]); else high = std::max(high, fmat[j][0]);
        }
        if (high - low > worst_gap) { worst_gap = high - low; best_worst = fmat; }
    }
    std::printf("a dropped solution is better than a kept one by %g times the tolerance\n", worst_gap / 1E-12);
    return worst_gap > 1.0E-12;
}
