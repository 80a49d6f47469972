S=[
dict(id='C01-crossover-second-parent', property='C01', edits=[('crossover/crossover_base.impl.hpp','''        else if (child2 == parent2)
        {
            child2.fitness = parent2.fitness;''','''        else if (child2 == parent2)
        {
            child2.fitness = child1.fitness;''')],
 needs='a crossover whose second child equals the second parent while the first child differs',
 breaks='the second child is marked as evaluated with the fitness of the other child',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
struct F : FitnessFunction<IntegerGene, 3> { FitnessVector invoke(const Chromosome<IntegerGene>& c) const override { double s = 0; for (auto g : c) s = 10 * s + double(g); return { s }; } };
int main()
{
    // a crossover that changes only the first child
    struct X : crossover::Crossover<IntegerGene>
    {
        CandidatePair<IntegerGene> crossover(const GA<IntegerGene>&, const Candidate<IntegerGene>& a, const Candidate<IntegerGene>& b) const override
        {
            Candidate<IntegerGene> c1 = b, c2 = b; (void)a; return { c1, c2 };
        }
    };
    IntegerGA ga(10); X x; x.crossover_rate(1.0);
    ga.solve(F{}, Bounds<IntegerGene>{ 0, 9 }, 1);
    F f; int bad = 0;
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) if (i != j)
    {
        Candidate<IntegerGene> a(Chromosome<IntegerGene>{ i, 1, 2 }), b(Chromosome<IntegerGene>{ j, 3, 4 });
        a.fitness = f(a.chromosome); a.is_evaluated = true; b.fitness = f(b.chromosome); b.is_evaluated = true;
        struct Y : X { CandidatePair<IntegerGene> crossover(const GA<IntegerGene>&, const Candidate<IntegerGene>& p, const Candidate<IntegerGene>& q) const override { auto c1 = p; c1.chromosome[1] = 9; return { c1, q }; } } y;
        y.crossover_rate(1.0);
        auto [c1, c2] = y(ga, a, b);
        if (c1.is_evaluated && c1.fitness != f(c1.chromosome)) bad++;
        if (c2.is_evaluated && c2.fitness != f(c2.chromosome)) bad++;
    }
    std::printf("%d stale fitness values\\n", bad);
    return bad != 0;
}
'''),
dict(id='C11-metrics-after-callback', property='C11', edits=[('core/ga_base.impl.hpp','''        metrics_.update(*this);

        if (on_generation_end_) on_generation_end_(*this);
    }

    template<typename T>
    Population<T> GA<T>::generatePopulation(''','''        if (on_generation_end_) on_generation_end_(*this);
        metrics_.update(*this);
    }

    template<typename T>
    Population<T> GA<T>::generatePopulation(''')] ,
 needs='a callback that reads a tracked metric of the initial generation',
 breaks='the metrics of the initial generation are recorded only after the callback of that generation',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
int main()
{
    RCGA ga(10); ga.track(metrics::FitnessMax{});
    int bad = 0;
    ga.on_generation_end([&](const GaInfo& g) { if (g.get_metric<metrics::FitnessMax>().size() != g.generation_cntr() + 1) bad++; });
    problems::Sphere f(3); ga.solve(f, f.bounds(), 4);
    std::printf("%d generations without their metric\\n", bad);
    return bad != 0;
}
'''),
]
