S=[
dict(id='C02-stall-counter-kept', property='C02', edits=[('stop_condition/stop_condition.cpp','''    void FitnessBestStall::initialize(const GaInfo& ga)
    {
        reset();
''','''    void FitnessBestStall::initialize(const GaInfo& ga)
    {
        reset();
        if (fitness_max_.size() == ga.num_objectives()) return;
''')],
 needs='two runs with the same object and number of objectives, the second on a problem with lower fitness values, with a stall based stop condition',
 breaks='the best fitness of the previous run is kept, so the second run is seen as stalled from the start',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
struct F : FitnessFunction<BinaryGene, 8> { double k; mutable int n = 0; F(double k) : k(k) {} FitnessVector invoke(const Chromosome<BinaryGene>&) const override { return { k + ++n }; } };
int main()
{
    BinaryGA ga(10);
    ga.stop_condition(stopping::FitnessBestStall(5));
    execution_threads(1); ga.solve(F{ 1000.0 }, 50); const size_t first = ga.generation_cntr();
    ga.solve(F{ 0.0 }, 50); const size_t second = ga.generation_cntr();
    std::printf("first run stopped in generation %zu, second run in %zu\\n", first, second);
    return first != second;
}
'''),
dict(id='C02-cache-kept', property='C02', edits=[('core/ga_base.impl.hpp','''        fitness_cache_.reset(!fitness_function_->is_dynamic() * cached_generations_ * population_size_);''','''        const size_t cache_size = !fitness_function_->is_dynamic() * cached_generations_ * population_size_;
        if (fitness_cache_.capacity() != cache_size) fitness_cache_.reset(cache_size);''')],
 needs='two runs of one object with a fitness cache, different fitness functions and an equal population size',
 breaks='fitness values cached in the run of another problem are used for the new problem',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
struct F : FitnessFunction<BinaryGene, 3> { double k; F(double k) : k(k) {} FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { double s = k; for (auto g : c) s += double(g); return { s }; } };
int main()
{
    BinaryGA ga(20);
    ga.cache_size(5);
    ga.solve(F{ 0.0 }, 10);
    ga.solve(F{ 100.0 }, 10);
    int bad = 0;
    for (const auto& sol : ga.population()) if (sol.fitness[0] < 100.0) bad++;
    std::printf("%d solutions with the fitness of another problem\\n", bad);
    return bad != 0;
}
'''),
dict(id='C03-limit-not-restored-on-throw', property='C03', edits=[('utility/scope_exit.hpp','''        constexpr ~restore_on_exit() noexcept { vars_ = std::move(old_values_); }''','''        constexpr ~restore_on_exit() noexcept { if (entered_ == std::uncaught_exceptions()) vars_ = std::move(old_values_); }'''),
 ('utility/scope_exit.hpp','''        std::tuple<Ts...> old_values_;''','''        std::tuple<Ts...> old_values_;
        int entered_ = std::uncaught_exceptions();'''),('utility/scope_exit.hpp','#include <functional>','#include <exception>\n#include <functional>')],
 needs='a run with its own generation limit that is left by an exception from a callback',
 breaks='the generation limit of the aborted run stays in force for later runs',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
int main()
{
    RCGA ga(10); ga.max_gen(100);
    problems::Sphere f(3);
    ga.on_generation_end([](const GaInfo& g) { if (g.generation_cntr() == 1) throw 1; });
    try { ga.solve(f, f.bounds(), 7); } catch (int) {}
    std::printf("generation limit after the aborted run: %zu\\n", ga.max_gen());
    return ga.max_gen() != 100;
}
'''),
dict(id='C06-shared-mutation-scratch', property='C06', edits=[('mutation/mutation_base.impl.hpp','thread_local Candidate<T> old_candidate; old_candidate = candidate;','static Candidate<T> old_candidate; old_candidate = candidate;')],
 needs='two threads that mutate already evaluated candidates at the same time',
 breaks='concurrent mutations share the copy of the unmutated candidate',
 demo='''
#include "gapp.hpp"
#include <cstdio>
#include <thread>
#include <vector>
#include <atomic>
using namespace gapp;
struct F : FitnessFunction<IntegerGene, 3> { FitnessVector invoke(const Chromosome<IntegerGene>& c) const override { double s = 0; for (auto g : c) s = 10 * s + double(g); return { s }; } };
int main()
{
    IntegerGA ga(10);
    ga.solve(F{}, Bounds<IntegerGene>{ 0, 9 }, 1);
    std::atomic<int> bad = 0;
    struct M : mutation::Mutation<IntegerGene> { using Mutation::Mutation; bool allow_variable_chrom_length() const noexcept override { return false; }
        void mutate(const GA<IntegerGene>&, const Candidate<IntegerGene>&, Chromosome<IntegerGene>&) const override { std::this_thread::yield(); } };
    M m(0.5);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t]
    {
        for (int i = 0; i < 20000; i++)
        {
            Candidate<IntegerGene> c(Chromosome<IntegerGene>{ t, t, t }); c.fitness = { 1.0 }; c.is_evaluated = true;
            m(ga, c);
            if (!c.is_evaluated) bad++;
        }
    });
    for (auto& t : ts) t.join();
    std::printf("%d unchanged candidates compared with the candidate of another thread\\n", bad.load());
    return bad != 0;
}
'''),
dict(id='C06-merge-writes-other-element', property='C06', edits=[('core/population.hpp','''        std::vector<ParetoDominance> lhs_state(lhs.size());''','''        std::vector<bool> lhs_dominated(lhs.size());
        std::vector<ParetoDominance> lhs_state(lhs.size());'''),
 ('core/population.hpp','''                    if (math::paretoCompareLess(lhs[i].fitness, rhs[j].fitness))
                    {
                        lhs_state[i] = DOMINATED;''','''                    if (math::paretoCompareLess(lhs[i].fitness, rhs[j].fitness))
                    {
                        lhs_dominated[i] = true;
                        lhs_state[i] = DOMINATED;'''),
 ('core/population.hpp','''                if (comp < 0)
                {
                    lhs_state[i] = DOMINATED;''','''                if (comp < 0)
                {
                    lhs_dominated[i] = true;
                    lhs_state[i] = DOMINATED;'''),
 ('core/population.hpp','''if (lhs_state[i] != DOMINATED) optimal_solutions.push_back(std::move(lhs[i]));''','''if (!lhs_dominated[i]) optimal_solutions.push_back(std::move(lhs[i]));''')],
 needs='neighbouring solutions that are found to be dominated by different threads at the same time',
 breaks='the per-solution flags are bits of shared words that several threads write without synchronisation, so updates are lost and dominated solutions are kept',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
int main()
{
    int bad = 0;
    for (int k = 0; k < 400; k++)
    {
        Population<RealGene> a(2000), b(1);
        for (size_t i = 0; i < a.size(); i++) { a[i].chromosome = { double(i) }; a[i].fitness = { -1.0, -1.0 }; a[i].is_evaluated = true; }
        b[0].chromosome = { -1.0 }; b[0].fitness = { 1.0, 1.0 }; b[0].is_evaluated = true;
        auto r = detail::mergeParetoSets(a, b);
        if (r.size() != 1) bad++;
    }
    std::printf("%d merges with dominated solutions\\n", bad);
    return bad != 0;
}
'''),
]
