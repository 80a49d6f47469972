S=[
dict(id='C04-integer-two-valued-genes', property='C04', edits=[('mutation/integer.cpp','''            GeneType old_gene = chromosome[idx];''','''            if (bounds[idx].upper() - bounds[idx].lower() == 1)
            {
                chromosome[idx] = 1 - chromosome[idx];
                continue;
            }

            GeneType old_gene = chromosome[idx];''')],
 needs='integer genes with exactly two values that are not 0 and 1',
 breaks='the mutated gene leaves the bounds of its position',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
struct F : FitnessFunction<IntegerGene, 4> { FitnessVector invoke(const Chromosome<IntegerGene>& c) const override { double s = 0; for (auto g : c) s -= double(g); return { s }; } };
int main()
{
    IntegerGA ga(20);
    ga.mutation_method(mutation::integer::Uniform{ 0.5 });
    ga.solve(F{}, Bounds<IntegerGene>{ 3, 4 }, 20);
    int bad = 0;
    for (const auto& sol : ga.population()) for (auto g : sol.chromosome) if (g < 3 || g > 4) bad++;
    std::printf("%d genes out of bounds\\n", bad);
    return bad != 0;
}
'''),
dict(id='C16-more-points-than-genes', property='C16', edits=[('crossover/binary.cpp','''const size_t num_crossover_points = std::min(size_t(n_), chrom_len);''','''const size_t num_crossover_points = n_;''')],
 needs='an n-point crossover with more crossover points than the chromosome has genes',
 breaks='more different crossover points are requested than there are positions',
 flags='src/crossover/binary.cpp',
 demo='''
#include "gapp.hpp"
#include <cstdio>
#include <csignal>
#include <unistd.h>
using namespace gapp;
struct F : FitnessFunction<BinaryGene, 4> { FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { double s = 0; for (auto g : c) s += double(g); return { s }; } };
int main()
{
    std::signal(SIGABRT, [](int) { _exit(3); });
    BinaryGA ga(10);
    ga.crossover_method(crossover::binary::NPoint{ 1.0, 9 });
    ga.solve(F{}, 10);
    return 0;
}
'''),
dict(id='C13-constructor-loses-spread', property='C13', edits=[('mutation/real.hpp','''        constexpr explicit NonUniform(Probability pm, NonNegative<GeneType> beta = 2.0) noexcept :
            Mutation(pm), beta_(beta)''','''        constexpr explicit NonUniform(Probability pm, NonNegative<GeneType> beta = 2.0) noexcept :
            Mutation(pm), beta_(pm > 0.0 ? beta : NonNegative<GeneType>(2.0))''')],
 needs='a mutation rate of zero that is raised later, together with a parameter given to the constructor',
 breaks='the parameter given to the constructor is replaced by its default',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
int main()
{
    mutation::real::NonUniform m{ 0.0, 7.5 };
    std::printf("beta = %g\\n", m.beta());
    return m.beta() != 7.5;
}
'''),
dict(id='C15-selection-must-not-throw', property='C15', edits=[('core/ga_base.impl.hpp','''        GAPP_ASSERT(algorithm_);

        return algorithm_->select(*this, population(), fitness_matrix());
''','''        GAPP_ASSERT(algorithm_);

        const auto selected = [this]() noexcept -> const Candidate<T>&
        {
            return algorithm_->select(*this, population(), fitness_matrix());
        };

        return selected();
''')],
 needs='a selection method that throws',
 breaks='an exception of a user defined selection ends the program',
 demo='''
#include "gapp.hpp"
#include <cstdio>
#include <stdexcept>
using namespace gapp;
int main()
{
    execution_threads(1);
    RCGA ga(10);
    ga.algorithm(algorithm::SingleObjective{ [](const GaInfo& ga, const FitnessMatrix&) -> size_t { if (ga.generation_cntr() == 3) throw std::runtime_error("x"); return 0; } });
    try { ga.solve(problems::Sphere(3), Bounds{ -1.0, 1.0 }, 10); }
    catch (const std::runtime_error&) { return 0; }
    return 1;
}
'''),
dict(id='C25-empty-generations-skipped', property='C25', edits=[('metrics/misc_metrics.cpp','''        data_.push_back(sum_ - old_sum);''','''        if (sum_ != old_sum) data_.push_back(sum_ - old_sum);''')],
 needs='a generation in which no solution has to be evaluated',
 breaks='a generation without evaluations gets no entry, so later entries belong to other generations',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
struct F : FitnessFunction<BinaryGene, 3> { FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { return { double(c[0]) }; } };
int main()
{
    BinaryGA ga(6);
    ga.crossover_method(crossover::binary::SinglePoint{ 0.0 });
    ga.mutation_method(mutation::binary::Flip{ 0.0 });
    ga.track(metrics::FitnessEvaluations{});
    ga.solve(F{}, 20);
    const auto& m = ga.get_metric<metrics::FitnessEvaluations>();
    std::printf("%zu entries after generation %zu\\n", m.size(), ga.generation_cntr());
    return m.size() != ga.generation_cntr() + 1;
}
'''),
dict(id='C07-emptiness-unlocked', property='C07', edits=[('utility/concurrent_queue.hpp','''            std::scoped_lock lock{ queue_lock_ };
            return queue_.empty();''','''            return queue_.empty();''')],
 needs='a thread that asks whether a queue is empty while another one adds work',
 breaks='the queue is read without its lock',
 flags='-fsanitize=thread',
 demo='''
#include "utility/concurrent_queue.hpp"
#include <thread>
int main()
{
    gapp::detail::concurrent_queue<int> q;
    std::thread t([&] { for (int i = 0; i < 2000; i++) (void) q.emplace(i); });
    size_t n = 0;
    for (int i = 0; i < 2000; i++) n += q.empty();
    t.join();
    return n > 2000;
}
'''),
dict(id='C18-positions-sorted-later', property='C18', edits=[('algorithm/nsga2.cpp','''        return new_pop;
    }

    small_vector<size_t> NSGA2::optimal''','''        std::sort(new_pop.begin(), new_pop.end()); // keep the order of the candidates

        return new_pop;
    }

    small_vector<size_t> NSGA2::optimal''')],
 needs='solutions of several ranks in one population',
 breaks='the ranks belong to other positions than the solutions they describe',
 demo='''
#include "gapp.hpp"
#include <cstdio>
using namespace gapp;
int main()
{
    execution_threads(1);
    RCGA ga(20, algorithm::NSGA2{});
    int bad = 0;
    ga.on_generation_end([&](const GaInfo& info)
    {
        const auto& a = info.algorithm();
        const auto idxs = a.optimalSolutions(static_cast<const RCGA&>(info), static_cast<const RCGA&>(info).population());
        const auto& fmat = info.fitness_matrix();
        for (const auto& sol : idxs) for (const auto& f : fmat)
        {
            bool better = false, worse = false;
            for (size_t i = 0; i < f.size(); i++) { if (f[i] > sol.fitness[i] + 1e-6) better = true; if (f[i] < sol.fitness[i] - 1e-6) worse = true; }
            if (better && !worse) bad++;
        }
    });
    ga.solve(problems::ZDT1(5), Bounds{ 0.0, 1.0 }, 15);
    std::printf("%d dominated solutions among the optimal ones\\n", bad);
    return bad != 0;
}
'''),
dict(id='C22-check-evaluates-again', property='C22', edits=[('core/ga_base.impl.hpp','''        GAPP_ASSERT(hasValidFitness(sol));
    }''','''        GAPP_ASSERT(hasValidFitness(sol));
        GAPP_ASSERT(fitness_function_->is_dynamic() || sol.fitness == (*fitness_function_)(sol.chromosome), "The fitness function isn't deterministic.");
    }''')],
 needs='a fitness function that counts its calls, in a build with the internal checks',
 breaks='a build with checks calls the fitness function twice for each solution',
 flags='src/encoding/binary.cpp src/crossover/binary.cpp src/mutation/binary.cpp',
 demo='''
#include "gapp.hpp"
#include <atomic>
#include <cstdio>
using namespace gapp;
static std::atomic<size_t> calls{ 0 };
struct F : FitnessFunction<BinaryGene, 10> { FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { calls++; return { double(c[0]) }; } };
int main()
{
    BinaryGA ga(20);
    ga.solve(F{}, 10);
    std::printf("%zu calls, %zu evaluations\\n", size_t(calls), ga.num_fitness_evals());
    return calls > ga.num_fitness_evals() + 1; /* one more call finds the number of objectives */
}
'''),
dict(id='C14-weights-checked-in-constructor-only', property='C14', edits=[('algorithm/soga_selection.cpp','''    void Rank::weights(NonNegative<double> min_weight, NonNegative<double> max_weight) noexcept
    {
        GAPP_ASSERT(min_weight <= max_weight, "The maximum selection weight can't be less than the minimum.");''','''    void Rank::weights(NonNegative<double> min_weight, NonNegative<double> max_weight) noexcept
    {
        GAPP_ASSERT(min_weight <= max_weight || max_weight <= 1.0, "The maximum selection weight can't be less than the minimum.");''')],
 needs='a pair of small selection weights in the wrong order given to the setter',
 breaks='an illegal pair of weights is accepted',
 flags='src/algorithm/soga_selection.cpp',
 demo='''
#include "gapp.hpp"
#include <csignal>
#include <unistd.h>
using namespace gapp;
int main()
{
    std::signal(SIGABRT, [](int) { _exit(0); });
    selection::Rank r; r.weights(0.9, 0.1);
    return 1;
}
'''),
]
