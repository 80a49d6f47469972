// Instantiations analysed by the checks: every class template of the library over representative
// arguments, and every convenience function template called once. Never executed.
#include <string>
#include <chrono>
#include <random>
#include <memory>
#include <iosfwd>
#include <list>
#include <shared_mutex>
#include <mutex>
#include <sstream>

namespace verif_inst
{
    using namespace gapp;

    // a user-defined encoding (documented customisation point)
    using UserGene = short;
}
namespace gapp { template<> struct GaTraits<verif_inst::UserGene> {
    using DefaultCrossover = crossover::Lambda<verif_inst::UserGene>; using DefaultMutation = mutation::Lambda<verif_inst::UserGene>;
    static DefaultCrossover defaultCrossover();
    static DefaultMutation defaultMutation();
    static Probability defaultMutationRate(size_t chrom_len); }; }

namespace verif_inst
{
    struct F1 : FitnessFunction<RealGene, 4> { FitnessVector invoke(const Chromosome<RealGene>&) const override; };
    struct FB : FitnessFunction<BinaryGene, 4> { FitnessVector invoke(const Chromosome<BinaryGene>&) const override; };
    struct FP : FitnessFunction<PermutationGene, 4> { FitnessVector invoke(const Chromosome<PermutationGene>&) const override; };
    struct FI : FitnessFunction<IntegerGene, 4> { FitnessVector invoke(const Chromosome<IntegerGene>&) const override; };

    template<typename G, typename Fit>
    void unbounded(Fit fit)
    {
        G ga(10);
        ga.solve(fit); ga.solve(fit, Population<typename G::GeneType>{}); ga.solve(fit, 5); ga.solve(fit, 5, Population<typename G::GeneType>{});
        ga.solve(std::make_unique<Fit>(fit)); ga.solve(std::make_unique<Fit>(fit), 5);
    }
    template<typename G, typename Fit>
    void bounded(Fit fit, Bounds<typename G::GeneType> b, BoundsVector<typename G::GeneType> bv)
    {
        using P = Population<typename G::GeneType>;
        G ga(10);
        ga.solve(fit, b); ga.solve(fit, b, P{}); ga.solve(fit, b, 5); ga.solve(fit, b, 5, P{});
        ga.solve(fit, bv); ga.solve(fit, bv, P{}); ga.solve(fit, bv, 5); ga.solve(fit, bv, 5, P{});
        ga.solve(std::make_unique<Fit>(fit), b); ga.solve(std::make_unique<Fit>(fit), b, 5);
        ga.solve(std::make_unique<Fit>(fit), bv); ga.solve(std::make_unique<Fit>(fit), bv, 5);
    }
    template<typename G, typename Cr, typename Mu>
    void configure(Cr cr, Mu mu)
    {
        G ga(10);
        G a2(10, std::make_unique<algorithm::NSGA2>());
        G a3(10, algorithm::NSGA3{});
        G a4(10, cr, mu);
        G a5(10, cr, mu, stopping::FitnessEvals{ 5 });
        G a6(10, algorithm::NSGA2{}, cr, mu);
        G a7(10, algorithm::NSGA2{}, cr, mu, stopping::FitnessEvals{ 5 });
        G a8(10, std::make_unique<Cr>(cr), std::make_unique<Mu>(mu));
        G a9(10, std::make_unique<algorithm::NSGA2>(), std::make_unique<Cr>(cr), std::make_unique<Mu>(mu));
        ga.algorithm(algorithm::NSGA2{});
        ga.algorithm(std::make_unique<algorithm::NSGA3>());
        ga.algorithm(nullptr);
        ga.crossover_method(cr); ga.mutation_method(mu);
        ga.stop_condition(stopping::FitnessEvals{ 10 });
        ga.stop_condition(std::make_unique<stopping::FitnessEvals>(10));
        ga.stop_condition([](const GaInfo& g) { return g.generation_cntr() > 10; });
        ga.stop_condition(nullptr);
        ga.track(metrics::FitnessMax{}, metrics::FitnessMin{}, metrics::AutoHypervolume{}, metrics::NadirPoint{});
        (void)ga.template get_metric<metrics::FitnessMax>();
        (void)ga.template get_metric_if<metrics::FitnessMax>();
        ga.on_generation_end([](const GaInfo&) {});
        ga.crossover_method([](const GA<typename G::GeneType>&, const Candidate<typename G::GeneType>& a, const Candidate<typename G::GeneType>& b) { return CandidatePair<typename G::GeneType>{ a, b }; });
        ga.mutation_method([](const GA<typename G::GeneType>&, const Candidate<typename G::GeneType>&, Chromosome<typename G::GeneType>&) {});
        ga.repair_function([](const GA<typename G::GeneType>&, const Chromosome<typename G::GeneType>& c) { return c; });
    }
}

//# segment: instantiate-ga
template class gapp::GA<gapp::BinaryGene>;
template class gapp::GA<gapp::RealGene>;
template class gapp::GA<gapp::PermutationGene>;
template class gapp::GA<gapp::IntegerGene>;

template class gapp::crossover::Crossover<gapp::BinaryGene>;
template class gapp::crossover::Crossover<gapp::RealGene>;
template class gapp::crossover::Crossover<gapp::PermutationGene>;
template class gapp::crossover::Crossover<gapp::IntegerGene>;
template class gapp::mutation::Mutation<gapp::BinaryGene>;
template class gapp::mutation::Mutation<gapp::RealGene>;
template class gapp::mutation::Mutation<gapp::PermutationGene>;
template class gapp::mutation::Mutation<gapp::IntegerGene>;
template class gapp::crossover::Lambda<gapp::RealGene>;
template class gapp::mutation::Lambda<gapp::RealGene>;
template class gapp::crossover::Lambda<gapp::BinaryGene>;
template class gapp::mutation::Lambda<gapp::BinaryGene>;

template class gapp::FitnessFunctionBase<gapp::RealGene>;
template class gapp::FitnessFunction<gapp::RealGene, 4>;
template class gapp::FitnessFunction<gapp::BinaryGene, 3>;
template class gapp::detail::FitnessLambda<gapp::RealGene>;
template class gapp::detail::FitnessLambda<gapp::BinaryGene>;

//# segment: instantiate-utilities
template class gapp::detail::fifo_cache<gapp::Candidate<gapp::RealGene>, gapp::FitnessVector>;
template class gapp::detail::fifo_cache<int, std::string>;
template class gapp::detail::circular_buffer<int>;
template class gapp::detail::circular_buffer<std::string>;
template class gapp::detail::concurrent_queue<int>;
template class gapp::detail::Matrix<double>;
template class gapp::detail::Matrix<size_t>;
template class gapp::small_vector<double>;
template class gapp::small_vector<int, 4>;
template class gapp::small_vector<std::string, 2>;
template class gapp::detail::BoundedValue<double, gapp::detail::Interval<double>{ 0.0, 1.0, true, true }>;
template class gapp::detail::BoundedValue<size_t, gapp::detail::Interval<size_t>{ 0, std::numeric_limits<size_t>::max(), false, true }>;
template class gapp::detail::BoundedValue<double, gapp::detail::Interval<double>{ 0.0, std::numeric_limits<double>::max(), true, true }>;
template class gapp::rng::QuasiRandom<double>;
template class gapp::detail::rcu_obj<std::string>;

//# segment: instantiate-permutation-crossovers
namespace verif_inst
{
    inline void use_generic_permutation_crossovers(const gapp::Candidate<int>& a, const gapp::Candidate<int>& b, std::span<const size_t> idx)
    {
        using namespace gapp::crossover::dtl;
        (void)order1CrossoverImpl(a, b, 0, 1); (void)order2CrossoverImpl(a, b, 0, 1); (void)positionCrossoverImpl(a, b, idx);
        (void)cycleCrossoverImpl(a, b); (void)edgeCrossoverImpl(a, b); (void)pmxCrossoverImpl(a, b, 0, 1);
        (void)twoPointCrossoverImpl(a, b, { 0, 1 });
    }
}

//# segment: use-solve-and-configure
namespace verif_inst
{
    inline void use_solve_and_configure(F1 f1, FB fb, FP fp, FI fi)
    {
        unbounded<BinaryGA>(fb); unbounded<PermutationGA>(fp);
        bounded<RCGA>(f1, Bounds<RealGene>{ 0.0, 1.0 }, BoundsVector<RealGene>(4, Bounds<RealGene>{ 0.0, 1.0 }));
        bounded<IntegerGA>(fi, Bounds<IntegerGene>{ 0, 1 }, BoundsVector<IntegerGene>(4, Bounds<IntegerGene>{ 0, 1 }));
        configure<BinaryGA>(crossover::binary::TwoPoint{}, mutation::binary::Flip{ 0.1 });
        configure<RCGA>(crossover::real::BLXa{}, mutation::real::Gauss{ 0.1 });
        configure<PermutationGA>(crossover::perm::Edge{}, mutation::perm::Inversion{ 0.1 });
        configure<IntegerGA>(crossover::integer::NPoint{ 3 }, mutation::integer::Uniform{ 0.1 });
    }
}

//# segment: use-problems
namespace verif_inst
{
    inline void use_problems(F1 f1, FB fb, FP fp, FI fi)
    {
        { problems::Sphere p(3); RCGA ga(10); ga.solve(p, p.bounds()); }
        { problems::ZDT5 p(3); BinaryGA ga(10); ga.solve(p); }
        { problems::TSP52 p; PermutationGA ga(10); ga.solve(p); }
    }
}

//# segment: use-single-objective-algorithm
namespace verif_inst
{
    inline void use_single_objective_algorithm(F1 f1, FB fb, FP fp, FI fi)
    {
        algorithm::SingleObjective so1{ selection::Tournament{}, replacement::KeepBest{} };
        so1.selection_method(selection::Roulette{}); so1.replacement_method(replacement::Elitism{ 2 });
        so1.selection_method(std::make_unique<selection::Rank>()); so1.replacement_method(std::make_unique<replacement::KeepChildren>());
        so1.selection_method([](const GaInfo&, const FitnessMatrix&) { return size_t(0); });
        so1.replacement_method([](const GaInfo&, const FitnessMatrix&) { return small_vector<size_t>{}; });
        algorithm::SingleObjective so2{ selection::Sigma{} }; algorithm::SingleObjective so3{ std::make_unique<selection::Boltzmann>() };
    }
}

//# segment: use-stop-conditions
namespace verif_inst
{
    inline void use_stop_conditions(F1 f1, FB fb, FP fp, FI fi)
    {
        auto c1 = stopping::FitnessEvals{ 10 } && stopping::FitnessMeanStall{ 3 };
        auto c2 = stopping::FitnessBestStall{ 3 } || stopping::FitnessValue{ FitnessVector{ 1.0 } };
        auto c3 = !stopping::FitnessEvals{ 10 };
        (void)c1; (void)c2; (void)c3;
    }
}

//# segment: use-nested-stop-conditions
namespace verif_inst
{
    inline void use_nested_stop_conditions(GA<RealGene>& ga)
    {
        ga.stop_condition((stopping::FitnessEvals{ 10 } || stopping::FitnessMeanStall{ 3 }) && !stopping::FitnessBestStall{ 3 });
        ga.stop_condition(!(stopping::FitnessEvals{ 10 } && stopping::FitnessMeanStall{ 3 }) || stopping::FitnessBestStall{ 3 });
        ga.stop_condition(!!stopping::FitnessMeanStall{ 3 });
    }
}

//# segment: use-containers-utilities
namespace verif_inst
{
    inline void use_containers_utilities(F1 f1, FB fb, FP fp, FI fi)
    {
        detail::concurrent_queue<std::string> q; (void)q.emplace("a"); std::string out; (void)q.take();
        detail::fifo_cache<int, std::string> fc(3); fc.insert(1, "x"); fc.insert(2, std::string{}); fc.try_insert(3, "y");
        std::vector<std::pair<int, std::string>> kv; 
        std::list<int> ls{ 1, 2 };
        detail::circular_buffer<std::string> cb(3); cb.emplace_back("x"); cb.emplace_front("y"); cb.push_back("z"); cb.push_front("w");
        detail::circular_buffer<int> cb2(4, ls.begin(), ls.end());
        small_vector<std::string, 2> sv(ls.size(), std::string{ "a" }); sv.emplace_back("x"); sv.emplace(sv.begin(), "y"); sv.push_back("z");
        std::vector<std::string> lss{ "a" }; sv.insert(sv.begin(), lss.begin(), lss.end()); sv.assign(lss.begin(), lss.end());
        std::istringstream iss; sv.assign(std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>()); sv.insert(sv.begin(), std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>());
        small_vector<int, 4> si{ 1, 2, 3 }; std::vector<int> vi{ 1, 2 }; si.insert(si.begin(), vi.begin(), vi.end()); si.emplace(si.begin(), 3); si.emplace_back(4);
        detail::Matrix<double> m(3, 3); m.append_row(small_vector<double>{ 1.0, 2.0, 3.0 }); m.append_row(m[0]); m[1] = m[0]; (void)(m == m);
        m[0] = std::vector<double>{ 1, 2, 3 };
    }
}

//# segment: use-parallel-helpers
namespace verif_inst
{
    inline void use_parallel_helpers(F1 f1, FB fb, FP fp, FI fi)
    {
        detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(10_sz), [](size_t) {});
        detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(10_sz), 3, [](size_t) {});
    }
}

//# segment: use-rng
namespace verif_inst
{
    inline void use_rng(F1 f1, FB fb, FP fp, FI fi)
    {
        (void)rng::randomBool(); (void)rng::randomInt(0, 5); (void)rng::randomInt<size_t>(0, 5); (void)rng::randomReal<double>(0.0, 1.0); (void)rng::randomReal<double>();
        (void)rng::randomNormal<double>(0.0, 1.0); (void)rng::randomBinomial<int>(3, 0.5); (void)rng::randomBinomial<size_t>(3, 0.5); (void)rng::randomPoisson<int>(0.5);
        (void)rng::sampleUnique(0, 100, 3); (void)rng::sampleUnique<size_t>(0, 100, 3); std::vector<double> cdf{ 1.0 }; (void)rng::sampleCdf<double>(cdf);
        (void)rng::randomIndex(cdf); (void)rng::randomElement(cdf.begin(), cdf.end()); rng::prng.seed(3); (void)rng::prng();

        detail::scope_exit se([] {}); se.release(); int x = 1, y = 2; detail::restore_on_exit re(x, y);
        math::ScopedTolerances st(1e-3, 1e-3);
        detail::rcu_obj<std::string> ro; ro = std::string{};
        { std::shared_lock rl(ro); (void)ro.get(); } 
    }
}


//# segment: selftest
// constructs the rules must report on every run
namespace verif_selftest
{
    using namespace gapp;
    class half_forwarding final : public stopping::StopCondition
    {
        void initialize(const GaInfo& ga) override { first_.initialize(ga); }
        bool stop_condition(const GaInfo& ga) override { return std::invoke(first_, ga) || std::invoke(second_, ga); }
        stopping::FitnessMeanStall first_;
        stopping::FitnessMeanStall second_;
    };
    struct sometimes_recording final : metrics::Monitor<sometimes_recording, std::vector<double>>
    {
        void initialize(const GaInfo&) override {}
        void update(const GaInfo& ga) override { if (ga.generation_cntr() > 1) data_.push_back(0.0); }
    };
    inline void uncounted(Candidate<RealGene>& sol, const FitnessFunctionBase<RealGene>& f) { sol.fitness = f(sol.chromosome); sol.is_evaluated = true; }
    class forgetful
    {
    public:
        explicit forgetful(size_t width) noexcept { (void)width; }
        void width(size_t width) noexcept { if (width > width_) width_ = width; }
        size_t width() const noexcept { return width_; }
    private:
        size_t width_ = 0;
    };
    inline void use_forgetful() { forgetful f{ 3 }; f.width(5); (void)f.width(); }
    class unlocked_read
    {
    public:
        void put(int v) { std::scoped_lock _{ lock_ }; values_.push_back(v); }
        size_t count() const { return values_.size(); }
    private:
        mutable std::mutex lock_;
        std::vector<int> values_;
    };
    class leaves_locked
    {
    public:
        bool put(int v) { lock_.lock(); if (v < 0) return false; value_ = v; lock_.unlock(); return true; }
    private:
        detail::spinlock lock_;
        int value_ = 0;
    };
    inline void use_locks() { unlocked_read u; u.put(1); (void)u.count(); leaves_locked l; (void)l.put(1); }
    class lossy_queue
    {
    public:
        bool put(int v) { std::scoped_lock _{ lock_ }; if (closed_) return false; const bool wake = values_.empty(); values_.push_back(v); if (wake) cv_.notify_one(); return true; }
        std::optional<int> take() { std::unique_lock l{ lock_ }; cv_.wait(l, [&] { return !values_.empty() || closed_; }); if (values_.empty()) return {}; int v = values_.front(); values_.pop_front(); return v; }
        void close() { std::scoped_lock _{ lock_ }; closed_ = true; cv_.notify_all(); }
    private:
        std::mutex lock_;
        std::condition_variable cv_;
        std::deque<int> values_;
        bool closed_ = false;
    };
    inline void use_queue() { lossy_queue q; (void)q.put(1); (void)q.take(); q.close(); }

    class unchecked_argument {
    public:
        /** @param f The callable. Can't be a nullptr. */
        void set(std::function<int()> f) { f_ = std::move(f); }
    private:
        std::function<int()> f_;
    };
    inline void use_unchecked_argument(unchecked_argument& a) { a.set(nullptr); }

    inline double grow_while_iterating(std::vector<double>& v) { double s = 0.0; for (double x : v) { s += x; if (x < 0.0) v.push_back(-x); } return s; }
    inline double stale_reference(std::vector<double>& v) { double& first = v.front(); v.push_back(1.0); first = 2.0; return v.back(); }
    inline size_t moved_twice(std::vector<double> v) { std::vector<double> w = std::move(v); return w.size() + v.size(); }
    class stale_owner
    {
    public:
        void put(int v) { values_.push_back(v); }
        int repeat() { return twice(values_.front()); }
    private:
        int twice(const int& stale_argument) { values_.push_back(stale_argument); return stale_argument; }
        std::vector<int> values_;
    };
    inline std::span<const double> returns_local_span(size_t n) { std::vector<double> v(n); return v; }
    inline std::function<int()> escaping_capture(int n) { return [&] { return n; }; }
    inline void use_stale() { std::vector<double> v(2); (void)grow_while_iterating(v); (void)stale_reference(v); (void)moved_twice(v); stale_owner o; o.put(1); (void)o.repeat(); (void)returns_local_span(2); (void)escaping_capture(2); }

    inline size_t own_engine(size_t n) { std::minstd_rand gen{ 1 }; return std::uniform_int_distribution<size_t>{ 0, n }(gen); }
    inline bool wall_clock() { return std::chrono::steady_clock::now().time_since_epoch().count() % 2; }
    inline double kept_distribution() { thread_local std::normal_distribution<double> dist; return dist(rng::prng); }
    inline double kept_spare() { static thread_local double spare = 0.0; const double r = rng::randomReal(); const double old = spare; spare = r; return old; }
    inline void use_random() { (void)own_engine(2); (void)wall_clock(); (void)kept_distribution(); (void)kept_spare(); }

    class misplaced_data
    {
    public:
        small_vector<size_t> nextPopulationImpl(const FitnessMatrix& fmat)
        {
            weights_.resize(fmat.size());
            small_vector<size_t> next(fmat.size() / 2);
            for (size_t i = 0; i < fmat.size(); i++) weights_[i] = fmat[i][0];
            std::vector<algorithm::dtl::FrontElement> order;
            for (size_t i = 0; i < fmat.size(); i++) order.emplace_back(i, i);
            for (const auto& elem : order) weights_[elem.idx] = fmat[elem.idx][0];
            for (size_t i = 0; i < next.size(); i++) next[i] = order[i].idx;
            return next;
        }
        size_t selectImpl() const { return weights_[0] < weights_[1]; }
    private:
        std::vector<double> weights_;
    };
    inline void use_misplaced_data(const FitnessMatrix& m) { misplaced_data d; (void)d.nextPopulationImpl(m); (void)d.selectImpl(); }

    class counting_check
    {
    public:
        int next() { GAPP_ASSERT(++calls_ > 0); return calls_; }
        int draw() { GAPP_ASSERT(lucky(), "unlucky"); return calls_; }
    private:
        static bool lucky() { return rng::randomReal() >= 0.0; }
        int calls_ = 0;
    };
    inline void use_counting_check() { counting_check c; (void)c.next(); (void)c.draw(); }

    inline size_t never_throws(const std::function<size_t(size_t)>& f, std::vector<size_t>& v) noexcept { std::transform(v.begin(), v.end(), v.begin(), [&](size_t x) { return f(x); }); return v.size(); }
    inline bool swallow_all(const std::function<void()>& f) { try { f(); } catch (...) { return false; } return true; }
    inline void use_throwing() { std::vector<size_t> v(2); (void)never_throws([](size_t x) { return x; }, v); (void)swallow_all([] {}); }

    class unclamped
    {
    public:
        void mutate(const GA<RealGene>& ga, const Candidate<RealGene>&, Chromosome<RealGene>& chromosome) const
        {
            const auto& bounds = ga.gene_bounds();
            GAPP_ASSERT(bounds.size() == chromosome.size());
            for (size_t i = 0; i < chromosome.size(); i++) { chromosome[i] += rng::randomReal(); chromosome[i] = std::max(chromosome[i], bounds[i].lower()); }
        }
    };
    class one_too_far
    {
    public:
        void mutate(const GA<IntegerGene>&, const Candidate<IntegerGene>&, Chromosome<IntegerGene>& chromosome) const
        {
            for (size_t i = 0; i + 1 <= chromosome.size(); i++) std::swap(chromosome[i], chromosome[i + 1]);
        }
    };
    inline void use_numeric(const GA<RealGene>& r, const GA<IntegerGene>& n, Candidate<RealGene>& a, Candidate<IntegerGene>& b) { unclamped{}.mutate(r, a, a.chromosome); one_too_far{}.mutate(n, b, b.chromosome); }

    inline void sort_not_strict(std::vector<size_t>& idx, const std::vector<double>& key) { std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return key[a] <= key[b]; }); }
}
