SOLVE = '''        initializeAlgorithm({ /* no bounds */ }, std::move(initial_population));
        while (!stopCondition())
        {
            advance();
        }
        if (!keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);

        return solutions_;'''
SOLVEB = SOLVE.replace('{ /* no bounds */ }', 'std::move(bounds)')
E = [
('core/ga_base.decl.hpp', '        void advance();', '''        void advance();
        Candidates<T> run(MaybeBoundsVector bounds, Population<T> initial_population);
        void resetState();
        void evaluatePopulation(Population<T>& pop);
        Population<T> createChildren() const;
        void finishGeneration();
        std::pair<Candidate<T>, Candidate<T>> nextChildren() const;'''),
('core/ga_base.impl.hpp', SOLVE, '''        return run({ /* no bounds */ }, std::move(initial_population));'''),
('core/ga_base.impl.hpp', SOLVEB, '''        return run(std::move(bounds), std::move(initial_population));'''),
('core/ga_base.impl.hpp', '''    template<typename T>
    void GA<T>::advance()
    {''', '''    template<typename T>
    Candidates<T> GA<T>::run(MaybeBoundsVector bounds, Population<T> initial_population)
    {
        initializeAlgorithm(std::move(bounds), std::move(initial_population));
        for (bool done = stopCondition(); !done; done = stopCondition())
        {
            advance();
        }
        if (!keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);

        return solutions_;
    }

    template<typename T>
    void GA<T>::resetState()
    {
        generation_cntr_ = 0;
        num_fitness_evals_ = 0;
        solutions_.clear();
        population_.clear();
        const size_t cached_gens = fitness_function_->is_dynamic() ? 0_sz : cached_generations_;
        fitness_cache_.reset(cached_gens * population_size_);
    }

    template<typename T>
    void GA<T>::evaluatePopulation(Population<T>& pop)
    {
        detail::parallel_for(pop.begin(), pop.end(), [this](Candidate<T>& sol) { evaluate(sol); });
    }

    template<typename T>
    std::pair<Candidate<T>, Candidate<T>> GA<T>::nextChildren() const
    {
        const Candidate<T>& parent1 = select();
        const Candidate<T>& parent2 = select();
        CandidatePair<T> pair = crossover(parent1, parent2);
        return { std::move(pair.first), std::move(pair.second) };
    }

    template<typename T>
    Population<T> GA<T>::createChildren() const
    {
        const size_t n = population_size_;
        Population<T> children(n);

        detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(n / 2), [&](size_t i)
        {
            auto [first, second] = nextChildren();
            children[2 * i]     = std::move(first);
            children[2 * i + 1] = std::move(second);
        });
        if (n % 2 == 1) children.back() = nextChildren().first;

        return children;
    }

    template<typename T>
    void GA<T>::finishGeneration()
    {
        metrics_.update(*this);
        if (on_generation_end_) on_generation_end_(*this);
    }

    template<typename T>
    void GA<T>::advance()
    {'''),
('core/ga_base.impl.hpp', '''        generation_cntr_ = 0;
        num_fitness_evals_ = 0;
        solutions_.clear();
        population_.clear();
        fitness_cache_.reset(!fitness_function_->is_dynamic() * cached_generations_ * population_size_);
        if constexpr (is_bounded<T>)''', '''        resetState();
        if constexpr (is_bounded<T>)'''),
('core/ga_base.impl.hpp', '''        Population<T> children(population_size_);

        prepareSelections();
        detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(population_size_ / 2), [&](size_t i)
        {
            CandidatePair child_pair = crossover(select(), select());
            children[2 * i]     = std::move(child_pair.first);
            children[2 * i + 1] = std::move(child_pair.second);
        });
        if (population_size_ % 2) children.back() = crossover(select(), select()).first;
''', '''        prepareSelections();
        Population<T> children = createChildren();
'''),
('core/ga_base.impl.hpp', '''        detail::parallel_for(population_.begin(), population_.end(), [this](Candidate<T>& sol) { evaluate(sol); });
        fitness_matrix_ =''', '''        evaluatePopulation(population_);
        fitness_matrix_ ='''),
('core/ga_base.impl.hpp', '''        metrics_.initialize(*this);
        metrics_.update(*this);

        if (on_generation_end_) on_generation_end_(*this);''', '''        metrics_.initialize(*this);
        finishGeneration();'''),
('core/ga_base.impl.hpp', '''        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
        metrics_.update(*this);
        if (on_generation_end_) on_generation_end_(*this);''', '''        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
        finishGeneration();'''),
# selections: shared helper
('algorithm/soga_selection.cpp', '''        /* Roulette selection wouldn't work for negative fitness values. */
        const double lowest = *std::min_element(fvec.begin(), fvec.end());
        const double offset = -(2.0 / 3.0) * std::min(0.0, lowest); // only adjust if there are negative fitness values
        const double scale = (lowest >= 0.0) ? 1.0 : (1.0 / 3.0);   // scaling to prevent overflow

        std::transform(fvec.begin(), fvec.end(), fvec.begin(), detail::multiply_add(scale, offset));
''', '''        makeNonNegative(fvec);
'''),
('algorithm/soga_selection.cpp', '''    void Roulette::prepareSelectionsImpl(''', '''    /* Roulette selection wouldn't work for negative fitness values. */
    static void makeNonNegative(FitnessVector& fvec)
    {
        const double lowest = *std::min_element(fvec.begin(), fvec.end());
        const bool any_negative = lowest < 0.0;
        const double offset = any_negative ? -(2.0 / 3.0) * lowest : 0.0;
        const double scale = any_negative ? (1.0 / 3.0) : 1.0;
        for (double& f : fvec) f = scale * f + offset;
    }

    void Roulette::prepareSelectionsImpl('''),
('algorithm/soga_selection.cpp', '''        for (size_t i = 0; i < indices.size(); i++)
        {
            const double t = i / (weights.size() - 1.0);
            weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
        }''', '''        size_t rank = 0;
        for (size_t idx : indices)
        {
            const double t = rank++ / (weights.size() - 1.0);
            weights[idx] = std::lerp(min_weight_, max_weight_, t);
        }'''),
# nsga2: extracted helper for a single front
('algorithm/nsga2.cpp', '''                for (auto it = front.begin() + 1; it < front.end() - 1; ++it)
                {
                    const size_t next = std::next(it)->idx;
                    const size_t prev = std::prev(it)->idx;
                    crowding_distances[it->idx] += (fvec[next] - fvec[prev]) / finterval;
                }''', '''                for (size_t i = 1; i + 1 < front.size(); i++)
                {
                    const size_t next = front[i + 1].idx;
                    const size_t prev = front[i - 1].idx;
                    crowding_distances[front[i].idx] += (fvec[next] - fvec[prev]) / finterval;
                }'''),
# thread pool: helpers
('utility/thread_pool.hpp', '''            for (worker_t& worker : workers_) { worker.task_queue.close(); }''', '''            std::for_each(workers_.begin(), workers_.end(), [](worker_t& worker) { worker.task_queue.close(); });'''),
('utility/thread_pool.hpp', '''                    GAPP_TRY { while (block_first != block_last) { std::invoke(unary_op, *block_first++); } }''', '''                    GAPP_TRY { for (; block_first != block_last; ++block_first) { std::invoke(unary_op, *block_first); } }'''),
('utility/thread_pool.hpp', '''                while (first != last) { std::invoke(unary_op, *first++); }''', '''                for (; first != last; ++first) { std::invoke(unary_op, *first); }'''),
('utility/thread_pool.hpp', '''            if (auto* local_queue = local_worker_queue(); !local_queue)
            {
                remaining_tasks.wait();
            }
            else while (true)
            {
                while (!local_queue->empty()) { std::invoke(*local_queue->take()); }
                if (remaining_tasks.try_wait()) break;
                std::this_thread::yield();
            }''', '''            auto* local_queue = local_worker_queue();
            if (local_queue == nullptr)
            {
                remaining_tasks.wait();
            }
            else
            {
                while (!remaining_tasks.try_wait())
                {
                    while (!local_queue->empty()) { std::invoke(*local_queue->take()); }
                    std::this_thread::yield();
                }
            }'''),
('core/ga_info.cpp', '''        use_default_algorithm_ = !f;
        algorithm_ = f ? std::move(f) : std::make_unique<algorithm::SingleObjective>();''', '''        if (!f)
        {
            algorithm(nullptr);
            return;
        }
        algorithm_ = std::move(f);
        use_default_algorithm_ = false;'''),
('core/ga_info.cpp', '''        stop_condition_ = f ? std::move(f) : std::make_unique<stopping::NoEarlyStop>();''', '''        if (!f) f = std::make_unique<stopping::NoEarlyStop>();
        stop_condition_ = std::move(f);'''),
('algorithm/soga_selection.cpp', '''        GAPP_ASSERT(min_weight <= max_weight, "The maximum selection weight can't be less than the minimum.");

        min_weight_ = min_weight;
        max_weight_ = max_weight;''', '''        GAPP_ASSERT(!(max_weight < min_weight), "The maximum selection weight can't be less than the minimum.");

        max_weight_ = max_weight;
        min_weight_ = min_weight;'''),
('core/population.cpp', '''            if (!dominated) optimal_indices.push_back(idx);''', '''            if (dominated) continue;
            optimal_indices.push_back(idx);'''),
('mutation/permutation.cpp', '''        if (chromosome.size() < 2) return;

        if (rng::randomReal() <= mutation_rate())
        {
            const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 2_sz);

            using std::swap;
            swap(chromosome[idxs[0]], chromosome[idxs[1]]);
        }''', '''        const size_t n = chromosome.size();
        if (n < 2) return;
        if (!(rng::randomReal() <= mutation_rate())) return;

        const auto idxs = rng::sampleUnique(0_sz, n, 2_sz);
        const GeneType first_gene = chromosome[idxs[0]];
        chromosome[idxs[0]] = chromosome[idxs[1]];
        chromosome[idxs[1]] = first_gene;'''),
('metrics/distribution_metrics.cpp', '''        data_.clear();
        data_.reserve(ga.max_gen());

        ideal_points_.clear();
        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());''', '''        const size_t gens = ga.max_gen();
        ideal_points_ = {};
        ideal_points_.reserve(gens, ga.num_objectives());
        data_ = {};
        data_.reserve(gens);'''),
('utility/bounded_value.hpp', '''            if (!(value >= left_)  || (!left_inclusive_  && value == left_))  return false;
            if (!(value <= right_) || (!right_inclusive_ && value == right_)) return false;
            return true;''', '''            const bool above = left_inclusive_ ? (value >= left_) : (value > left_);
            const bool below = right_inclusive_ ? (value <= right_) : (value < right_);
            return above && below;'''),
('utility/latch.hpp', '''            while (count_.load(std::memory_order_relaxed)) std::this_thread::yield();
            std::atomic_thread_fence(std::memory_order_acquire);
            GAPP_ANNOTATE_TSAN_ACQUIRE(&count_);''', '''            while (!try_wait()) std::this_thread::yield();'''),
]
