E = [
# core: advance() with helpers, statements reordered, loops rewritten
('core/ga_base.impl.hpp', '''        if (population_size_ % 2) children.back() = crossover(select(), select()).first;

        detail::parallel_for(children.begin(), children.end(),''', '''        const bool has_odd_child = (population_size_ % 2) != 0;
        if (has_odd_child)
        {
            CandidatePair last_pair = crossover(select(), select());
            children.back() = std::move(last_pair.first);
        }

        detail::parallel_for(children.begin(), children.end(),'''),
('core/ga_base.impl.hpp', '''        generation_cntr_++;

        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
        metrics_.update(*this);
        if (on_generation_end_) on_generation_end_(*this);''', '''        ++generation_cntr_;

        if (keep_all_optimal_sols_)
        {
            updateOptimalSolutions(solutions_, population_);
        }
        const GaInfo& info = *this;
        metrics_.update(info);
        if (!on_generation_end_) return;
        on_generation_end_(info);'''),
('core/ga_base.impl.hpp', '''        generation_cntr_ = 0;
        num_fitness_evals_ = 0;
        solutions_.clear();
        population_.clear();''', '''        population_.clear();
        solutions_.clear();
        num_fitness_evals_ = 0;
        generation_cntr_ = 0;'''),
('core/ga_base.impl.hpp', '''        if (cached_generations_ && !fitness_function_->is_dynamic())
        {
            const FitnessVector* fitness = fitness_cache_.get(sol);
            if (fitness)
            {
                sol.fitness = *fitness;
                sol.is_evaluated = true;
                return;
            }
        }''', '''        const bool use_cache = (cached_generations_ != 0) && !fitness_function_->is_dynamic();
        if (use_cache)
        {
            if (const FitnessVector* cached = fitness_cache_.get(sol); cached != nullptr)
            {
                sol.fitness = *cached;
                sol.is_evaluated = true;
                return;
            }
        }'''),
('core/ga_base.impl.hpp', '''        sol.fitness = (*fitness_function_)(sol.chromosome);
        sol.is_evaluated = true;''', '''        FitnessVector new_fitness = (*fitness_function_)(sol.chromosome);
        sol.fitness = std::move(new_fitness);
        sol.is_evaluated = true;'''),
('core/ga_base.impl.hpp', '''        while (population.size() < pop_size)
        {
            population.push_back(generateCandidate());
            GAPP_ASSERT(hasValidChromosome(population.back()), "An invalid solution was returned by generateCandidate().");
        }''', '''        for (size_t i = population.size(); i < pop_size; i++)
        {
            Candidate<T> candidate = generateCandidate();
            GAPP_ASSERT(hasValidChromosome(candidate), "An invalid solution was returned by generateCandidate().");
            population.push_back(std::move(candidate));
        }'''),
('core/ga_base.impl.hpp', '''        auto improved_chrom = repair_(*this, sol.chromosome);

        if (improved_chrom != sol.chromosome)
        {
            sol.is_evaluated = false;
            sol.chromosome = std::move(improved_chrom);
        }''', '''        Chromosome<T> improved_chrom = repair_(*this, sol.chromosome);

        const bool is_unchanged = (improved_chrom == sol.chromosome);
        if (!is_unchanged)
        {
            sol.chromosome = std::move(improved_chrom);
            sol.is_evaluated = false;
        }'''),
('core/ga_base.impl.hpp', '''        if (num_objectives() == 1)
        {
            return std::make_unique<algorithm::SingleObjective>();
        }
        return std::make_unique<algorithm::NSGA3>();''', '''        const bool single = (num_objectives() == 1);
        if (!single) return std::make_unique<algorithm::NSGA3>();
        return std::make_unique<algorithm::SingleObjective>();'''),
# selection / replacement
('algorithm/soga_replacement.cpp', '''        const size_t elite_count = std::min(n_, ga.population_size());''', '''        const size_t pop_size = ga.population_size();
        const size_t elite_count = (n_ < pop_size) ? n_ : pop_size;'''),
('algorithm/soga_replacement.cpp', '''        small_vector<size_t> indices(ga.population_size());
        std::copy(sorted_parent_indices.begin(), sorted_parent_indices.begin() + elite_count, indices.begin());
        std::iota(indices.begin() + elite_count, indices.end(), ga.population_size());
''', '''        small_vector<size_t> indices;
        indices.reserve(pop_size);
        for (size_t i = 0; i < elite_count; i++) indices.push_back(sorted_parent_indices[i]);
        for (size_t i = elite_count; i < pop_size; i++) indices.push_back(pop_size + (i - elite_count));
'''),
('algorithm/soga_selection.cpp', '''        small_vector<size_t> candidate_indices(tourney_size_);
        std::generate(candidate_indices.begin(), candidate_indices.end(), [&]{ return rng::randomIndex(fmat); });

        return *std::max_element(candidate_indices.begin(), candidate_indices.end(),
        [&](size_t lhs, size_t rhs) noexcept
        {
            return fmat[lhs][0] < fmat[rhs][0];
        });''', '''        size_t winner = rng::randomIndex(fmat);
        for (size_t i = 1; i < tourney_size_; i++)
        {
            const size_t challenger = rng::randomIndex(fmat);
            if (fmat[winner][0] < fmat[challenger][0]) winner = challenger;
        }
        return winner;'''),
('algorithm/nsga2.cpp', '''        if (ranks_[idx1] < ranks_[idx2]) return idx1;
        if (ranks_[idx1] > ranks_[idx2]) return idx2;

        if (dists_[idx1] > dists_[idx2]) return idx1;
        return idx2;''', '''        if (ranks_[idx1] != ranks_[idx2])
        {
            return (ranks_[idx1] < ranks_[idx2]) ? idx1 : idx2;
        }
        return (dists_[idx1] > dists_[idx2]) ? idx1 : idx2;'''),
('algorithm/nsga2.cpp', '''            new_pop[i] = pareto_fronts[i].idx;
            ranks_[i]  = pareto_fronts[i].rank;
            dists_[i]  = crowding_distances[pareto_fronts[i].idx];''', '''            const FrontElement& elem = pareto_fronts[i];
            dists_[i]  = crowding_distances[elem.idx];
            ranks_[i]  = elem.rank;
            new_pop[i] = elem.idx;'''),
# stop conditions
('stop_condition/stop_condition.cpp', '''        const bool improved = metricImproved(best_fitness_mean_, current_mean, delta_);

        improved ? reset() : (void) (cntr_ -= !!cntr_); // NOLINT(*conversion)

        return cntr_ == 0;''', '''        if (metricImproved(best_fitness_mean_, current_mean, delta_))
        {
            reset();
        }
        else if (cntr_ > 0)
        {
            --cntr_;
        }

        return cntr_ == 0;'''),
('stop_condition/stop_condition.cpp', '''        return (ga.num_fitness_evals() >= max_fitness_evals_);''', '''        const size_t evals = ga.num_fitness_evals();
        return !(evals < max_fitness_evals_);'''),
('metrics/fitness_metrics.cpp', '''        const auto& fitness_matrix = ga.fitness_matrix();
        data_.append_row(detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end()));''', '''        const FitnessMatrix& fmat = ga.fitness_matrix();
        const FitnessVector row = detail::maxFitness(fmat.begin(), fmat.end());
        data_.append_row(row);'''),
# thread pool, queue, cache
('utility/thread_pool.hpp', '''            const size_t current_turn   = turn_.fetch_add(1, std::memory_order_relaxed);
            const size_t current_worker = current_turn % workers_.size();
            return workers_[current_worker].task_queue;''', '''            const size_t turn = turn_.fetch_add(1, std::memory_order_relaxed);
            worker_t& worker = workers_[turn % workers_.size()];
            return worker.task_queue;'''),
('utility/thread_pool.hpp', '''            for (worker_t& worker : workers_)
            {
                if (worker.thread.get_id() == std::this_thread::get_id()) { return &worker.task_queue; }
            }
            return nullptr;''', '''            const std::thread::id this_id = std::this_thread::get_id();
            for (size_t i = 0; i < workers_.size(); i++)
            {
                if (workers_[i].thread.get_id() == this_id) return &workers_[i].task_queue;
            }
            return nullptr;'''),
('utility/concurrent_queue.hpp', '''            std::unique_lock lock{ queue_lock_ };
            queue_cv_.wait(lock, [&] { return !queue_.empty() || is_closed_; });

            if (is_closed_ && queue_.empty()) return {};

            T elem = std::move(queue_.front());
            queue_.pop_front();

            return elem;''', '''            std::unique_lock<std::mutex> lock{ queue_lock_ };
            while (queue_.empty() && !is_closed_) queue_cv_.wait(lock);

            if (queue_.empty()) return std::nullopt;

            std::optional<T> elem{ std::move(queue_.front()) };
            queue_.pop_front();

            return elem;'''),
('utility/concurrent_queue.hpp', '''            std::scoped_lock lock{ queue_lock_ };
            if (is_closed_) return false;
            queue_.emplace_back(std::forward<Args>(args)...);
            queue_cv_.notify_one();
            return true;''', '''            {
                std::lock_guard<std::mutex> guard{ queue_lock_ };
                if (is_closed_) return false;
                queue_.emplace_back(std::forward<Args>(args)...);
            }
            queue_cv_.notify_one();
            return true;'''),
('utility/cache.hpp', '''            first = std::prev(last, insert_count);

            for (; first != last; ++first)
            {
                const auto [it, inserted] = cache_.insert_or_assign(*first, std::invoke(f, *first));
                if (!inserted) continue;
                if (order_.full()) cache_.erase(order_.front());
                order_.push_back(it);
            }''', '''            for (Iter current = std::prev(last, insert_count); current != last; ++current)
            {
                const auto [it, inserted] = cache_.insert_or_assign(*current, std::invoke(f, *current));
                if (inserted)
                {
                    if (order_.full()) cache_.erase(order_.front());
                    order_.push_back(it);
                }
            }'''),
# permutation mutations
('mutation/permutation.cpp', '''            const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);

            using std::swap;
            swap(chromosome[idxs[0]], chromosome[idxs[1]]);
            swap(chromosome[idxs[0]], chromosome[idxs[2]]);''', '''            const auto positions = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);
            const size_t a = positions[0];
            const size_t b = positions[1];
            const size_t c = positions[2];

            std::swap(chromosome[a], chromosome[b]);
            std::swap(chromosome[a], chromosome[c]);'''),
]
