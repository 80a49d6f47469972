E = [
('crossover/crossover_base.impl.hpp', '''        if (rng::randomReal() >= pc_)
        {
            return { parent1, parent2 };
        }''', '''        const bool do_crossover = rng::randomReal() < pc_;
        if (!do_crossover) return { parent1, parent2 };
'''),
('crossover/crossover_base.impl.hpp', '''        if (child1 == parent1)
        {
            child1.fitness = parent1.fitness;
            child1.is_evaluated = parent1.is_evaluated;
        }
        else if (child1 == parent2)
        {
            child1.fitness = parent2.fitness;
            child1.is_evaluated = parent2.is_evaluated;
        }

        if (child2 == parent1)
        {
            child2.fitness = parent1.fitness;
            child2.is_evaluated = parent1.is_evaluated;
        }
        else if (child2 == parent2)
        {
            child2.fitness = parent2.fitness;
            child2.is_evaluated = parent2.is_evaluated;
        }''', '''        const auto inherit = [](Candidate<T>& child, const Candidate<T>& from)
        {
            child.is_evaluated = from.is_evaluated;
            child.fitness = from.fitness;
        };
        const auto inherit_if_same = [&](Candidate<T>& child)
        {
            child.is_evaluated = false;
            if (child == parent1) { inherit(child, parent1); }
            else if (child == parent2) { inherit(child, parent2); }
        };
        inherit_if_same(child2);
        inherit_if_same(child1);'''),
('mutation/mutation_base.impl.hpp', '''            thread_local Candidate<T> old_candidate; old_candidate = candidate;

            mutate(ga, candidate, candidate.chromosome);
            candidate.is_evaluated = (candidate == old_candidate);''', '''            const Candidate<T> original = candidate;
            mutate(ga, candidate, candidate.chromosome);
            if (!(candidate == original)) candidate.is_evaluated = false;'''),
('mutation/integer.cpp', '''            GeneType old_gene = chromosome[idx];
            GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());

            while (new_gene == old_gene)
            {
                new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
            }

            chromosome[idx] = new_gene;''', '''            const GeneType lower = bounds[idx].lower();
            const GeneType upper = bounds[idx].upper();
            const GeneType old_gene = chromosome[idx];

            do
            {
                chromosome[idx] = rng::randomInt(lower, upper);
            }
            while (chromosome[idx] == old_gene);'''),
('mutation/real.cpp', '''            const GeneType bound = rng::randomBool() ? bounds[idx].lower() : bounds[idx].upper();

            chromosome[idx] += (bound - chromosome[idx]) * multiplier;
            /* The value of the mutated gene might be outside of the allowed interval. */
            chromosome[idx] = std::clamp(chromosome[idx], bounds[idx].lower(), bounds[idx].upper());''', '''            const GeneType lower = bounds[idx].lower();
            const GeneType upper = bounds[idx].upper();
            const GeneType bound = rng::randomBool() ? lower : upper;
            const GeneType moved = chromosome[idx] + (bound - chromosome[idx]) * multiplier;
            /* The value of the mutated gene might be outside of the allowed interval. */
            chromosome[idx] = std::clamp(moved, lower, upper);'''),
('mutation/real.cpp', '''            chromosome[idx] = rng::randomReal(bounds[idx].lower(), bounds[idx].upper());''', '''            const Bounds<GeneType>& limits = bounds[idx];
            GeneType& gene = chromosome[idx];
            gene = rng::randomReal(limits.lower(), limits.upper());'''),
('crossover/integer.cpp', '''        for (const auto& idx : swapped_indices)
        {
            using std::swap;
            swap(child1.chromosome[idx], child2.chromosome[idx]);
        }''', '''        for (size_t n = 0; n < swapped_indices.size(); n++)
        {
            const size_t idx = swapped_indices[n];
            child1.chromosome[idx] = parent2.chromosome[idx];
            child2.chromosome[idx] = parent1.chromosome[idx];
        }'''),
('crossover/crossover_impl.hpp', '''        Candidate child1{ parent1 }, child2{ parent2 };

        for (size_t i = 0; i < crossover_point; i++)
        {
            using std::swap;
            swap(child1.chromosome[i], child2.chromosome[i]);
        }''', '''        Candidate child1{ parent1 }, child2{ parent2 };

        std::swap_ranges(child1.chromosome.begin(), child1.chromosome.begin() + crossover_point, child2.chromosome.begin());
'''),
('crossover/real.cpp', '''            child1.chromosome[i] = w1 * (p1.chromosome[i] - p2.chromosome[i]) + p1.chromosome[i];
            child2.chromosome[i] = w2 * (p1.chromosome[i] - p2.chromosome[i]) + p1.chromosome[i];
            /* The children's genes might be outside the allowed intervals. */
            child1.chromosome[i] = std::clamp(child1.chromosome[i], bounds[i].lower(), bounds[i].upper());
            child2.chromosome[i] = std::clamp(child2.chromosome[i], bounds[i].lower(), bounds[i].upper());''', '''            const GeneType diff = p1.chromosome[i] - p2.chromosome[i];
            /* The children's genes might be outside the allowed intervals. */
            child1.chromosome[i] = std::clamp(w1 * diff + p1.chromosome[i], bounds[i].lower(), bounds[i].upper());
            child2.chromosome[i] = std::clamp(w2 * diff + p1.chromosome[i], bounds[i].lower(), bounds[i].upper());'''),
('algorithm/algorithm_base.impl.hpp', '''        parents.reserve(parents.size() + children.size());
        std::move(children.begin(), children.end(), std::back_inserter(parents));
        const FitnessMatrix fmat = detail::toFitnessMatrix(parents);
        const auto next_indices = nextPopulationImpl(ga, fmat);''', '''        Population<T> combined = std::move(parents);
        combined.reserve(combined.size() + children.size());
        for (Candidate<T>& child : children) combined.push_back(std::move(child));
        parents = std::move(combined);
        const FitnessMatrix fmat = detail::toFitnessMatrix(parents);
        const small_vector<size_t> next_indices = nextPopulationImpl(ga, fmat);'''),
('algorithm/algorithm_base.impl.hpp', '''        auto optimal_sols = optimal_indices.empty() ?
            detail::findParetoFront(pop) :
            detail::select(pop, optimal_indices);

        return optimal_sols;''', '''        if (optimal_indices.empty())
        {
            return detail::findParetoFront(pop);
        }
        return detail::select(pop, optimal_indices);'''),
('stop_condition/composite.hpp', '''            return std::invoke(left_, ga) | std::invoke(right_, ga);''', '''            const bool left_result = left_(ga);
            const bool right_result = right_(ga);
            return left_result || right_result;'''),
('encoding/integer.cpp', '''        Candidate<GeneType> solution(chrom_len());

        for (size_t idx = 0; idx < chrom_len(); idx++)
        {
            solution.chromosome[idx] = rng::randomInt(gene_bounds()[idx].lower(), gene_bounds()[idx].upper());
        }

        return solution;''', '''        const BoundsVector<GeneType>& bounds = gene_bounds();
        Chromosome<GeneType> genes;
        genes.reserve(chrom_len());

        for (size_t idx = 0; idx < chrom_len(); idx++)
        {
            genes.push_back(rng::randomInt(bounds[idx].lower(), bounds[idx].upper()));
        }

        return Candidate<GeneType>(std::move(genes));'''),
('metrics/misc_metrics.cpp', '''        const size_t old_sum = std::exchange(sum_, ga.num_fitness_evals());
        data_.push_back(sum_ - old_sum);''', '''        const size_t new_sum = ga.num_fitness_evals();
        data_.push_back(new_sum - sum_);
        sum_ = new_sum;'''),
('metrics/metric_set.cpp', '''        for (auto& metric : metrics_)
        {
            metric->update(ga);
        }''', '''        std::for_each(metrics_.begin(), metrics_.end(), [&](auto& metric) { metric->update(ga); });'''),
('algorithm/nsga3.cpp', '''            sol_info_[sol.idx].ref_idx  = std::distance(ref_lines_.begin(), closest);
            sol_info_[sol.idx].ref_dist = math::perpendicularDistanceSq(*closest, fnorm);''', '''            CandidateInfo& info = sol_info_[sol.idx];
            info.ref_dist = math::perpendicularDistanceSq(*closest, fnorm);
            info.ref_idx  = std::distance(ref_lines_.begin(), closest);'''),
('algorithm/nsga3.cpp', '''        for (const FrontElement& sol : pareto_fronts)
        {
            new_pop.push_back(sol.idx);
            new_info.push_back(sol_info_[sol.idx]);
        }''', '''        for (size_t i = 0; i < pareto_fronts.size(); i++)
        {
            const size_t idx = pareto_fronts[i].idx;
            new_info.push_back(sol_info_[idx]);
            new_pop.push_back(idx);
        }'''),
('algorithm/nsga3.cpp', '''        if (left.ref_idx == right.ref_idx)
        {
            if (left.rank != right.rank)
            {
                return left.rank < right.rank;
            }
            return left.ref_dist < right.ref_dist;
        }
        return rng::randomBool();''', '''        if (left.ref_idx != right.ref_idx) return rng::randomBool();
        if (left.rank == right.rank) return left.ref_dist < right.ref_dist;
        return left.rank < right.rank;'''),
('metrics/distribution_metrics.cpp', '''        if (worst_point_ != prev_worst_point)
        {
            for (size_t i = 0; i < data_.size(); i++)
            {
                const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
                const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
                data_[i] += (new_vol - old_vol);
            }
        }''', '''        const bool changed = (worst_point_ != prev_worst_point);
        for (size_t i = 0; changed && i < data_.size(); i++)
        {
            const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
            const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
            data_[i] += (new_vol - old_vol);
        }'''),
('core/population.hpp', '''        FitnessMatrix fitness_matrix;
        fitness_matrix.reserve(pop.size(), pop[0].fitness.size());
        for (const Candidate<T>& sol : pop)
        {
            fitness_matrix.append_row(sol.fitness);
        }''', '''        FitnessMatrix fitness_matrix;
        fitness_matrix.reserve(pop.size(), pop[0].fitness.size());
        for (size_t i = 0; i < pop.size(); i++)
        {
            const FitnessVector& row = pop[i].fitness;
            fitness_matrix.append_row(row);
        }'''),
('core/population.hpp', '''            if (lhs_state[i] != DOMINATED) optimal_solutions.push_back(std::move(lhs[i]));''', '''            const bool keep = (lhs_state[i] != DOMINATED);
            if (!keep) continue;
            optimal_solutions.push_back(std::move(lhs[i]));'''),
('core/candidate.hpp', '''        if constexpr (std::is_floating_point_v<T>)
        {
            return math::floatVecIsEqual<T>(lhs.chromosome, rhs.chromosome);
        }
        else
        {
            return lhs.chromosome == rhs.chromosome;
        }''', '''        if constexpr (!std::is_floating_point_v<T>)
        {
            return lhs.chromosome == rhs.chromosome;
        }
        else
        {
            return math::floatVecIsEqual<T>(lhs.chromosome, rhs.chromosome);
        }'''),
]
