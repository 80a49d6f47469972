E = [
('algorithm/nd_sort.cpp', '''        static DominanceLists dom_lists;

        if (dom_lists.size() != popsize)
        {
            dom_lists.resize(popsize);
            for (auto& list : dom_lists) detail::clear_reserve(list.worse_indices, popsize);
        }''', '''        static DominanceLists dom_lists;

        const bool size_changed = (dom_lists.size() != popsize);
        if (size_changed)
        {
            dom_lists.resize(popsize);
            for (size_t i = 0; i < popsize; i++) detail::clear_reserve(dom_lists[i].worse_indices, popsize);
        }'''),
('algorithm/nd_sort.cpp', '''        for (const FrontElement& elem : elements_)
        {
            ranks[elem.idx] = elem.rank;
        }''', '''        std::for_each(elements_.begin(), elements_.end(), [&](const FrontElement& elem) { ranks[elem.idx] = elem.rank; });'''),
('algorithm/nd_sort.cpp', '''                if (lhs[i] != rhs[i]) return lhs[i] > rhs[i]; // descending
            }
            return false;''', '''                if (lhs[i] > rhs[i]) return true;
                if (lhs[i] < rhs[i]) return false;
            }
            return false;'''),
('algorithm/nd_sort.cpp', '''        for (const size_t idx : indices)
        {
            size_t rank = 0;''', '''        for (size_t n = 0; n < indices.size(); n++)
        {
            const size_t idx = indices[n];
            size_t rank = 0;'''),
('algorithm/nd_sort.cpp', '''        for (size_t i = 0; i < cols.size(); i++)
        {
            cols[i].idx = i;
            cols[i].sum = dmat.nrows();
        }''', '''        size_t col_idx = 0;
        for (Col& col : cols)
        {
            col.sum = dmat.nrows();
            col.idx = col_idx++;
        }'''),
('utility/rng.hpp', '''            std::scoped_lock _{ tls_generators_->lock };
            global_generator_.seed(seed);

            for (RegisteredGenerator* generator : tls_generators_->list)
            {
                generator->instance = global_generator_.jump();
                generator->bool_distribution.reset();
                generator->normal_distribution.reset();
                generator->poisson_distribution.reset();
            }''', '''            GeneratorList& generators = *tls_generators_;
            std::lock_guard guard{ generators.lock };
            global_generator_.seed(seed);

            for (size_t i = 0; i < generators.list.size(); i++)
            {
                RegisteredGenerator& gen = *generators.list[i];
                gen.poisson_distribution.reset();
                gen.normal_distribution.reset();
                gen.bool_distribution.reset();
                gen.instance = global_generator_.jump();
            }'''),
('utility/rng.hpp', '''        const auto max_offset = std::distance(first, last) - 1;
        const auto offset = rng::randomInt(0_pd, max_offset);

        return std::next(first, offset);''', '''        const auto offset = rng::randomInt(0_pd, std::distance(first, last) - 1);
        std::advance(first, offset);
        return first;'''),
('utility/rng.hpp', '''                const auto n = rng::randomInt(lbound, limit);
                *number = is_selected[n - lbound] ? limit : n;
                is_selected[*number - lbound] = true;''', '''                auto value = rng::randomInt(lbound, limit);
                if (is_selected[value - lbound]) value = limit;
                *number = value;
                is_selected[value - lbound] = true;'''),
('algorithm/reference_lines.cpp', '''            auto point = qrng();
            std::invoke(F, point);
            points[i] = std::move(point);''', '''            FitnessVector next_point = qrng();
            F(next_point);
            points[i] = next_point;'''),
('algorithm/reference_lines.cpp', '''            using std::swap;
            swap(candidate_points[idx], candidate_points.back());
            candidate_points.pop_back();
            swap(min_distances[idx], min_distances.back());
            min_distances.pop_back();''', '''            min_distances[idx] = min_distances.back();
            min_distances.pop_back();
            using std::swap;
            swap(candidate_points[idx], candidate_points.back());
            candidate_points.pop_back();'''),
('utility/cone_tree.cpp', '''                Node left_child{ .first = node.first, .last = middle_idx };
                Node right_child{ .first = middle_idx, .last = node.last };

                nodes_.push_back(left_child);
                nodes_.push_back(right_child);

                /* The node reference may have been invalidated by the insertions. */
                nodes_[i].left = nodes_.size() - 2;
                nodes_[i].right = nodes_.size() - 1;''', '''                const Node left_child{ .first = node.first, .last = middle_idx };
                const Node right_child{ .first = middle_idx, .last = node.last };

                node.left = nodes_.size();
                node.right = nodes_.size() + 1;

                nodes_.push_back(left_child);
                nodes_.push_back(right_child);'''),
('utility/cone_tree.cpp', '''        for (++first; first != last; ++first)
        {
            std::transform(center.begin(), center.end(), first->begin(), center.begin(), std::plus{});
        }''', '''        for (const_iterator it = std::next(first); it != last; ++it)
        {
            for (size_t i = 0; i < center.size(); i++) center[i] += (*it)[i];
        }'''),
('algorithm/nsga3.cpp', '''        niche_counts_[ref]++;

        auto current = std::find(refs.begin(), refs.end(), ref);''', '''        const size_t new_count = ++niche_counts_[ref];
        (void)new_count;

        auto current = std::find(refs.begin(), refs.end(), ref);'''),
('algorithm/nsga3.cpp', '''        std::fill(niche_counts_.begin(), niche_counts_.end(), 0_sz);
        std::for_each(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol) { niche_counts_[refIndexOf(sol)]++; });''', '''        for (size_t& count : niche_counts_) count = 0;
        for (const FrontElement& sol : pareto_fronts)
        {
            const size_t ref = refIndexOf(sol);
            ++niche_counts_[ref];
        }'''),
('algorithm/nsga3.cpp', '''        std::vector<size_t> refs(pareto_fronts.size());
        std::transform(pareto_fronts.begin(), pareto_fronts.end(), refs.begin(), [this](const FrontElement& sol) { return refIndexOf(sol); });''', '''        std::vector<size_t> refs;
        refs.reserve(pareto_fronts.size());
        for (const FrontElement& sol : pareto_fronts) refs.push_back(refIndexOf(sol));'''),
('algorithm/nsga3.cpp', '''            const auto weights = weightVector(ideal_point_.size(), dim);
            const auto ASFi = [&](const auto& fvec) { return ASF(ideal_point_, weights, fvec); };
''', '''            const small_vector<double> weights = weightVector(ideal_point_.size(), dim);
            auto ASFi = [this, &weights](const auto& fvec) { return ASF(ideal_point_, weights, fvec); };
'''),
('core/population.cpp', '''        for (const auto& bad : bottom_half)
        {
            bool is_dominated = false;
            for (const auto& good : top_half)
            {
                if (math::paretoCompareLess(fmat[bad], fmat[good]))
                {
                    is_dominated = true;
                    break;
                }
            }
            if (!is_dominated) top_half.push_back(bad);
        }''', '''        for (size_t bad : bottom_half)
        {
            const bool is_dominated = std::any_of(top_half.begin(), top_half.end(), [&](size_t good)
            {
                return math::paretoCompareLess(fmat[bad], fmat[good]);
            });
            if (is_dominated) continue;
            top_half.push_back(bad);
        }'''),
('core/population.cpp', '''        FitnessVector fitness_vector(last - first);
        std::transform(first, last, fitness_vector.begin(), detail::element_at(0));''', '''        FitnessVector fitness_vector;
        fitness_vector.reserve(last - first);
        for (auto it = first; it != last; ++it) fitness_vector.push_back((*it)[0]);'''),
('crossover/crossover_impl.hpp', '''        if (crossover_points.first > crossover_points.second)
        {
            std::swap(crossover_points.first, crossover_points.second);
        }

        Candidate child1{ parent1 }, child2{ parent2 };

        for (size_t i = crossover_points.first; i < crossover_points.second; i++)''', '''        const auto [first, last] = std::minmax({ crossover_points.first, crossover_points.second });

        Candidate child1{ parent1 };
        Candidate child2{ parent2 };

        for (size_t i = first; i < last; i++)'''),
('crossover/crossover_impl.hpp', '''            while (is_direct[parent2.chromosome[parent_pos]]) detail::increment_mod(parent_pos, chrom_len);

            child.chromosome[child_pos] = parent2.chromosome[parent_pos];
            detail::increment_mod(parent_pos, chrom_len);
            detail::increment_mod(child_pos, chrom_len);''', '''            while (is_direct[parent2.chromosome[parent_pos]])
            {
                detail::increment_mod(parent_pos, chrom_len);
            }

            const T gene = parent2.chromosome[parent_pos];
            child.chromosome[child_pos] = gene;
            detail::increment_mod(child_pos, chrom_len);
            detail::increment_mod(parent_pos, chrom_len);'''),
('crossover/real.cpp', '''            /* Generate genes from an uniform distribution on the interval. */
            child1.chromosome[i] = rng::randomReal(range_min - range_ext, range_max + range_ext);
            child2.chromosome[i] = rng::randomReal(range_min - range_ext, range_max + range_ext);''', '''            const GeneType low = range_min - range_ext;
            const GeneType high = range_max + range_ext;
            child1.chromosome[i] = rng::randomReal(low, high);
            child2.chromosome[i] = rng::randomReal(low, high);'''),
('encoding/permutation.cpp', '''        Candidate<GeneType> solution(chrom_len());

        std::iota(solution.chromosome.begin(), solution.chromosome.end(), GeneType{ 0 });
        std::shuffle(solution.chromosome.begin(), solution.chromosome.end(), rng::prng);''', '''        Candidate<GeneType> solution(chrom_len());
        auto& genes = solution.chromosome;

        for (size_t i = 0; i < genes.size(); i++) genes[i] = GeneType(i);
        std::shuffle(genes.begin(), genes.end(), rng::prng);'''),
('metrics/metric_set.hpp', '''        metrics_.reserve(sizeof...(metrics));
        ( metrics_.push_back(std::make_unique<Metrics>(std::move(metrics))), ... );''', '''        metrics_.reserve(sizeof...(metrics));
        const auto add = [this](std::unique_ptr<metrics::MonitorBase> metric) { metrics_.push_back(std::move(metric)); };
        ( add(std::make_unique<Metrics>(std::move(metrics))), ... );'''),
('utility/circular_buffer.hpp', '''            return buffer_[first_];''', '''            return (*this)[0];'''),
]
