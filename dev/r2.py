G='core/ga_base.impl.hpp'
M=[
('cached-moved','C01,C19','hit',[(G,'const FitnessVector* fitness = fitness_cache_.get(sol);','FitnessVector* fitness = fitness_cache_.get(sol);'),(G,'sol.fitness = *fitness;','sol.fitness = std::move(*fitness);')]),
('chrom-swap','C01','hit',[('crossover/crossover_base.impl.hpp','return { std::move(child1), std::move(child2) };','if (rng::randomBool()) std::swap(child1.chromosome, child2.chromosome);\n        return { std::move(child1), std::move(child2) };')]),
('repair-after','C01','hit',[(G,'if (improved_chrom != sol.chromosome) { sol.is_evaluated = false; sol.chromosome = std::move(improved_chrom); }','sol.chromosome.swap(improved_chrom); if (improved_chrom.size() != sol.chromosome.size()) sol.is_evaluated = false;')]),
('old-cand-reuse','C01','hit',[('mutation/mutation_base.impl.hpp','thread_local Candidate<T> old_candidate; old_candidate = candidate;','thread_local Candidate<T> old_candidate; if (!old_candidate.is_evaluated) old_candidate = candidate;')]),
('evald-first','C01','hit',[(G,'sol.fitness = (*fitness_function_)(sol.chromosome); sol.is_evaluated = true;','sol.is_evaluated = true; sol.fitness = (*fitness_function_)(sol.chromosome);')]),
('rank-cdf','C02','hit',[('algorithm/soga_selection.cpp','GAPP_ASSERT(fmat.ncols() == 1); const auto indices','GAPP_ASSERT(fmat.ncols() == 1); if (cdf_.size() == fmat.size()) return; const auto indices')]),
('sigma-late','C02','hit',[('algorithm/soga_selection.cpp','void Sigma::prepareSelectionsImpl(const GaInfo&, const FitnessMatrix& fmat) {','void Sigma::prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& fmat) { if (ga.generation_cntr() % 4 && !cdf_.empty()) return;')]),
('sched','C02','hit',[(G,'detail::execution_context::global_thread_pool.reset_scheduler();','')]),
('sols-cond','C02','hit',[(G,'solutions_.clear();','if (keep_all_optimal_sols_) solutions_.clear();')]),
('tourney-size','C03,C13','hit',[('algorithm/soga_selection.hpp','size_t selectImpl(const GaInfo& ga, const FitnessMatrix& fmat) const override;','void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix& fmat) override { tourney_size_ = std::min<size_t>(tourney_size_, fmat.size()); }\n        size_t selectImpl(const GaInfo& ga, const FitnessMatrix& fmat) const override;')]),
('cache-hits','C06','hit',[('utility/cache.hpp','if (it == cache_.end()) return nullptr;','if (it == cache_.end()) return nullptr; hits_++;'),('utility/cache.hpp','std::unordered_map<Key, Value> cache_;','std::unordered_map<Key, Value> cache_; size_t hits_ = 0;')]),
('q-jump-after','C09','quiet',[('utility/rng.hpp','instance = global_generator_.jump();','instance = global_generator_; global_generator_.jump();'),('utility/rng.hpp','generator->instance = global_generator_.jump();','generator->instance = global_generator_; global_generator_.jump();')]),
('seed-half','C09','hit',[('utility/rng.hpp','generator->instance = global_generator_.jump();','generator->instance = global_generator_;')]),
('cntr-late','C11','hit',[(G,'generation_cntr_++; if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_); metrics_.update(*this);','if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_); metrics_.update(*this); generation_cntr_++;')]),
('cb-before-opt','C11','hit',[(G,'if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_); metrics_.update(*this); if (on_generation_end_) on_generation_end_(*this); }\n    template<typename T>\n    Candidates','metrics_.update(*this); if (on_generation_end_) on_generation_end_(*this); if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_); }\n    template<typename T>\n    Candidates')]),
('prep-late','C11,C18','hit',[(G,'Population<T> children(population_size_); prepareSelections();','Population<T> children(population_size_);'),(G,'if (population_size_ % 2) children.back()','prepareSelections(); if (population_size_ % 2) children.back()')]),
('twice-op','C12','hit',[('stop_condition/stop_condition_base.cpp','return stop_condition(ga) ||','return (stop_condition(ga) && stop_condition(ga)) ||')]),
('n3-gen','C13','hit',[('algorithm/nsga3.cpp','pimpl_->ref_generator_ = std::move(gen);','')]),
('n3-copy','C13','hit',[('algorithm/nsga3.cpp','pimpl_(std::make_unique<Impl>(*rhs.pimpl_))','pimpl_(std::make_unique<Impl>())')]),
('matrix-before','C18','hit',[(G,'population_ = algorithm_->nextPopulation(*this, std::move(population_), std::move(children)); fitness_matrix_ = detail::toFitnessMatrix(population_);','fitness_matrix_ = detail::toFitnessMatrix(children); population_ = algorithm_->nextPopulation(*this, std::move(population_), std::move(children));')]),
('n3-rank-partial','C18','hit',[('algorithm/nsga3.cpp','pimpl_->sol_info_.resize(fmat.size()); std::for_each(pareto_fronts.begin(), pareto_fronts.end(),','pimpl_->sol_info_.resize(fmat.size()); std::for_each(partial_front.begin(), partial_front.end(),')]),
('bounds-nan','C14','hit',[('core/candidate.hpp','GAPP_ASSERT(lower <= upper,','GAPP_ASSERT(lower <= upper || lower != lower,')]),
]
