G='core/ga_base.impl.hpp'; ST='stop_condition/stop_condition.cpp'; N3='algorithm/nsga3.cpp'; DM='metrics/distribution_metrics.cpp'
M=[
('no-sols-clear','C02','hit',[(G,'solutions_.clear();','')]),
('no-cache-reset','C02','hit',[(G,'fitness_cache_.reset(!fitness_function_->is_dynamic() * cached_generations_ * population_size_);','')]),
('no-gen','C02','hit',[(G,'generation_cntr_ = 0;','')]),
('no-evals','C02','hit',[(G,'num_fitness_evals_ = 0;','')]),
('evals-cond','C02','hit',[(G,'num_fitness_evals_ = 0;','if (keep_all_optimal_sols_) num_fitness_evals_ = 0;')]),
('mean-noreset','C02','hit',[(ST,'reset();\n        best_fitness_mean_ =','best_fitness_mean_ =')]),
('mean-nobest','C02','hit',[(ST,'best_fitness_mean_ = FitnessVector(ga.num_objectives(), -math::inf<double>);','')]),
('mean-sizecheck','C02','hit',[(ST,'best_fitness_mean_ = FitnessVector(ga.num_objectives(), -math::inf<double>);','if (best_fitness_mean_.size() != ga.num_objectives()) best_fitness_mean_ = FitnessVector(ga.num_objectives(), -math::inf<double>);')]),
('best-nobest','C02','hit',[(ST,'fitness_max_ = FitnessVector(ga.num_objectives(), -math::inf<double>);','')]),
('best-resize','C02','hit',[(ST,'fitness_max_ = FitnessVector(ga.num_objectives(), -math::inf<double>);','fitness_max_.resize(ga.num_objectives(), -math::inf<double>);')]),
('ahv-noworst','C02','hit',[(DM,'worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);','')]),
('ahv-noideal','C02','hit',[(DM,'ideal_points_.clear();','')]),
('hv-nodata','C02','hit',[(DM,'GAPP_ASSERT(ref_point_.size() == ga.num_objectives());\n\n        data_.clear();','')]),
('n3-extreme','C02','hit',[(N3,'pimpl_->extreme_points_ = {};','')]),
('n3-extreme2','C02','hit',[(N3,'pimpl_->extreme_points_ = {};','if (pimpl_->extreme_points_.ncols() != ga.num_objectives()) pimpl_->extreme_points_ = {};')]),
('n3-ideal','C02','hit',[(N3,'pimpl_->ideal_point_ = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());','')]),
('n3-ideal-cum','C02','hit',[(N3,'pimpl_->ideal_point_ = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());','if (pimpl_->ideal_point_.empty()) pimpl_->ideal_point_ = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());')]),
('n3-lines','C02','hit',[(N3,'pimpl_->ref_lines_ = pimpl_->generateReferencePoints(ga.num_objectives(), ga.population_size());','if (pimpl_->ref_lines_.empty()) pimpl_->ref_lines_ = pimpl_->generateReferencePoints(ga.num_objectives(), ga.population_size());')]),
('n3-niche','C02','hit',[(N3,'std::fill(niche_counts_.begin(), niche_counts_.end(), 0_sz);','')]),
('static-local','C02','hit',[(ST,'const FitnessVector current_max = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());','static FitnessVector prev; const FitnessVector current_max = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end()); if (prev == current_max) return false; prev = current_max;')]),
('static-ga','C02','hit',[(G,'fitness_matrix_ = detail::toFitnessMatrix(population_);','static size_t runs = 0; if (runs++ > 0 && keep_all_optimal_sols_) num_fitness_evals_ = runs; fitness_matrix_ = detail::toFitnessMatrix(population_);')]),
('default-alg-flag','C02','hit',[(G,'if (use_default_algorithm_) algorithm_ = defaultAlgorithm();','if (use_default_algorithm_) { algorithm_ = defaultAlgorithm(); use_default_algorithm_ = false; }')]),
('bounds-empty','C02','hit',[(G,'if constexpr (is_bounded<T>) { bounds_ = std::move(bounds); }','if constexpr (is_bounded<T>) { if (bounds_.empty()) bounds_ = std::move(bounds); }')]),
('nobj-once','C02','hit',[(G,'num_objectives_ = findNumberOfObjectives();','if (!num_objectives_) num_objectives_ = findNumberOfObjectives();')]),
('sus-cdf','C02','hit',[('algorithm/soga_selection.cpp' if __import__('os').path.exists('/repo/src/algorithm/soga_selection.cpp') else 'selection/soga_selection.cpp','cdf_ = weightsToCdf(fvec);','if (cdf_.size() != fvec.size()) cdf_ = weightsToCdf(fvec);')]),
# quiet
('q-helper','C02','quiet',[(G,'template<typename T>\n    void GA<T>::initializeAlgorithm(','template<typename T> static void vreset(GA<T>& g, auto& a, auto& b) { a = 0; b.clear(); }\n template<typename T>\n    void GA<T>::initializeAlgorithm('),(G,'generation_cntr_ = 0;',''),(G,'solutions_.clear();','vreset(*this, generation_cntr_, solutions_);')]),
('q-assign','C02','quiet',[(G,'solutions_.clear();','solutions_ = {};'),(G,'population_.clear();','population_ = Population<T>();')]),
('q-mean','C02','quiet',[(ST,'reset();\n        best_fitness_mean_ = FitnessVector(ga.num_objectives(), -math::inf<double>);','FitnessVector init(ga.num_objectives(), -math::inf<double>); best_fitness_mean_ = std::move(init); cntr_ = patience_;')]),
('q-mean2','C02','quiet',[(ST,'best_fitness_mean_ = FitnessVector(ga.num_objectives(), -math::inf<double>);','best_fitness_mean_.clear(); best_fitness_mean_.resize(ga.num_objectives(), -math::inf<double>);')]),
('q-n3fill','C02','quiet',[(N3,'std::fill(niche_counts_.begin(), niche_counts_.end(), 0_sz);','for (auto& n : niche_counts_) n = 0;')]),
('q-n3fill2','C02','quiet',[(N3,'std::fill(niche_counts_.begin(), niche_counts_.end(), 0_sz);','for (size_t i = 0; i < niche_counts_.size(); i++) niche_counts_[i] = 0;')]),
('q-n3fill3','C02','quiet',[(N3,'std::fill(niche_counts_.begin(), niche_counts_.end(), 0_sz);','niche_counts_.assign(niche_counts_.size(), 0);')]),
('q-n3order','C02','quiet',[(N3,'pimpl_->extreme_points_ = {};',''),(N3,'const FitnessMatrix& fitness_matrix = ga.fitness_matrix();\n\n        pimpl_->ideal','const FitnessMatrix& fitness_matrix = ga.fitness_matrix(); pimpl_->extreme_points_.clear();\n\n        pimpl_->ideal')]),
('q-n3rank','C02','quiet',[(N3,'std::for_each(pareto_fronts.begin(), pareto_fronts.end(), [this](const FrontElement& sol) { pimpl_->sol_info_[sol.idx].rank = sol.rank; });','for (const auto& sol : pareto_fronts) pimpl_->sol_info_[sol.idx].rank = sol.rank;')]),
('q-scope','C02','quiet',[(G,'detail::restore_on_exit','detail::scope_exit restore_gen([this, old = max_gen_] { max_gen_ = old; }); detail::restore_on_exit')]),
('q-swap','C02','quiet',[(DM,'ideal_points_.clear();\n        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());','{ FitnessMatrix fresh; fresh.reserve(ga.max_gen(), ga.num_objectives()); ideal_points_ = std::move(fresh); }')]),

('sched','C02','hit',[(G,'detail::execution_context::global_thread_pool.reset_scheduler();','')]),
('sched-late','C02','hit',[(G,'detail::execution_context::global_thread_pool.reset_scheduler();',''),(G,'solutions_ = detail::findParetoFront(population_);','solutions_ = detail::findParetoFront(population_); detail::execution_context::global_thread_pool.reset_scheduler();')]),
('sched-cond','C02','hit',[(G,'detail::execution_context::global_thread_pool.reset_scheduler();','if (keep_all_optimal_sols_) detail::execution_context::global_thread_pool.reset_scheduler();')]),
('q-sched-exchange','C02','quiet',[('utility/thread_pool.hpp','turn_.store(0, std::memory_order_relaxed);','turn_ = 0;')]),
('q-sched-incr','C02','quiet',[('utility/thread_pool.hpp','turn_.fetch_add(1, std::memory_order_relaxed);','turn_++;')]),
('sched-incr','C02','hit',[(G,'detail::execution_context::global_thread_pool.reset_scheduler();',''),('utility/thread_pool.hpp','turn_.fetch_add(1, std::memory_order_relaxed);','turn_++;')]),
]
