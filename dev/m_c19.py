G='core/ga_base.impl.hpp'; C='utility/cache.hpp'
M=[
('count-first','C19','hit',[(G,'        if (cached_generations_ &&','std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);\n if (cached_generations_ &&'),(G,'        std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);\n\n        sol.fitness','        sol.fitness')]),
('count-2','C19','hit',[(G,'fetch_add(1, std::mem','fetch_add(2, std::mem')]),
('count-load-store','C19','hit',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);','std::atomic_ref{ num_fitness_evals_ }.store(std::atomic_ref{ num_fitness_evals_ }.load() + 1);')]),
('count-plain','C19','hit',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);','num_fitness_evals_++;')]),
('count-only-first','C19','hit',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);','if (!sol.is_evaluated) std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);')]),
('dyn-skip','C19','hit',[(G,'if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;','if (sol.is_evaluated && (cached_generations_ || !fitness_function_->is_dynamic())) return;')]),
('dyn-cache','C19','hit',[(G,'if (cached_generations_ && !fitness_function_->is_dynamic())','if (cached_generations_)')]),
('dyn-assert','C19','hit',[(G,'if (cached_generations_ && !fitness_function_->is_dynamic())\n        {','if (cached_generations_)\n        { GAPP_ASSERT(!fitness_function_->is_dynamic());')]),
('reeval','C19','hit',[(G,'if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;','if (!fitness_function_->is_dynamic() && sol.is_evaluated && !sol.fitness.empty() && cached_generations_) return;')]),
('wrong-key','C19','hit',[(G,'fitness_cache_.get(sol)','fitness_cache_.get(population_[0])')]),
('insert-cv','C19','hit',[(G,'&Candidate<T>::fitness);','[this](const auto&) { return population_[0].fitness; });')]),
('cap','C19','hit',[(G,'* cached_generations_ * population_size_','* cached_generations_')]),
('hit-eval','C19','hit',[(G,'sol.fitness = *fitness;\n                sol.is_evaluated = true;\n                return;','sol.fitness = *fitness;\n                sol.is_evaluated = true;')]),
('noevict','C19','hit',[(C,'if (order_.full()) cache_.erase(order_.front());\n                order_.push_back(it);','order_.push_back(it);')]),
('evict-late','C19','hit',[(C,'if (order_.full()) cache_.erase(order_.front());\n                order_.push_back(it);','order_.push_back(it); if (order_.full()) cache_.erase(order_.front());')]),
('evict-back','C19','hit',[(C,'if (order_.full()) cache_.erase(order_.front());\n                order_.push_back(it);','if (order_.full()) cache_.erase(order_.back());\n                order_.push_back(it);')]),
('evict-size','C19','hit',[(C,'if (order_.full()) cache_.erase(order_.front());\n                order_.push_back(it);','if (order_.size() > 1) cache_.erase(order_.front());\n                order_.push_back(it);')]),
('noinserted','C19','hit',[(C,'if (!inserted) continue;','')]),
('return-inserted','C19','hit',[(C,'if (!inserted) continue;','if (!inserted) continue; if (size() > 100) return;')]),
('clear-one','C19','hit',[(C,'cache_.clear();\n            order_.clear();','cache_.clear();')]),
('reserve','C19','hit',[(C,'cache_.reserve(new_capacity + 1);','cache_.reserve(new_capacity);')]),
('get-noend','C19','hit',[(C,'const auto it = cache_.find(key);\n            if (it == cache_.end()) return nullptr;','const auto it = cache_.find(key);\n            if (it != cache_.end() && empty()) return nullptr;')]),
('swap-one','C19','hit',[(C,'order_.swap(other.order_);','')]),
('r-eval','C19','quiet',[(G,'sol.fitness = (*fitness_function_)(sol.chromosome);','auto fit = std::invoke(*fitness_function_, sol.chromosome); sol.fitness = std::move(fit);')]),
('r-eval2','C19','quiet',[(G,'sol.fitness = (*fitness_function_)(sol.chromosome);','auto fit = (*fitness_function_)(sol.chromosome); sol.fitness = std::move(fit);')]),
('r-dynvar','C19','quiet',[(G,'if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;','const bool dynamic = fitness_function_->is_dynamic(); const bool needs = !sol.is_evaluated || dynamic; if (!needs) return;')]),
('r-inc-after','C19','quiet',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);',''),(G,'sol.fitness = (*fitness_function_)(sol.chromosome);','sol.fitness = (*fitness_function_)(sol.chromosome); std::atomic_ref<size_t> evals(num_fitness_evals_); ++evals;')]),
('r-helper','C19','quiet',[(G,'sol.fitness = (*fitness_function_)(sol.chromosome);\n        sol.is_evaluated = true;','const auto store = [&](auto&& fv) { sol.fitness = std::forward<decltype(fv)>(fv); sol.is_evaluated = true; }; store((*fitness_function_)(sol.chromosome));')]),
('r-cap','C19','quiet',[(G,'fitness_cache_.reset(!fitness_function_->is_dynamic() * cached_generations_ * population_size_);','const size_t cache_len = fitness_function_->is_dynamic() ? 0 : cached_generations_ * population_size_; fitness_cache_.reset(cache_len);')]),
('r-evict-pop','C19','quiet',[(C,'if (order_.full()) cache_.erase(order_.front());\n                order_.push_back(it);','if (order_.full()) { cache_.erase(order_.front()); order_.pop_front(); }\n                order_.push_back(it);')]),
('r-ins-first','C19','quiet',[(C,'if (!inserted) continue;\n\n                if (order_.full()) cache_.erase(order_.front());\n                order_.push_back(it);','if (inserted) { if (order_.full()) { const auto oldest = order_.front(); cache_.erase(oldest); } order_.push_back(it); }')]),
('r-ins-pair','C19','quiet',[(C,'const auto [it, inserted] = cache_.insert_or_assign(*first, std::invoke(f, *first));\n                if (!inserted) continue;','const auto res = cache_.insert_or_assign(*first, std::invoke(f, *first));\n                if (!res.second) continue; const auto it = res.first;')]),
('r-get','C19','quiet',[(C,'const auto it = cache_.find(key);\n            if (it == cache_.end()) return nullptr;\n            return std::addressof(it->second);','const auto it = cache_.find(key);\n            return it != cache_.end() ? &it->second : nullptr;')]),
('r-insert-lambda','C19','quiet',[(G,'&Candidate<T>::fitness);','[](const Candidate<T>& sol) { return sol.fitness; });')]),
('r-insert-loop','C19','quiet',[(G,'fitness_cache_.insert(population_.begin(), population_.end(), &Candidate<T>::fitness);','for (const auto& sol : population_) fitness_cache_.insert(sol, sol.fitness);')]),
('late-reset','C19','hit',[(G,'        num_fitness_evals_ = 0;\n',''),(G,'fitness_matrix_ = detail::toFitnessMatrix(population_);\n        if (keep','fitness_matrix_ = detail::toFitnessMatrix(population_); num_fitness_evals_ = 0;\n        if (keep')]),
]
