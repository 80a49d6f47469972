G='core/ga_base.impl.hpp'; I='core/ga_info.cpp'; D='core/ga_base.decl.hpp'; SO='algorithm/single_objective.cpp'; SEL='algorithm/soga_selection.cpp'; MR='mutation/real.hpp'; SH='algorithm/soga_selection.hpp'; SC='stop_condition/stop_condition.cpp'
M=[
('flag-keep','C13','hit',[(I,'        use_default_algorithm_ = !f;\n','')]),
('flag-inv','C13','hit',[(I,'use_default_algorithm_ = !f;','use_default_algorithm_ = !!f;')]),
('flag-after','C13','hit',[(I,'        use_default_algorithm_ = !f;\n',''),(I,'algorithm_ = f ? std::move(f) : std::make_unique<algorithm::SingleObjective>();','algorithm_ = f ? std::move(f) : std::make_unique<algorithm::SingleObjective>(); use_default_algorithm_ = !f;')]),
('flag-null','C13','hit',[(I,'        use_default_algorithm_ = true;\n','')]),
('flag-ctor','C13','hit',[(G,'        use_default_algorithm_ = true;\n        use_default_mutation_rate_ = true;\n','use_default_algorithm_ = true;\n')]),
('flag-ctor2','C13','hit',[(G,'        use_default_algorithm_ = true;\n        use_default_mutation_rate_ = false;\n','        use_default_mutation_rate_ = false;\n')]),
('flag-mut','C13','hit',[(G,'mutation_ = std::move(f);\n        use_default_mutation_rate_ = false;','mutation_ = std::move(f);')]),
('flag-mut2','C13','hit',[(G,'mutation_ = std::make_unique<F>(std::move(f));\n        use_default_mutation_rate_ = false;','mutation_ = std::make_unique<F>(std::move(f));\n use_default_mutation_rate_ = true;')]),
('flag-mut3','C13','hit',[(G,'mutation_ = std::make_unique<mutation::Lambda<T>>(std::move(f));\n        use_default_mutation_rate_ = true;','mutation_ = std::make_unique<mutation::Lambda<T>>(std::move(f));')]),
('flag-rate','C13','hit',[(G,'mutation_->mutation_rate(pm);\n        use_default_mutation_rate_ = false;','mutation_->mutation_rate(pm);')]),
('repair','C13','hit',[(G,'repair_ = std::move(f);','if (!repair_) repair_ = std::move(f);')]),
('cachesize','C13','hit',[(G,'cached_generations_ = generations;','if (generations > cached_generations_) cached_generations_ = generations;')]),
('sigma','C13','hit',[(SEL,'std::clamp(scale_ * fdev,','std::clamp(fdev,')]),
('weights','C13','hit',[(SEL,'        max_weight_ = max_weight;','        max_weight_ = std::max<double>(min_weight, max_weight_);')]),
('maxgen','C13','hit',[('core/ga_info.hpp','max_gen_ = max_gen;','max_gen_ = std::max<size_t>(max_gen, max_gen_);')]),
('r-flag','C13','quiet',[(I,'        use_default_algorithm_ = !f;\n        algorithm_ = f ? std::move(f) : std::make_unique<algorithm::SingleObjective>();','        if (!f) { use_default_algorithm_ = true; algorithm_ = std::make_unique<algorithm::SingleObjective>(); return; }\n use_default_algorithm_ = false; algorithm_ = std::move(f);')]),
('r-flag2','C13','quiet',[(I,'        use_default_algorithm_ = !f;\n','const bool none = (f == nullptr); use_default_algorithm_ = none;')]),
('r-swap','C13','quiet',[(G,'mutation_ = std::move(f);\n        use_default_mutation_rate_ = false;','use_default_mutation_rate_ = false; mutation_.swap(f);')]),
('r-stop','C13','quiet',[(I,'stop_condition_ = f ? std::move(f) : std::make_unique<stopping::NoEarlyStop>();','if (f) stop_condition_ = std::move(f); else stop_condition_ = std::make_unique<stopping::NoEarlyStop>();')]),
('r-order','C13','quiet',[(G,'mutation_ = std::make_unique<F>(std::move(f));\n        use_default_mutation_rate_ = false;','auto ptr = std::make_unique<F>(std::move(f));\n use_default_mutation_rate_ = false; mutation_ = std::move(ptr);')]),
('r-same','C13','quiet',[(G,'cached_generations_ = generations;','if (generations != cached_generations_) cached_generations_ = generations;')]),
]
M+=[
('solve-limit','C13','hit',[(G,'return solve(std::make_unique<F>(std::move(fitness_function)), std::move(bounds), generations, std::move(initial_population));','return solve(std::make_unique<F>(std::move(fitness_function)), std::move(bounds), max_gen(), std::move(initial_population));')]),
('solve-pop','C13','hit',[(G,'return solve(std::make_unique<F>(std::move(fitness_function)), generations, std::move(initial_population));','return solve(std::make_unique<F>(std::move(fitness_function)), generations);')]),
('solve-bounds','C13','hit',[(G,'return solve(std::make_unique<F>(std::move(fitness_function)), BoundsVector<T>(chrom_len, bounds), generations, std::move(initial_population));','return solve(std::make_unique<F>(std::move(fitness_function)), BoundsVector<T>(chrom_len, bounds_.empty() ? bounds : bounds_[0]), generations, std::move(initial_population));')]),
('solve-keepbounds','C13','hit',[(G,'if constexpr (is_bounded<T>) { bounds_ = std::move(bounds); }','if constexpr (is_bounded<T>) { if (bounds_.size() != bounds.size()) bounds_ = std::move(bounds); }')]),
('solve-keeplimit','C13','hit',[(G,'fitness_function_ = std::move(fitness_function);\n        max_gen(generations);\n\n        initializeAlgorithm(std::move(bounds)','fitness_function_ = std::move(fitness_function);\n        if (generations < max_gen()) max_gen(generations);\n\n        initializeAlgorithm(std::move(bounds)')]),
('pop-late','C13','hit',[(G,'population_ = generatePopulation(population_size_, std::move(initial_population));','population_ = generatePopulation(population_size_, initial_population.size() <= population_size_ ? std::move(initial_population) : Population<T>{});')]),
('r-solve','C13','quiet',[(G,'return solve(std::move(fitness_function), max_gen(), std::move(initial_population));','const size_t generations = max_gen(); return solve(std::move(fitness_function), generations, std::move(initial_population));')]),
('r-bounds','C13','quiet',[(G,'if constexpr (is_bounded<T>) { bounds_ = std::move(bounds); }','if constexpr (is_bounded<T>) { bounds_.swap(bounds); }')]),

('n3-copy','C13','hit',[('algorithm/nsga3.cpp','pimpl_(std::make_unique<Impl>(*rhs.pimpl_))','pimpl_(std::make_unique<Impl>())')]),
('n3-move','C13','hit',[('algorithm/nsga3.cpp','this->pimpl_ = std::move(other.pimpl_);','')]),
('q-n3-copy','C13','quiet',[('algorithm/nsga3.cpp','pimpl_ = std::move(other.pimpl_);','pimpl_.swap(other.pimpl_);')]),
('n3-impl-copy','C13','hit',[('algorithm/nsga3.cpp','FitnessMatrix extreme_points_;','FitnessMatrix extreme_points_; Impl() = default; Impl(const Impl& o) : ref_lines_(o.ref_lines_) {} ')]),
]
