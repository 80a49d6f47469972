GB='core/ga_base.impl.hpp'
M=[
('advance-noexcept','C15','hit',[(GB,'detail::parallel_for(children.begin(), children.end(), [this](Candidate<T>& child)','detail::parallel_for(children.begin(), children.end(), [this](Candidate<T>& child) noexcept')]),
('stop-noexcept','C15','hit',[('core/ga_base.decl.hpp','bool stopCondition() const;','bool stopCondition() const noexcept;'),(GB,'inline bool GA<T>::stopCondition() const','inline bool GA<T>::stopCondition() const noexcept')]),
('metric-noexcept','C15','hit',[('metrics/metric_set.hpp','void update(const GaInfo& ga)','void update(const GaInfo& ga) noexcept'),('metrics/metric_set.cpp','void MetricSet::update(const GaInfo& ga)','void MetricSet::update(const GaInfo& ga) noexcept')]),
('swallow-callback','C15','hit',[(GB,'if (on_generation_end_) on_generation_end_(*this);\n    }\n\n    template<typename T>\n    Candidates<T> GA<T>::solve','try { if (on_generation_end_) on_generation_end_(*this); } catch (const std::exception&) {}\n    }\n\n    template<typename T>\n    Candidates<T> GA<T>::solve')]),
('swallow-one-type','C15','hit',[(GB,'sol.fitness = (*fitness_function_)(sol.chromosome);','try { sol.fitness = (*fitness_function_)(sol.chromosome); } catch (const std::out_of_range&) { sol.fitness = FitnessVector(num_objectives_, math::small<double>); }')]),
('lambda-noexcept','C15','hit',[('algorithm/soga_selection.cpp','size_t Lambda::selectImpl(const GaInfo& ga, const FitnessMatrix& fmat) const','size_t Lambda::selectImpl(const GaInfo& ga, const FitnessMatrix& fmat) const noexcept'),('algorithm/soga_selection.hpp','''        size_t selectImpl(const GaInfo& ga, const FitnessMatrix& fmat) const override;

        SelectionCallable''','''        size_t selectImpl(const GaInfo& ga, const FitnessMatrix& fmat) const noexcept override;

        SelectionCallable''')]),
('temp-in-lambda','C15','hit',[('algorithm/soga_selection.cpp','return std::min(math::large<double>, std::exp(fnorm / temperature));','return std::min(math::large<double>, std::exp(fnorm / (temperature_(ga.generation_cntr(), ga.max_gen()))));')]),
('q-rethrow','C15','quiet',[(GB,'sol.fitness = (*fitness_function_)(sol.chromosome);','try { sol.fitness = (*fitness_function_)(sol.chromosome); } catch (...) { sol.is_evaluated = false; throw; }')]),
('q-noexcept-query','C15','quiet',[('core/ga_base.decl.hpp','void prepareSelections() const;','void prepareSelections() const;\n        size_t childCount() const noexcept { return population_.size(); }')]),
]
