D='core/ga_base.decl.hpp'; I='core/ga_base.impl.hpp'; GI='core/ga_info.hpp'; SO='algorithm/single_objective.hpp'
M=[
('any-crossover','C21','hit',[(D,"requires std::derived_from<F, crossover::Crossover<T>>\n        void crossover_method(F f);","void crossover_method(F f);"),(I,"template<typename F>\n    requires std::derived_from<F, crossover::Crossover<T>>","template<typename F>")]),
('ctor-any-mut','C21','hit',[(D,"""template<typename CrossoverType, typename MutationType, typename StoppingType = stopping::NoEarlyStop>
        requires std::derived_from<CrossoverType, crossover::Crossover<T>> &&
                 std::derived_from<MutationType, mutation::Mutation<T>> &&""","""template<typename CrossoverType, typename MutationType, typename StoppingType = stopping::NoEarlyStop>
        requires std::derived_from<CrossoverType, crossover::Crossover<T>> &&"""),(I,"""requires std::derived_from<CrossoverType, crossover::Crossover<T>> &&
             std::derived_from<MutationType, mutation::Mutation<T>> &&
             std::derived_from<StoppingType, stopping::StopCondition>
    GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover""","""requires std::derived_from<CrossoverType, crossover::Crossover<T>> &&
             std::derived_from<StoppingType, stopping::StopCondition>
    GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover""")]),
('nobounds','C21','hit',[(D,"size_t generations, Population<T> initial_population = {}) requires (!is_bounded<T>);","size_t generations, Population<T> initial_population = {});"),(I,"size_t generations, Population<T> initial_population) requires (!is_bounded<T>)","size_t generations, Population<T> initial_population)")]),
('track-any','C21','hit',[(GI,"requires (std::derived_from<Metrics, metrics::MonitorBase> && ...)\n        void track","requires (std::derived_from<Metrics, metrics::MonitorBase> || ...)\n        void track"),(GI,"requires (std::derived_from<Metrics, metrics::MonitorBase> && ...)\n    inline void GaInfo::track","requires (std::derived_from<Metrics, metrics::MonitorBase> || ...)\n    inline void GaInfo::track")]),
('copyable-tol','C21','hit',[('utility/math.hpp',"ScopedTolerances(const ScopedTolerances&)            = delete;","ScopedTolerances(const ScopedTolerances&)            = default;")]),
('pop-mutable','C21','hit',[(D,"const Population<T>& population() const","Population<T>& population() const"),(D,"Population<T> population_;","mutable Population<T> population_;")]),
('const-setter','C21','hit',[(GI,"void max_gen(Positive<size_t> max_gen) noexcept { max_gen_ = max_gen; }","void max_gen(Positive<size_t> max_gen) const noexcept { max_gen_ = max_gen; }"),(GI,"Positive<size_t> max_gen_","mutable Positive<size_t> max_gen_")]),
('soga-or','C21','hit',[(SO,"requires std::derived_from<S, selection::Selection> && std::derived_from<R, replacement::Replacement>\n        explicit","requires std::derived_from<S, selection::Selection>\n        explicit"),(SO,"requires std::derived_from<S, selection::Selection> && std::derived_from<R, replacement::Replacement>\n    inline","requires std::derived_from<S, selection::Selection>\n    inline")]),
('q-concept','C21','quiet',[(D,"requires std::derived_from<F, crossover::Crossover<T>>\n        void crossover_method(F f);","requires std::is_base_of_v<crossover::Crossover<T>, F>\n        void crossover_method(F f);"),(I,"template<typename F>\n    requires std::derived_from<F, crossover::Crossover<T>>","template<typename F>\n    requires std::is_base_of_v<crossover::Crossover<T>, F>")]),
('q-static','C21','quiet',[('encoding/gene_types.hpp',"template<> inline constexpr bool is_bounded<RealGene>    = true;\n    template<> inline constexpr bool is_bounded<IntegerGene> = true;",""),('encoding/gene_types.hpp',"inline constexpr bool is_bounded = false;","inline constexpr bool is_bounded = std::is_same_v<GeneType, RealGene> || std::is_same_v<GeneType, IntegerGene>;"),('encoding/gene_types.hpp',"#include <cstddef>","#include <cstddef>\n#include <type_traits>")]),
]
