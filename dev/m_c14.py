BV='utility/bounded_value.hpp'; G='core/ga_base.impl.hpp'; SO='algorithm/single_objective.cpp'; SS='algorithm/soga_selection.cpp'; SH='algorithm/soga_selection.hpp'
M=[
('cross-null','C14','hit',[(G,'GAPP_ASSERT(f, "The crossover method can\'t be a nullptr.");','')]),
('ctor-null','C14','hit',[(G,'GAPP_ASSERT(mutation_, "The mutation method can\'t be a nullptr.");','')]),
('lambda-null','C14','hit',[('mutation/lambda.hpp','GAPP_ASSERT(mutate_, "The mutation method can\'t be a nullptr.");','')]),
('sel-null-polarity','C14','hit',[(SO,'GAPP_ASSERT(selection, "The selection','GAPP_ASSERT(selection || replacement_, "The selection')]),
('solve-null','C14','hit',[(G,'GAPP_ASSERT(fitness_function, "The fitness function can\'t be a nullptr.");','')]),
('interval-excl','C14','hit',[(BV,'if (!(value <= right_) || (!right_inclusive_ && value == right_)) return false;','if (!(value <= right_) || (right_inclusive_ && value == right_)) return false;')]),
('interval-noassert','C14','hit',[(BV,'GAPP_ASSERT(I.contains(value_), "The value is outside of the allowed interval.");','')]),
('alias-positive','C14','hit',[(BV,'Positive = detail::BoundedValue<T, detail::Interval<T>{ T(0), std::numeric_limits<T>::max(), false, true }>','Positive = detail::BoundedValue<T, detail::Interval<T>{ T(0), std::numeric_limits<T>::max(), true, true }>')]),
('alias-prob','C14','hit',[(BV,'using Probability = detail::BoundedValue<double, detail::Interval<double>{ 0.0, 1.0, true, true }>','using Probability = detail::BoundedValue<double, detail::Interval<double>{ 0.0, 1.0, true, false }>')]),
('rank-swapped','C14','hit',[(SS,'Rank::Rank(NonNegative<double> min_weight, NonNegative<double> max_weight) noexcept :\n        min_weight_(min_weight), max_weight_(max_weight)\n    {\n        GAPP_ASSERT(min_weight <= max_weight','Rank::Rank(NonNegative<double> min_weight, NonNegative<double> max_weight) noexcept :\n        min_weight_(min_weight), max_weight_(max_weight)\n    {\n        GAPP_ASSERT(min_weight >= 0.0')]),
('tourn-plain','C14','hit',[(SH,'constexpr void size(Positive<size_t> size) noexcept','constexpr void size(size_t size) noexcept { if (size == 0) return; tourney_size_ = size; }\n constexpr void size2(size_t size) noexcept')]),
('boltz','C14','hit',[(SS,'GAPP_ASSERT(f, "The temperature function can\'t be a nullptr.");','')]),
('stop-lambda','C14','hit',[('stop_condition/stop_condition_base.hpp','GAPP_ASSERT(stop_condition_, "The stop condition can\'t be a nullptr.");','')]),
('dtlz','C14','hit',[('problems/many_objective.cpp','GAPP_ASSERT(num_obj >= 2, "The number of objectives must be at least 2.");','GAPP_ASSERT(num_obj >= 1, "The number of objectives must be at least 2.");')]),
('r-throw','C14','quiet',[(G,'GAPP_ASSERT(f, "The crossover method can\'t be a nullptr.");','if (!f) GAPP_THROW(std::invalid_argument, "The crossover method can\'t be a nullptr.");')]),
('r-neq','C14','quiet',[(G,'GAPP_ASSERT(f, "The mutation method can\'t be a nullptr.");','GAPP_ASSERT(f != nullptr, "The mutation method can\'t be a nullptr.");')]),
('r-after','C14','quiet',[(G,'GAPP_ASSERT(f, "The crossover method can\'t be a nullptr.");\n\n        crossover_ = std::move(f);','crossover_ = std::move(f);\n GAPP_ASSERT(crossover_, "The crossover method can\'t be a nullptr.");')]),
('r-helper','C14','quiet',[(SO,'GAPP_ASSERT(selection, "The selection','const auto nn = [](const auto& p) { return p != nullptr; };\n GAPP_ASSERT(nn(selection), "The selection')]),
('r-contains','C14','quiet',[(BV,'if (!(value >= left_)  || (!left_inclusive_  && value == left_))  return false;\n            if (!(value <= right_) || (!right_inclusive_ && value == right_)) return false;\n            return true;','return (left_ < value || (left_inclusive_ && left_ == value)) && (value < right_ || (right_inclusive_ && right_ == value));')]),
('r-plain-assert','C14','quiet',[(SH,'constexpr void size(Positive<size_t> size) noexcept','constexpr void size(size_t size) noexcept { GAPP_ASSERT(size > 0); tourney_size_ = size; }\n constexpr void size2(size_t size) noexcept')]),
('r-dtlz','C14','quiet',[('problems/many_objective.cpp','GAPP_ASSERT(num_obj >= 2, "The number of objectives must be at least 2.");','GAPP_ASSERT(1 < num_obj, "The number of objectives must be at least 2.");')]),
('r-rank','C14','quiet',[(SS,'GAPP_ASSERT(min_weight <= max_weight, "The maximum','GAPP_ASSERT(!(max_weight < min_weight), "The maximum')]),
('pair-small','C14','hit',[('algorithm/soga_selection.cpp','''    void Rank::weights(NonNegative<double> min_weight, NonNegative<double> max_weight) noexcept
    {
        GAPP_ASSERT(min_weight <= max_weight,''','''    void Rank::weights(NonNegative<double> min_weight, NonNegative<double> max_weight) noexcept
    {
        GAPP_ASSERT(min_weight <= max_weight || max_weight <= 1.0,''')]),
('bounds-nan','C14','hit',[('core/candidate.hpp','GAPP_ASSERT(lower <= upper,','GAPP_ASSERT(lower <= upper || lower != lower,')]),
('bounds-nan2','C14','hit',[('core/candidate.hpp','GAPP_ASSERT(lower <= upper,','GAPP_ASSERT(!(lower > upper),')]),
]
