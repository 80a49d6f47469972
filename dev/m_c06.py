G='core/ga_base.impl.hpp'; POP='core/population.hpp'; N='algorithm/nd_sort.cpp'; H='metrics/pop_stats.cpp'; R='utility/rng.hpp'; N3='algorithm/nsga3.cpp'; SS='algorithm/soga_selection.cpp'
M=[
('plain-count','C06','hit',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);','num_fitness_evals_++;')]),
('split-atomic','C06','hit',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);','num_fitness_evals_ = std::atomic_ref{ num_fitness_evals_ }.load() + 1;')]),
('is-selected','C06','hit',[(R,'thread_local detail::dynamic_bitset is_selected;','static detail::dynamic_bitset is_selected;')]),
('old-candidate','C06','hit',[('mutation/mutation_base.impl.hpp','thread_local Candidate<T> old_candidate;','static Candidate<T> old_candidate;')]),
('children-idx','C06','hit',[(G,'children[2 * i + 1] = std::move(child_pair.second);','children[i + 1] = std::move(child_pair.second);')]),
('children-idx2','C06','hit',[(G,'children[2 * i]     = std::move(child_pair.first);','children[i] = std::move(child_pair.first);')]),
('children-push','C06','hit',[(G,'children[2 * i]     = std::move(child_pair.first);','children.push_back(std::move(child_pair.first));')]),
('pair-hoisted','C06','hit',[(G,'detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(population_size_ / 2), [&](size_t i)','CandidatePair<T> child_pair; detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(population_size_ / 2), [&](size_t i)'),(G,'CandidatePair child_pair = crossover','child_pair = crossover')]),
('hv-plain','C06','hit',[(H,'std::atomic<double> hypervolume = 0.0;','double hypervolume = 0.0;'),(H,'hypervolume.fetch_add(exclusive_hypervolume, std::memory_order_relaxed);','hypervolume += exclusive_hypervolume;'),(H,'return hypervolume.load(std::memory_order_relaxed);','return hypervolume;')]),
('nd-noatomic','C06','hit',[(N,'elem.store(NONMAXIMAL, std::memory_order_relaxed);','dmat(row, col) = NONMAXIMAL;')]),
('nd-noatomic2','C06','hit',[(N,'std::atomic_ref elem{ dmat(row, col) };','auto& elem = dmat(row, col);'),(N,'elem.load(std::memory_order_relaxed) == MAXIMAL','elem == MAXIMAL'),(N,'elem.store(NONMAXIMAL, std::memory_order_relaxed);','elem = NONMAXIMAL;')]),
('merge-noatomic-r','C06','hit',[(POP,'std::atomic_ref{ rhs_state[j] }.load(std::memory_order_relaxed)','rhs_state[j]')]),
('merge-noatomic-w','C06','hit',[(POP,'std::atomic_ref{ rhs_state[j] }.store(OPTIMAL, std::memory_order_relaxed);','rhs_state[j] = OPTIMAL;')]),
('merge-lhs-j','C06','hit',[(POP,'lhs_state[i] = OPTIMAL;','lhs_state[j] = OPTIMAL;')]),
('nsga3-norm','C06','hit',[(N3,'const FitnessVector fnorm = normalizeFitnessVec(first[sol.idx], ideal_point_, nadir_point_);\n\n            auto inverse','updateIdealPoint(first, last); const FitnessVector fnorm = normalizeFitnessVec(first[sol.idx], ideal_point_, nadir_point_);\n\n            auto inverse')]),
('nsga3-count','C06','hit',[(N3,'sol_info_[sol.idx].ref_dist = math','niche_counts_[sol_info_[sol.idx].ref_idx]++; sol_info_[sol.idx].ref_dist = math')]),
('tourney-static','C06','hit',[(SS,'small_vector<size_t> candidate_indices(tourney_size_);','static small_vector<size_t> candidate_indices; candidate_indices.resize(tourney_size_);')]),
('tourney-mutable','C06','hit',[(SS,'small_vector<size_t> candidate_indices(tourney_size_);','candidate_indices.resize(tourney_size_);'),('algorithm/soga_selection.hpp','Positive<size_t> tourney_size_;','Positive<size_t> tourney_size_; mutable small_vector<size_t> candidate_indices;')]),
('cache-insert','C06','hit',[(G,'sol.fitness = (*fitness_function_)(sol.chromosome);','sol.fitness = (*fitness_function_)(sol.chromosome); if (cached_generations_ && !fitness_function_->is_dynamic()) const_cast<GA<T>*>(this)->fitness_cache_.insert(sol, sol.fitness);')]),
('shared-tmp','C06','hit',[(G,'detail::parallel_for(children.begin(), children.end(), [this](Candidate<T>& child)','Candidate<T>* cur; detail::parallel_for(children.begin(), children.end(), [this, &cur](Candidate<T>& child)'),(G,'mutate(child); repair(child);','cur = &child; mutate(*cur); repair(child);')]),
('gen-global','C06','hit',[(R,'alignas(128) inline static thread_local RegisteredGenerator generator_;','alignas(128) inline static RegisteredGenerator generator_;')]),
('q-helper','C06','quiet',[(G,'children[2 * i]     = std::move(child_pair.first);\n            children[2 * i + 1] = std::move(child_pair.second);','const size_t first = 2 * i; auto* out = &children[first]; *out = std::move(child_pair.first); children[first + 1] = std::move(child_pair.second);')]),
('q-iter','C06','quiet',[(G,'children[2 * i]     = std::move(child_pair.first);\n            children[2 * i + 1] = std::move(child_pair.second);','const auto out = children.begin() + 2 * i; *out = std::move(child_pair.first); *(out + 1) = std::move(child_pair.second);')]),
('q-hvvec','C06','quiet',[(H,'std::atomic<double> hypervolume = 0.0;','std::vector<double> parts(front.size());'),(H,'hypervolume.fetch_add(exclusive_hypervolume, std::memory_order_relaxed);','parts[idx] = exclusive_hypervolume;'),(H,'return hypervolume.load(std::memory_order_relaxed);','return std::accumulate(parts.begin(), parts.end(), 0.0);')]),
('q-count','C06','quiet',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);','std::atomic_ref counter{ num_fitness_evals_ }; ++counter;')]),
('q-countfn','C06','quiet',[(G,'std::atomic_ref{ num_fitness_evals_ }.fetch_add(1, std::memory_order_release);','auto count = [](size_t& c) { std::atomic_ref<size_t>(c).fetch_add(1, std::memory_order_relaxed); }; count(num_fitness_evals_);')]),
('q-lambda','C06','quiet',[(G,'mutate(child); repair(child); evaluate(child);','auto step = [&] { mutate(child); repair(child); }; step(); evaluate(child);')]),
('q-index','C06','quiet',[(G,'detail::parallel_for(children.begin(), children.end(), [this](Candidate<T>& child)\n        {','detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(children.size()), [&](size_t k)\n        { Candidate<T>& child = children[k];')]),
('q-nsga3','C06','quiet',[(N3,'sol_info_[sol.idx].ref_idx  = std::distance(ref_lines_.begin(), closest);\n            sol_info_[sol.idx].ref_dist =','auto& info = sol_info_[sol.idx]; info.ref_idx  = std::distance(ref_lines_.begin(), closest);\n            info.ref_dist =')]),
('q-merge','C06','quiet',[(POP,'lhs_state[i] = OPTIMAL;\n                    std::atomic_ref','auto& mine = lhs_state[i]; mine = OPTIMAL;\n                    std::atomic_ref')]),
('q-mergeref','C06','quiet',[(POP,'const ParetoDominance rhs_state_j = std::atomic_ref{ rhs_state[j] }.load(std::memory_order_relaxed);','std::atomic_ref<ParetoDominance> rs(rhs_state[j]); const ParetoDominance rhs_state_j = rs.load(std::memory_order_relaxed);')]),
('q-nd','C06','quiet',[(N,'std::atomic_ref elem{ dmat(row, col) };','auto& cell = dmat(row, col); std::atomic_ref elem{ cell };')]),
('q-tourney-tl','C06','quiet',[(SS,'small_vector<size_t> candidate_indices(tourney_size_);','thread_local small_vector<size_t> candidate_indices; candidate_indices.resize(tourney_size_);')]),
]
M+=[('vecbool','C06','hit',[(POP,'std::vector<ParetoDominance> lhs_state(lhs.size());','std::vector<bool> ld(lhs.size()); std::vector<ParetoDominance> lhs_state(lhs.size());'),(POP,'lhs_state[i] = OPTIMAL;','ld[i] = true; lhs_state[i] = OPTIMAL;')]),
('dynbitset','C06','hit',[(POP,'std::vector<ParetoDominance> lhs_state(lhs.size());','detail::dynamic_bitset ld(lhs.size()); std::vector<ParetoDominance> lhs_state(lhs.size());'),(POP,'lhs_state[i] = OPTIMAL;','ld[i] = true; lhs_state[i] = OPTIMAL;'),(POP,'#include "candidate.hpp"','#include "candidate.hpp"\n#include "../utility/dynamic_bitset.hpp"')]),
('vecbool-ref','C06','hit',[(POP,'std::vector<ParetoDominance> lhs_state(lhs.size());','std::vector<bool> ld(lhs.size()); std::vector<ParetoDominance> lhs_state(lhs.size());'),(POP,'lhs_state[i] = OPTIMAL;','auto x = ld[i]; x = true; lhs_state[i] = OPTIMAL;')]),
]
