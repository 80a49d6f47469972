N2='algorithm/nsga2.cpp'; N3='algorithm/nsga3.cpp'; AB='algorithm/algorithm_base.impl.hpp'; GB='core/ga_base.impl.hpp'
M=[
('dists-candidate','C18','hit',[(N2,'dists_[i]  = crowding_distances[pareto_fronts[i].idx];','dists_[i]  = crowding_distances[i];')]),
('ranks-by-idx','C18','hit',[(N2,'ranks_[i]  = pareto_fronts[i].rank;','ranks_[pareto_fronts[i].idx % popsize]  = pareto_fronts[i].rank;')]),
('ranks-not-updated','C18','hit',[(N2,'ranks_[i]  = pareto_fronts[i].rank;','')]),
('init-ranks-pos','C18','hit',[(N2,'ranks_ = pareto_fronts.ranks();','ranks_.resize(ga.population_size()); for (size_t i = 0; i < ranks_.size(); i++) ranks_[i] = pareto_fronts[i].rank;')]),
('ranks-pos-helper','C18','hit',[('algorithm/nd_sort.cpp','for (const FrontElement& elem : elements_) { ranks[elem.idx] = elem.rank; }','for (size_t i = 0; i < ranks.size(); i++) { ranks[i] = elements_[i].rank; }')]),
('sort-after','C18','hit',[(N2,'        return new_pop;\n','        std::sort(new_pop.begin(), new_pop.end());\n        return new_pop;\n')]),
('sort-fronts-between','C18','hit',[(N2,'for (size_t i = 0; i < popsize; i++) { new_pop[i] = pareto_fronts[i].idx; ranks_[i]','for (size_t i = 0; i < popsize; i++) ranks_[i] = pareto_fronts[i].rank; std::sort(pareto_fronts.begin(), pareto_fronts.end(), [](const auto& l, const auto& r) { return l.idx < r.idx; }); for (size_t i = 0; i < popsize; i++) { new_pop[i] = pareto_fronts[i].idx; ranks_[i + 0 * popsize]')]),
('info-by-pos','C18','hit',[(N3,'new_info.push_back(sol_info_[sol.idx]);','new_info.push_back(sol_info_[new_info.size()]);')]),
('info-not-moved','C18','hit',[(N3,'sol_info_ = std::move(new_info);','sol_info_.resize(pareto_fronts.size());')]),
('rank-stale','C18','hit',[(N3,'''pimpl_->sol_info_.resize(fmat.size());
        std::for_each(pareto_fronts.begin(), pareto_fronts.end(), [this](const FrontElement& sol) { pimpl_->sol_info_[sol.idx].rank = sol.rank; });''','pimpl_->sol_info_.resize(fmat.size());')]),
('rank-mismatch','C18','hit',[(N3,'''pimpl_->sol_info_.resize(fmat.size());
        std::for_each(pareto_fronts.begin(), pareto_fronts.end(), [this](const FrontElement& sol) { pimpl_->sol_info_[sol.idx].rank = sol.rank; });''','''pimpl_->sol_info_.resize(fmat.size());
        for (size_t i = 0; i < fmat.size(); i++) { pimpl_->sol_info_[i].rank = pareto_fronts[i].rank; }''')]),
('select-other','C18','hit',[(AB,'return pop[selected_idx];','return pop[pop.size() - 1 - selected_idx];')]),
('children-first','C18','hit',[(AB,'parents.reserve(parents.size() + children.size()); std::move(children.begin(), children.end(), std::back_inserter(parents));','children.reserve(parents.size() + children.size()); std::move(parents.begin(), parents.end(), std::back_inserter(children)); parents.swap(children);')]),
('shuffle-between','C18','hit',[(AB,'const auto next_indices =','std::reverse(parents.begin(), parents.end()); const auto next_indices =')]),
('gather-wrong','C18','hit',[('utility/algorithm.hpp','detail::forward_like<R>(container[idx])','detail::forward_like<R>(container[selected.size()])')]),
('matrix-skip','C18','hit',[('core/population.hpp','for (const Candidate<T>& sol : pop) { fitness_matrix.append_row(sol.fitness); }','for (const Candidate<T>& sol : pop) { if (!sol.fitness.empty()) fitness_matrix.append_row(sol.fitness); }')]),
# quiet
('q-transform','C18','quiet',[(N2,'for (size_t i = 0; i < popsize; i++) { new_pop[i] = pareto_fronts[i].idx; ranks_[i]  = pareto_fronts[i].rank; dists_[i]  = crowding_distances[pareto_fronts[i].idx]; }','std::transform(pareto_fronts.begin(), pareto_fronts.end(), new_pop.begin(), [](const FrontElement& s) { return s.idx; }); std::transform(pareto_fronts.begin(), pareto_fronts.end(), ranks_.begin(), [](const FrontElement& s) { return s.rank; }); for (size_t i = 0; i < popsize; i++) dists_[i] = crowding_distances[new_pop[i]];')]),
('q-ref','C18','quiet',[(N2,'new_pop[i] = pareto_fronts[i].idx; ranks_[i]  = pareto_fronts[i].rank; dists_[i]  = crowding_distances[pareto_fronts[i].idx];','const FrontElement& elem = pareto_fronts[i]; const size_t idx = elem.idx; new_pop[i] = idx; dists_[i] = crowding_distances[idx]; ranks_[i] = elem.rank;')]),
('q-local','C18','quiet',[(N2,'for (size_t i = 0; i < popsize; i++) { new_pop[i] = pareto_fronts[i].idx; ranks_[i]  = pareto_fronts[i].rank; dists_[i]  = crowding_distances[pareto_fronts[i].idx]; }','std::vector<double> nd; std::vector<size_t> nr; size_t i = 0; for (const FrontElement& s : pareto_fronts) { new_pop[i++] = s.idx; nr.push_back(s.rank); nd.push_back(crowding_distances[s.idx]); } ranks_ = std::move(nr); dists_ = nd;')]),
('q-info-loop','C18','quiet',[(N3,'for (const FrontElement& sol : pareto_fronts) { new_pop.push_back(sol.idx); new_info.push_back(sol_info_[sol.idx]); }','for (size_t i = 0; i < pareto_fronts.size(); i++) { const size_t idx = pareto_fronts[i].idx; new_info.push_back(sol_info_[idx]); new_pop.push_back(idx); }')]),
('q-info-index','C18','quiet',[(N3,'for (const FrontElement& sol : pareto_fronts) { new_pop.push_back(sol.idx); new_info.push_back(sol_info_[sol.idx]); }','new_pop.resize(pareto_fronts.size()); new_info.resize(pareto_fronts.size()); for (size_t i = 0; i < pareto_fronts.size(); i++) { new_pop[i] = pareto_fronts[i].idx; new_info[i] = sol_info_[new_pop[i]]; }')]),
('q-helper','C18','quiet',[('algorithm/nsga2.hpp','std::vector<size_t> ranks_;','void store(size_t i, const std::vector<double>& d, size_t idx, size_t rank) { dists_[i] = d[idx]; ranks_[i] = rank; }\n std::vector<size_t> ranks_;'),(N2,'ranks_[i]  = pareto_fronts[i].rank; dists_[i]  = crowding_distances[pareto_fronts[i].idx];','store(i, crowding_distances, pareto_fronts[i].idx, pareto_fronts[i].rank);')]),
('q-rank-loop','C18','quiet',[(N3,'''pimpl_->sol_info_.resize(fmat.size());
        std::for_each(pareto_fronts.begin(), pareto_fronts.end(), [this](const FrontElement& sol) { pimpl_->sol_info_[sol.idx].rank = sol.rank; });''','''pimpl_->sol_info_.resize(fmat.size());
        for (const FrontElement& sol : pareto_fronts) { auto& info = pimpl_->sol_info_[sol.idx]; info.rank = sol.rank; }''')]),
('q-select','C18','quiet',[(AB,'const size_t selected_idx = selectImpl(ga, fmat);','const size_t chosen = selectImpl(ga, fmat); const size_t selected_idx = chosen;')]),
('q-nextpop','C18','quiet',[(AB,'std::move(children.begin(), children.end(), std::back_inserter(parents)); const FitnessMatrix fmat = detail::toFitnessMatrix(parents); const auto next_indices = nextPopulationImpl(ga, fmat);','for (auto& child : children) { parents.push_back(std::move(child)); } const auto next_indices = nextPopulationImpl(ga, detail::toFitnessMatrix(parents));')]),
('q-insert','C18','quiet',[(AB,'std::move(children.begin(), children.end(), std::back_inserter(parents));','parents.insert(parents.end(), std::make_move_iterator(children.begin()), std::make_move_iterator(children.end()));')]),
('q-gather','C18','quiet',[('utility/algorithm.hpp','for (size_t idx : indices) { selected.push_back(detail::forward_like<R>(container[idx])); }','for (size_t i = 0; i < indices.size(); i++) { auto&& elem = detail::forward_like<R>(container[indices[i]]); selected.push_back(std::forward<decltype(elem)>(elem)); }')]),
]
