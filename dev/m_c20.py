CT='utility/cone_tree.cpp'; CI='crossover/crossover_impl.hpp'; G='core/ga_base.impl.hpp'; PO='core/population.hpp'; ND='algorithm/nd_sort.cpp'; N3='algorithm/nsga3.cpp'; SR='algorithm/soga_replacement.cpp'; PS='metrics/pop_stats.cpp'; AB='algorithm/algorithm_base.impl.hpp'; RL='algorithm/reference_lines.cpp'
M=[
('cone','C20','hit',[(CT,'nodes_[i].left = nodes_.size() - 2;\n                nodes_[i].right = nodes_.size() - 1;','node.left = nodes_.size() - 2;\n node.right = nodes_.size() - 1;')]),
('cone-copyref','C20','hit',[(CT,'nodes_.push_back(left_child);\n                nodes_.push_back(right_child);','const Node& parent = nodes_[i]; nodes_.push_back(left_child);\n nodes_.push_back({ .first = middle_idx, .last = parent.last });')]),
('cone-lambda','C20','hit',[(CT,'nodes_.push_back(left_child);\n                nodes_.push_back(right_child);','const auto add = [&](const Node& child) { nodes_.push_back(child); node.left = nodes_.size(); }; add(left_child); add(right_child);')]),
('replace-sort','C20','hit',[(ND,'removed_rows.push_back(col.idx);\n                }\n            }\n            std::erase_if(cols, [](const Col& col) { return col.sum == 0; });','removed_rows.push_back(col.idx);\n std::erase_if(cols, [](const Col& c) { return c.sum == 0; });\n } }')]),
('pop-ref-over-update','C20','hit',[(G,'updatePopulation(std::move(children));\n        generation_cntr_++;','const Candidate<T>& prev = population_.front(); updatePopulation(std::move(children));\n generation_cntr_++; if (prev.is_evaluated) num_fitness_evals_ += 0;')]),
('fitness-moved','C20','hit',[(G,'sol.chromosome = std::move(improved_chrom);','sol.chromosome = std::move(improved_chrom); sol.is_evaluated = sol.is_evaluated && !improved_chrom.empty();')]),
('merge-moved','C20','hit',[(G,'optimal_sols = detail::mergeParetoSets(std::move(optimal_sols), std::move(optimal_pop));','optimal_sols = detail::mergeParetoSets(std::move(optimal_sols), std::move(optimal_pop)); if (optimal_pop.empty()) return;')]),
('evalcount-moved','C20','hit',[(G,'updatePopulation(std::move(children));\n        generation_cntr_++;','updatePopulation(std::move(children));\n generation_cntr_++; if (children.empty()) return;')]),
('n3-moved-read','C20','hit',[(N3,'sol_info_ = std::move(new_info);','sol_info_ = std::move(new_info); if (new_info.size() < new_pop.size()) new_pop.resize(new_info.size());')]),
('n3-extreme','C20','hit',[(N3,'extreme_points_ = std::move(new_extreme_points);','const auto& first_row = extreme_points_.begin(); extreme_points_ = std::move(new_extreme_points); ideal_point_[0] = std::max(ideal_point_[0], (*first_row)[0]);')]),
('edge-noreserve','C20','hit',[(CI,'child.chromosome.push_back(next_gene);\n            std::erase(remaining_genes, next_gene);','child.chromosome.push_back(next_gene); child.chromosome.push_back(last_gene); child.chromosome.pop_back();\n std::erase(remaining_genes, next_gene);'),(CI,'Candidate<T> child{ parent1.chromosome[0] };\n        child.chromosome.reserve(chrom_len);\n\n        std::vector<T> remaining','Candidate<T> child{ parent1.chromosome[0] };\n std::vector<T> remaining')]),
('next-pop','C20','hit',[(AB,'const auto next_indices = nextPopulationImpl(ga, fmat);','const auto next_indices = nextPopulationImpl(ga, fmat); auto sel = detail::select(std::move(parents), next_indices); if (parents.front().is_evaluated) return sel;')]),
('best-iter','C20','hit',[(AB,'parents.reserve(parents.size() + children.size());','auto middle = parents.end(); parents.reserve(parents.size() + children.size()); if (middle == parents.begin()) return parents;')]),
('optimal','C20','hit',[('core/population.cpp','if (!dominated) optimal_indices.push_back(idx);','if (!dominated) { optimal_indices.push_back(idx); for (size_t o : optimal_indices) if (fmat[o] == fmat[idx] && o != idx) optimal_indices.push_back(o); }')]),
('span-temp','C20','hit',[(N3,'const size_t idx = detail::argmin(chebysev_distances.begin(), chebysev_distances.end());','const size_t idx = detail::argmin(chebysev_distances.begin(), chebysev_distances.end()); std::span<const double> w = weightVector(ideal_point_.size(), dim); if (w[0] > 1e9) return;')]),
('elem-temp','C20','hit',[(G,'auto optimal_pop = algorithm_->optimalSolutions(*this, pop);','auto optimal_pop = algorithm_->optimalSolutions(*this, pop); const auto& f = algorithm_->optimalSolutions(*this, pop).front(); if (!f.is_evaluated) return;')]),
('stored-closure','C20','hit',[('algorithm/soga_selection.cpp','temperature_ = std::move(f);','temperature_ = [&](size_t g, size_t m) { return f(g, m); };')]),
('r-cone-index','C20','quiet',[(CT,'nodes_.push_back(left_child);\n                nodes_.push_back(right_child);','const auto add = [this](const Node& child) { nodes_.push_back(child); return nodes_.size() - 1; }; const size_t li = add(left_child); add(right_child);'),(CT,'nodes_[i].left = nodes_.size() - 2;','nodes_[i].left = li;')]),
('r-cone-ref','C20','quiet',[(CT,'nodes_[i].left = nodes_.size() - 2;\n                nodes_[i].right = nodes_.size() - 1;','Node& self = nodes_[i]; self.left = nodes_.size() - 2;\n self.right = nodes_.size() - 1;')]),
('r-edge-ref','C20','quiet',[(CI,'const T& last_gene = child.chromosome.back();\n            T next_gene = remaining_genes.front();','const T& last_gene = child.chromosome.back();\n T next_gene = remaining_genes.front(); const T& again = last_gene; (void)again;')]),
('r-local-pop','C20','quiet',[(G,'updatePopulation(std::move(children));\n        generation_cntr_++;','{ const Candidate<T>& prev = population_.front(); GAPP_ASSERT(prev.is_evaluated); } updatePopulation(std::move(children));\n generation_cntr_++;')]),
('r-extract','C20','quiet',[(G,'fitness_matrix_ = detail::toFitnessMatrix(population_);\n    }','auto& pop = population_; auto fm = detail::toFitnessMatrix(pop); fitness_matrix_ = std::move(fm);\n }')]),
('r-loop','C20','quiet',[(AB,'std::move(children.begin(), children.end(), std::back_inserter(parents));','for (auto& child : children) parents.push_back(std::move(child));')]),
('r-clear','C20','quiet',[(ND,'removed_rows.clear();','removed_rows.clear(); auto& rr = removed_rows; rr.reserve(4);')]),
]
