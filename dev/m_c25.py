D='metrics/distribution_metrics.cpp'; F='metrics/fitness_metrics.cpp'; MI='metrics/misc_metrics.cpp'; MO='metrics/monitor.hpp'
M=[
('no-clear-hv','C25','hit',[(D,'GAPP_ASSERT(ref_point_.size() == ga.num_objectives());\n\n        data_.clear();','GAPP_ASSERT(ref_point_.size() == ga.num_objectives());')]),
('no-clear-nadir','C25','hit',[(D,'data_.clear();\n        data_.reserve(ga.max_gen(), ga.num_objectives());','data_.reserve(ga.max_gen(), ga.num_objectives());')]),
('no-ideal-clear','C25','hit',[(D,'ideal_points_.clear();','')]),
('ideal-cond','C25','hit',[(D,'ideal_points_.append_row(std::move(ideal_point));','if (worst_point_ != prev_worst_point) ideal_points_.append_row(std::move(ideal_point));')]),
('hv-cond','C25','hit',[(D,'data_.push_back(detail::hypervolume(fitness_matrix, ref_point_));','const double v = detail::hypervolume(fitness_matrix, ref_point_); if (v > 0.0) data_.push_back(v);')]),
('hv-twice','C25','hit',[(D,'data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));','if (data_.empty()) data_.push_back(0.0); data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));')]),
('evals-early','C25','hit',[(MI,'data_.push_back(sum_ - old_sum);','if (sum_ != old_sum) data_.push_back(sum_ - old_sum);')]),
('evals-early-ret','C25','hit',[(MI,'const size_t old_sum','if (ga.num_fitness_evals() == 0) return;\n const size_t old_sum')]),
('mon-noclear','C25','hit',[(MO,'override { data_.clear(); }','override { (void)data_.size(); }')]),
('mon-cond','C25','hit',[('metrics/fitness_metrics.hpp','this->data_.clear();','if (this->data_.size() > 100) this->data_.clear();')]),
('fit-ret','C25','hit',[(F,'data_.append_row(detail::minFitness(fitness_matrix.begin(), fitness_matrix.end()));','if (fitness_matrix.size() > 1) data_.append_row(detail::minFitness(fitness_matrix.begin(), fitness_matrix.end()));')]),
('hv-replace','C25','hit',[(D,'data_.push_back(detail::hypervolume(fitness_matrix, ref_point_));','if (data_.size() == ga.max_gen()) data_.pop_back(); data_.push_back(detail::hypervolume(fitness_matrix, ref_point_));')]),
('sum-noreset','C02','hit',[(MI,'sum_ = 0;','')]),
('r-emplace','C25','quiet',[(D,'data_.push_back(detail::hypervolume(fitness_matrix, ref_point_));','const double v = detail::hypervolume(fitness_matrix, ref_point_); if (v > 0) data_.emplace_back(v); else data_.push_back(v);')]),
('r-assign','C25','quiet',[(D,'ideal_points_.clear();','ideal_points_ = {};')]),
('r-helper','C25','quiet',[(F,'data_.append_row(detail::minFitness(fitness_matrix.begin(), fitness_matrix.end()));','auto& d = data_; d.append_row(detail::minFitness(fitness_matrix.begin(), fitness_matrix.end()));')]),
('r-base-init','C25','quiet',[(MI,'data_.clear();','Monitor::initialize(ga);')]),
('r-append-lambda','C25','quiet',[(MI,'data_.push_back(sum_ - old_sum);','const auto rec = [this](size_t n) { data_.push_back(n); }; rec(sum_ - old_sum);')]),
('r-order','C25','quiet',[(D,'data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));\n        ideal_points_.append_row(std::move(ideal_point));','ideal_points_.append_row(std::move(ideal_point));\n data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));')]),
('r-resize0','C25','quiet',[(MI,'data_.clear();','data_.resize(0);')]),
('r-exch','C25','quiet',[(MI,'data_.clear();','std::vector<size_t>().swap(data_);')]),
('r-erase','C25','quiet',[(MI,'data_.clear();','data_.erase(data_.begin(), data_.end());')]),
]
