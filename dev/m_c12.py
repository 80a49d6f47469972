C='stop_condition/composite.hpp'; S='algorithm/single_objective.cpp'; SH='algorithm/single_objective.hpp'; MS='metrics/metric_set.cpp'; AI='algorithm/algorithm_base.impl.hpp'; AD='algorithm/algorithm_base.decl.hpp'; SB='stop_condition/stop_condition_base.cpp'
M=[
('and-init-one','C12','hit',[(C,'left_.initialize(ga);\n            right_.initialize(ga);\n        }\n\n    private:\n        bool stop_condition(const GaInfo& ga) override\n        {\n            // Both of the stop conditions should be evaluated, so avoid','left_.initialize(ga);\n        }\n\n    private:\n        bool stop_condition(const GaInfo& ga) override\n        {\n            // Both of the stop conditions should be evaluated, so avoid')]),
('and-short','C12','hit',[(C,'std::invoke(left_, ga) * std::invoke(right_, ga)','std::invoke(left_, ga) && std::invoke(right_, ga)')]),
('and-or','C12','hit',[(C,'std::invoke(left_, ga) * std::invoke(right_, ga)','std::invoke(left_, ga) | std::invoke(right_, ga)')]),
('or-xor','C12','hit',[(C,'std::invoke(left_, ga) | std::invoke(right_, ga)','std::invoke(left_, ga) != std::invoke(right_, ga)')]),
('or-left-twice','C12','hit',[(C,'std::invoke(left_, ga) | std::invoke(right_, ga)','std::invoke(left_, ga) | std::invoke(left_, ga)')]),
('not-noninit','C12','hit',[(C,'base_.initialize(ga);',';')]),
('not-id','C12','hit',[(C,'return !std::invoke(base_, ga);','return std::invoke(base_, ga);')]),
('not-ctad','C12','hit',[(C,'dtl::NOT<decltype(base)>{','dtl::NOT{')]),
('and-private','C12','hit',[(C,'{}\n\n        void initialize','{}\n\n    private:\n        void initialize')]),
('or-op','C12','hit',[(C,'return dtl::OR{ std::move(lhs), std::move(rhs) };','return dtl::AND{ std::move(lhs), std::move(rhs) };')]),
('so-noinit','C12','hit',[(S,'selection_->initializeImpl(ga);','')]),
('so-noprep','C12','hit',[(SH,'selection_->prepareSelectionsImpl(ga, fmat);','')]),
('so-init-cond','C12','hit',[(S,'selection_->initializeImpl(ga);','if (ga.generation_cntr() > 0) selection_->initializeImpl(ga);')]),
('so-select-other','C12','hit',[(SH,'return selection_->selectImpl(ga, fmat);','size_t s = selection_->selectImpl(ga, fmat); return s ? s - 1 : s;')]),
('ms-first','C12','hit',[(MS,'metric->update(ga);','metric->update(ga); break;')]),
('ms-init-skip','C12','hit',[(MS,'metric->initialize(ga);','if (ga.max_gen() > 1) metric->initialize(ga);')]),
('ms-idx1','C12','hit',[(MS,'for (auto& metric : metrics_)\n        {\n            metric->update(ga);\n        }','for (size_t i = 1; i < metrics_.size(); i++)\n        {\n            metrics_[i]->update(ga);\n        }')]),
('ms-twice','C12','hit',[(MS,'metric->update(ga);','metric->update(ga); metric->update(ga);')]),
('alg-next-twice','C12','hit',[(AI,'const auto next_indices = nextPopulationImpl(ga, fmat);','auto next_indices = nextPopulationImpl(ga, fmat); if (next_indices.empty()) next_indices = nextPopulationImpl(ga, fmat);')]),
('alg-prep-drop','C12','hit',[(AD,'{ prepareSelectionsImpl(ga, fmat); }','{ if (!fmat.empty()) prepareSelectionsImpl(ga, fmat); }')]),
('sc-skip','C12','hit',[(SB,'return stop_condition(ga) || (ga.generation_cntr() + 1 >= ga.max_gen());','return (ga.generation_cntr() + 1 >= ga.max_gen()) || stop_condition(ga);')]),
('r-or-named','C12','quiet',[(C,'return std::invoke(left_, ga) | std::invoke(right_, ga);','const bool l = std::invoke(left_, ga); const bool r = std::invoke(right_, ga); return l || r;')]),
('r-and-named','C12','quiet',[(C,'return std::invoke(left_, ga) * std::invoke(right_, ga);','const bool r = right_(ga); const bool l = left_(ga); if (!l) return false; return r;')]),
('r-ms-index','C12','quiet',[(MS,'for (auto& metric : metrics_)\n        {\n            metric->update(ga);\n        }','for (size_t i = 0; i < metrics_.size(); i++)\n        {\n            metrics_[i]->update(ga);\n        }')]),
('r-ms-iter','C12','quiet',[(MS,'for (auto& metric : metrics_)\n        {\n            metric->update(ga);\n        }','for (auto it = metrics_.begin(); it != metrics_.end(); ++it) { (*it)->update(ga); }')]),
('r-ms-foreach','C12','quiet',[(MS,'for (auto& metric : metrics_)\n        {\n            metric->update(ga);\n        }','std::for_each(metrics_.begin(), metrics_.end(), [&](auto& m) { m->update(ga); });')]),
('r-ms-helper','C12','quiet',[(MS,'metric->update(ga);','metrics::MonitorBase& m = *metric; m.update(ga);')]),
('r-so-local','C12','quiet',[(SH,'return selection_->selectImpl(ga, fmat);','const auto& sel = *selection_; const size_t idx = sel.selectImpl(ga, fmat); return idx;')]),
('r-init-order','C12','quiet',[(C,'left_.initialize(ga);\n            right_.initialize(ga);','right_.initialize(ga);\n            left_.initialize(ga);')]),
('r-not','C12','quiet',[(C,'return !std::invoke(base_, ga);','const bool stop = base_(ga); return stop ? false : true;')]),
]
