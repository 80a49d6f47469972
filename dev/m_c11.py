G='core/ga_base.impl.hpp'
M=[
('cb-before-metrics','C11','hit',[(G,'metrics_.update(*this);\n        if (on_generation_end_) on_generation_end_(*this);\n    }\n','if (on_generation_end_) on_generation_end_(*this);\n metrics_.update(*this); }\n')]),
('no-cb-init','C11','hit',[(G,'if (on_generation_end_) on_generation_end_(*this);','')]),
('no-metric-init','C11','hit',[(G,'metrics_.update(*this);','')]),
('gen-not-reset','C11','hit',[(G,'generation_cntr_ = 0;','')]),
('gen-start-1','C11','hit',[(G,'generation_cntr_ = 0;','generation_cntr_ = 1;')]),
('double-inc','C11','hit',[(G,'generation_cntr_++;','generation_cntr_ += 2;')]),
('dowhile','C11','hit',[(G,'while (!stopCondition()) { advance(); }','do { advance(); } while (!stopCondition());')]),
('wfor','C11','quiet',[(G,'while (!stopCondition()) { advance(); }','for (bool stop = stopCondition(); !stop; stop = stopCondition()) advance();')]),
('wtrue','C11','quiet',[(G,'while (!stopCondition()) { advance(); }','while (true) { if (stopCondition()) break; advance(); }')]),
('twice','C11','hit',[(G,'while (!stopCondition()) { advance(); }','while (!stopCondition()) { advance(); if (stopCondition()) break; }')]),
('cond-cb','C11','hit',[(G,'generation_cntr_++; ','generation_cntr_++; if (generation_cntr_ == max_gen_) return; ')]),
]
M += [('r-plus','C11','quiet',[(G,'generation_cntr_++;','generation_cntr_ = generation_cntr_ + 1;')]),
('r-plus2','C11','quiet',[(G,'generation_cntr_++;','generation_cntr_ += 1_sz;')]),
('r-plus3','C11','quiet',[(G,'generation_cntr_++;','++generation_cntr_;')])]
