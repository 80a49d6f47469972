G='core/ga_base.impl.hpp'; S='utility/scope_exit.hpp'
R='detail::restore_on_exit _{ max_gen_ };'
M=[
('no-guard','C03','hit',[(G,R,'')]),
('guard-late','C03','hit',[(G,R+' fitness_function_ = std::move(fitness_function); max_gen(generations);','fitness_function_ = std::move(fitness_function); max_gen(generations); '+R)]),
('guard-scope','C03','hit',[(G,R,'{ '+R+' }')]),
('manual-noexc','C03','hit',[(G,R,'const size_t old_gen = max_gen();'),(G,'if (!keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);\n\n        return solutions_;','if (!keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);\n max_gen(old_gen); return solutions_;')]),
('dtor-cond','C03','hit',[(S,'constexpr ~restore_on_exit() noexcept { vars_ = std::move(old_values_); }','constexpr ~restore_on_exit() noexcept { if (std::uncaught_exceptions() == 0) vars_ = std::move(old_values_); }'),(S,'#include <tuple>','#include <tuple>\n#include <exception>')]),
('dtor-empty','C03','hit',[(S,'{ vars_ = std::move(old_values_); }','{ }')]),
('popsize','C03','hit',[(G,'num_objectives_ = findNumberOfObjectives();','num_objectives_ = findNumberOfObjectives(); if (initial_population.size() > population_size_) population_size_ = initial_population.size();')]),
('cachegen','C03','hit',[(G,'num_objectives_ = findNumberOfObjectives();','num_objectives_ = findNumberOfObjectives(); if (fitness_function_->is_dynamic()) cached_generations_ = 0;')]),
('keepall','C03','hit',[(G,'fitness_function_ = std::move(fitness_function);','fitness_function_ = std::move(fitness_function); if (generations == 1) keep_all_optimal_sols_ = true;')]),
('stopcond','C03','hit',[(G,'fitness_function_ = std::move(fitness_function);','fitness_function_ = std::move(fitness_function); if (generations == 1) stop_condition_ = std::make_unique<stopping::NoEarlyStop>();')]),
('q-scope','C03','quiet',[(G,R,'const auto old_gen = max_gen_; detail::scope_exit _{ [&] { max_gen_ = old_gen; } };')]),
('q-scope2','C03','quiet',[(G,R,'detail::scope_exit _{ [this, old = max_gen_] { max_gen_ = old; } };')]),
('q-try','C03','quiet',[(G,R,'const auto old_gen = max_gen_;'),(G,'''initializeAlgorithm({ /* no bounds */ }, std::move(initial_population));
        while (!stopCondition())
        {
            advance();
        }
        if (!keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);

        return solutions_;''','''try { initializeAlgorithm({ /* no bounds */ }, std::move(initial_population));
        while (!stopCondition())
        {
            advance();
        }
        if (!keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
        auto res = solutions_; max_gen_ = old_gen;
        return res; } catch (...) { max_gen_ = old_gen; throw; }''')]),
('q-helper','C03','quiet',[(S,'{ vars_ = std::move(old_values_); }','{ restore(); }\n private: constexpr void restore() noexcept { vars_ = std::move(old_values_); }')]),
('q-order','C03','quiet',[(G,R+'\n\n        fitness_function_ = std::move(fitness_function);','fitness_function_ = std::move(fitness_function); '+R)]),
]
