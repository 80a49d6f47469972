X='crossover/crossover_base.impl.hpp'; MU='mutation/mutation_base.impl.hpp'; G='core/ga_base.impl.hpp'
M=[
('x-no-reset','C01','hit',[(X,'child1.is_evaluated = false;','')]),
('x-no-reset2','C01','hit',[(X,'child2.is_evaluated = false;','')]),
('x-wrong-parent','C01','hit',[(X,'child1.fitness = parent2.fitness;','child1.fitness = parent1.fitness;')]),
('x-cmp-fitness','C01','hit',[(X,'if (child1 == parent1)','if (child1.fitness == parent1.fitness)')]),
('x-cmp-other','C01','hit',[(X,'if (child2 == parent1)','if (child1 == parent1)')]),
('x-no-fit-copy','C01','hit',[(X,'child2.fitness = parent2.fitness;','')]),
('m-save-late','C01','hit',[(MU,'old_candidate = candidate; mutate(ga, candidate, candidate.chromosome);','mutate(ga, candidate, candidate.chromosome); old_candidate = candidate;')]),
('m-no-mark','C01','hit',[(MU,'candidate.is_evaluated = (candidate == old_candidate);','')]),
('m-cmp-fit','C01','hit',[(MU,'(candidate == old_candidate)','(candidate.fitness == old_candidate.fitness)')]),
('m-inv','C01','hit',[(MU,'if (!candidate.is_evaluated)','if (candidate.is_evaluated)')]),
('e-mark-nofit','C01','hit',[(G,'sol.fitness = *fitness;','')]),

('e-wrong-chrom','C01','hit',[(G,'fitness_cache_.get(sol)','fitness_cache_.get(population_[0])')]),
('eq-size','C01','hit',[('core/candidate.hpp','return lhs.chromosome == rhs.chromosome;','return lhs.chromosome.size() == rhs.chromosome.size();')]),
# refactorings
('r-helper','C01','quiet',[(X,'''        if (child1 == parent1)
        {
            child1.fitness = parent1.fitness;
            child1.is_evaluated = parent1.is_evaluated;
        }
        else if (child1 == parent2)
        {
            child1.fitness = parent2.fitness;
            child1.is_evaluated = parent2.is_evaluated;
        }
''','''        const auto inherit = [](auto& child, const auto& parent) { if (!(child == parent)) return false; child.fitness = parent.fitness; child.is_evaluated = parent.is_evaluated; return true; };
        inherit(child1, parent1) || inherit(child1, parent2);
''')]),
('r-loop','C01','quiet',[(X,'''        if (child1 == parent1)
        {
            child1.fitness = parent1.fitness;
            child1.is_evaluated = parent1.is_evaluated;
        }
        else if (child1 == parent2)
        {
            child1.fitness = parent2.fitness;
            child1.is_evaluated = parent2.is_evaluated;
        }
''','''        for (const Candidate<T>* p : { &parent1, &parent2 }) { if (child1 == *p) { child1.fitness = p->fitness; child1.is_evaluated = true; break; } }
''')]),
('r-mut','C01','quiet',[(MU,'if (!candidate.is_evaluated)','const bool was_ev = candidate.is_evaluated; if (!was_ev)')]),
('r-mut2','C01','quiet',[(MU,'''            thread_local Candidate<T> old_candidate; old_candidate = candidate;
            mutate(ga, candidate, candidate.chromosome);
            candidate.is_evaluated = (candidate == old_candidate);''','''            const Chromosome<T> before = candidate.chromosome;
            mutate(ga, candidate, candidate.chromosome);
            if (candidate.chromosome != before) candidate.is_evaluated = false;''')]),
('r-eval','C01','quiet',[(G,'''            const FitnessVector* fitness = fitness_cache_.get(sol);
            if (fitness)
            {
                sol.fitness = *fitness;
                sol.is_evaluated = true;
                return;
            }''','''            if (const auto* hit = fitness_cache_.get(sol); hit != nullptr) { sol.is_evaluated = true; sol.fitness = *hit; return; }''')]),
('r-eval2','C01','quiet',[(G,'''        sol.fitness = (*fitness_function_)(sol.chromosome);
        sol.is_evaluated = true;
''','''        FitnessVector fv = std::invoke(*fitness_function_, sol.chromosome);
        sol.fitness = std::move(fv); sol.is_evaluated = true;
''')]),
]
