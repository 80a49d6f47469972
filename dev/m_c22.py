GB='core/ga_base.impl.hpp'
M=[
('count','C22','hit',[(GB,'GAPP_ASSERT(fitnessMatrixIsSynced()); fitness_cache_.insert','GAPP_ASSERT(fitnessMatrixIsSynced() && ++num_fitness_evals_); num_fitness_evals_--; fitness_cache_.insert')]),
('reset-in-assert','C22','hit',[(GB,'GAPP_ASSERT(selected_idx','GAPP_ASSERT(selected_idx')] if 0 else [('algorithm/algorithm_base.impl.hpp','GAPP_ASSERT(ga.population_size() == parents.size());','GAPP_ASSERT(parents.emplace_back().chromosome.empty()); parents.pop_back();')]),
('rng','C22','hit',[('mutation/real.cpp','GAPP_ASSERT(ga.gene_bounds().size() == chromosome.size(), "Mismatching bounds and chromosome lengths.");','GAPP_ASSERT(ga.gene_bounds().size() == chromosome.size() || rng::randomBool(), "Mismatching bounds and chromosome lengths.");')]),
('eval','C22','hit',[(GB,'GAPP_ASSERT(hasValidFitness(sol));','GAPP_ASSERT(hasValidFitness(sol) && (fitness_function_->is_dynamic() || (*fitness_function_)(sol.chromosome) == sol.fitness));')]),
('sort','C22','hit',[('algorithm/nd_sort.cpp','GAPP_ASSERT(std::ranges::is_sorted(elements_, std::less{}, &FrontElement::rank));\n\n        std::vector<ParetoFrontsRange> fronts;','GAPP_ASSERT((std::ranges::sort(elements_, std::less{}, &FrontElement::rank), true));\n\n        std::vector<ParetoFrontsRange> fronts;')]),
('helper-mutable','C22','hit',[(GB,'GAPP_ASSERT(hasValidChromosome(sol), "Invalid chromosome returned by the repair function.");','auto check = [&] { sol.is_evaluated = sol.is_evaluated && hasValidChromosome(sol); return hasValidChromosome(sol); }; GAPP_ASSERT(check(), "Invalid chromosome returned by the repair function.");')]),
('q-local','C22','quiet',[('mutation/real.cpp','GAPP_ASSERT(ga.gene_bounds().size() == chromosome.size(), "Mismatching bounds and chromosome lengths.");','GAPP_ASSERT([&] { size_t n = 0; for (double g : chromosome) { n += (g == g); } return n == ga.gene_bounds().size(); }(), "Mismatching bounds and chromosome lengths.");')]),
('q-helper','C22','quiet',[('mutation/real.cpp','''namespace gapp::mutation::real
{''','''namespace gapp::mutation::real
{
    static bool matches(const std::vector<double>& c, size_t n) { std::vector<double> copy; copy.reserve(n); for (double g : c) copy.push_back(g); return copy.size() == n; }
'''),('mutation/real.cpp','GAPP_ASSERT(ga.gene_bounds().size() == chromosome.size(), "Mismatching bounds and chromosome lengths.");','GAPP_ASSERT(matches(chromosome, ga.gene_bounds().size()));')]),
]
