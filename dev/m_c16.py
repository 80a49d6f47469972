R='mutation/real.cpp'; CR='crossover/real.cpp'; I='mutation/integer.cpp'; CI='crossover/integer.cpp'; B='mutation/binary.cpp'; PM='mutation/permutation.cpp'; CB='crossover/binary.cpp'; CP='crossover/permutation.cpp'; X='crossover/crossover_impl.hpp'
ER='encoding/real.cpp'
FLIP="const auto flipped_indices = rng::sampleUnique(0_sz, chromosome.size(), flip_count);"
SHIFT="const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);"
M=[
('flip-plus1','C16','hit',[(B,FLIP,FLIP.replace('chromosome.size()','chromosome.size() + 1'))]),
('flip-too-many','C16','hit',[(B,FLIP,FLIP.replace('0_sz','1_sz'))]),
('swap3-guard','C16','hit',[(PM,"if (chromosome.size() < 3) return;","if (chromosome.size() < 2) return;")]),
('swap2-guard','C16','hit',[(PM,"if (chromosome.size() < 2) return;","if (chromosome.empty()) return;")]),
('inv-minmax','C16','hit',[(PM,"const size_t max_len = std::max(size_t(range_max_ * chrom_len), min_len);\n            const size_t range_len = rng::randomInt(min_len, max_len);\n\n            const size_t first = rng::randomInt(0_sz, chrom_len - range_len);\n            const size_t last  = first + range_len;\n\n            std::reverse","const size_t max_len = size_t(range_max_ * chrom_len);\n            const size_t range_len = rng::randomInt(min_len, max_len);\n\n            const size_t first = rng::randomInt(0_sz, chrom_len - range_len);\n            const size_t last  = first + range_len;\n\n            std::reverse")]),
('shuffle-first','C16','hit',[(PM,"const size_t first = rng::randomInt(0_sz, chrom_len - range_len);\n            const size_t last  = first + range_len;\n\n            std::shuffle","const size_t first = rng::randomInt(0_sz, chrom_len - min_len);\n            const size_t last  = first + range_len;\n\n            std::shuffle")]),
('shift-idx','C16','hit',[(PM,SHIFT,SHIFT.replace("chrom_len - range_len + 1","chrom_len - range_len + 2"))]),
('shift-whole','C16','hit',[(PM,"std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1)","std::max(size_t(range_max_ * chrom_len), min_len)")]),
('single-le','C16','hit',[(X,"for (size_t i = 0; i < crossover_point; i++)","for (size_t i = 0; i <= crossover_point; i++)")]),
('single-req','C16','hit',[(CB,"const size_t crossover_point = rng::randomInt(0_sz, chrom_len);","const size_t crossover_point = rng::randomInt(0_sz, chrom_len + 1);")]),
('two-noswap','C16','quiet',[(X,"            std::swap(crossover_points.first, crossover_points.second);\n","")]),
('two-noncheck','C16','hit',[(CB,"const size_t crossover_point2 = rng::randomInt(0_sz, chrom_len);","const size_t crossover_point2 = crossover_point1 + rng::randomInt(0_sz, chrom_len);")]),
('npoint-min','C16','hit',[(CB,"std::min(size_t(n_), chrom_len)","size_t(n_)")]),
('npoint-push','C16','hit',[(X,"crossover_points.push_back(chrom_len);","crossover_points.push_back(chrom_len + 1);")]),
('npoint-i0','C16','hit',[(X,"for (size_t i = 1; i < crossover_points.size(); i += 2)","for (size_t i = 1; i <= crossover_points.size(); i += 2)")]),
('order1-first','C16','hit',[(CP,"const size_t length = rng::randomInt(1_sz, chrom_len - 1_sz);","const size_t length = rng::randomInt(2_sz, chrom_len - 1_sz);")]),
('order-sum','C16','quiet',[(CP,"const size_t first = rng::randomInt(0_sz, chrom_len - length);","const size_t first = rng::randomInt(1_sz, chrom_len - length);")]),
('position-len','C16','hit',[(CP,"rng::sampleUnique(0_sz, chrom_len, ns)","rng::sampleUnique(0_sz, chrom_len + 1, ns)")]),
('arith-le','C16','hit',[(CR,"const GeneType alpha = rng::randomReal();\n        for (size_t i = 0; i < chrom_len; i++)","const GeneType alpha = rng::randomReal();\n        for (size_t i = 0; i <= chrom_len; i++)")]),
('blx-swapped','C16','quiet',[(CR,"child2.chromosome[i] = rng::randomReal(range_min - range_ext, range_max + range_ext);","child2.chromosome[i] = rng::randomReal(range_max - range_ext, range_min + range_ext);")]),
('blx-parents','C16','quiet',[(CR,"const auto& [range_min, range_max] = std::minmax(parent1.chromosome[i], parent2.chromosome[i]);\n            GeneType range_ext","const GeneType range_min = parent1.chromosome[i], range_max = parent2.chromosome[i];\n            GeneType range_ext")]),
('gauss-sd-neg','C16','quiet',[(R,"(bounds[idx].upper() - bounds[idx].lower()) / sigma_","(bounds[idx].lower() - bounds[idx].upper()) / sigma_")]),
('int-bounds-swapped','C16','hit',[(I,"GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());","GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper() - 1);")]),
('gen-le','C16','hit',[(ER,"i < solution.chromosome.size()","i <= solution.chromosome.size()")]),
('unif-one-past','C16','hit',[(R,"chromosome[idx] = rng::randomReal(bounds[idx].lower(), bounds[idx].upper());","chromosome[idx] = rng::randomReal(bounds[idx].lower(), bounds[idx + 1].upper());")]),
('order-past','C16','hit',[(CP,"const size_t first = rng::randomInt(0_sz, chrom_len - length);","const size_t first = rng::randomInt(0_sz, chrom_len - 1_sz);")]),
# the next ones are quiet because the order of computed reals is left out
# quiet
('q-single-range','C16','quiet',[(X,"for (size_t i = 0; i < crossover_point; i++)\n        {\n            using std::swap;\n            swap(child1.chromosome[i], child2.chromosome[i]);\n        }","std::swap_ranges(child1.chromosome.begin(), child1.chromosome.begin() + crossover_point, child2.chromosome.begin());")]),
('q-single-while','C16','quiet',[(X,"for (size_t i = 0; i < crossover_point; i++)\n        {\n            using std::swap;\n            swap(child1.chromosome[i], child2.chromosome[i]);\n        }","size_t i = crossover_point;\n        while (i-- > 0) { using std::swap; swap(child1.chromosome[i], child2.chromosome[i]); }")]),
('q-two-minmax','C16','quiet',[(X,"if (crossover_points.first > crossover_points.second)\n        {\n            std::swap(crossover_points.first, crossover_points.second);\n        }","const auto [lo, hi] = std::minmax(crossover_points.first, crossover_points.second);"),(X,"for (size_t i = crossover_points.first; i < crossover_points.second; i++)","for (size_t i = lo; i < hi; i++)")]),
('q-swap3-idx','C16','quiet',[(PM,"const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);","const auto idxs = rng::sampleUnique(size_t(0), chromosome.size(), size_t(3)); const size_t third = idxs[2]; (void) third;")]),
('q-inv-last','C16','quiet',[(PM,"const size_t last  = first + range_len;\n\n            std::reverse(chromosome.begin() + first, chromosome.begin() + last);","std::reverse(chromosome.begin() + first, chromosome.begin() + first + range_len);")]),
('q-inv-helper','C16','quiet',[(PM,"namespace gapp::mutation::perm\n{\n","namespace gapp::mutation::perm\n{\n    static std::pair<size_t, size_t> randomRange(size_t chrom_len, double range_max)\n    {\n        const size_t max_len = std::max(size_t(range_max * chrom_len), 2_sz);\n        const size_t range_len = rng::randomInt(2_sz, max_len);\n        const size_t first = rng::randomInt(0_sz, chrom_len - range_len);\n        return { first, first + range_len };\n    }\n"),(PM,"const size_t min_len = 2;\n            const size_t max_len = std::max(size_t(range_max_ * chrom_len), min_len);\n            const size_t range_len = rng::randomInt(min_len, max_len);\n\n            const size_t first = rng::randomInt(0_sz, chrom_len - range_len);\n            const size_t last  = first + range_len;\n\n            std::reverse","const auto [first, last] = randomRange(chrom_len, range_max_);\n\n            std::reverse")]),
('q-guard-nested','C16','quiet',[(PM,"if (chromosome.size() < 2) return;\n\n        if (rng::randomReal() <= mutation_rate())","if (chromosome.size() >= 2 && rng::randomReal() <= mutation_rate())")]),
('q-flip-bernoulli','C16','quiet',[(B,"const size_t flip_count = rng::randomBinomial(chromosome.size(), mutation_rate());\n        "+FLIP+"\n\n        for (const auto& idx : flipped_indices)\n        {\n            chromosome[idx] ^= 1;\n        }","for (auto& gene : chromosome)\n        {\n            if (rng::randomReal() < mutation_rate()) gene ^= 1;\n        }")]),
('q-npoint-iter','C16','quiet',[(X,"for (size_t i = 1; i < crossover_points.size(); i += 2)","for (size_t i = 1, n = crossover_points.size(); i < n; i += 2)")]),
('q-npoint-loop0','C16','quiet',[(X,"for (size_t i = 1; i < crossover_points.size(); i += 2)\n        {\n            for (size_t j = crossover_points[i - 1]; j < crossover_points[i]; j++)","for (size_t i = 0; i + 1 < crossover_points.size(); i += 2)\n        {\n            for (size_t j = crossover_points[i]; j < crossover_points[i + 1]; j++)")]),
('q-npoint-toggle','C16','quiet',[(X,"for (size_t i = 1; i < crossover_points.size(); i += 2)\n        {\n            for (size_t j = crossover_points[i - 1]; j < crossover_points[i]; j++)\n            {\n                using std::swap;\n                swap(child1.chromosome[j], child2.chromosome[j]);\n            }\n        }","size_t next = 0; bool active = false;\n        for (size_t j = 0; j < chrom_len; j++)\n        {\n            while (next < crossover_points.size() && crossover_points[next] == j) { active = !active; next++; }\n            using std::swap;\n            if (active) swap(child1.chromosome[j], child2.chromosome[j]);\n        }")]),
('q-blx-ifs','C16','quiet',[(CR,"const auto& [range_min, range_max] = std::minmax(parent1.chromosome[i], parent2.chromosome[i]);\n            GeneType range_ext","const GeneType range_min = std::min(parent1.chromosome[i], parent2.chromosome[i]);\n            const GeneType range_max = std::max(parent1.chromosome[i], parent2.chromosome[i]);\n            GeneType range_ext")]),
('q-order-max','C16','quiet',[(CP,"const size_t first = rng::randomInt(0_sz, chrom_len - length);","const size_t max_first = chrom_len - length;\n        const size_t first = rng::randomInt(0_sz, max_first);")]),
('q-shift-ifs','C16','quiet',[(PM,"const auto [first, middle, last] = (dest_first < src_first) ?\n                std::tuple(dest_first, src_first, src_first + range_len) :\n                std::tuple(src_first, src_first + range_len, dest_first + range_len);\n\n            std::rotate(first, middle, last);","if (dest_first < src_first) std::rotate(dest_first, src_first, src_first + range_len);\n            else std::rotate(src_first, src_first + range_len, dest_first + range_len);")]),
]
