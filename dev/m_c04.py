R='mutation/real.cpp'; CR='crossover/real.cpp'; I='mutation/integer.cpp'; CI='crossover/integer.cpp'; B='mutation/binary.cpp'; PM='mutation/permutation.cpp'
ER='encoding/real.cpp'; EI='encoding/integer.cpp'; EP='encoding/permutation.cpp'; EB='encoding/binary.cpp'
CL="            chromosome[idx] = std::clamp(chromosome[idx], bounds[idx].lower(), bounds[idx].upper());\n"
GAUSS="chromosome[idx] += rng::randomNormal<GeneType>(0.0, SD);\n\n            /* The value of the mutated gene might be outside of the allowed interval. */\n"+CL
C1="            child1.chromosome[i] = std::clamp(child1.chromosome[i], bounds[i].lower(), bounds[i].upper());\n"
C2=C1.replace('child1','child2')
WR="            child2.chromosome[i] = w2 * (p1.chromosome[i] - p2.chromosome[i]) + p1.chromosome[i];\n"
def clampfn(f): return [(f, 'namespace gapp::mutation::real\n{\n', 'namespace gapp::mutation::real\n{\n    static double clipTo(double v, const Bounds<double>& b) { if (v < b.lower()) return b.lower(); if (b.upper() < v) return b.upper(); return v; }\n')]
M=[
('gauss-no-clamp','C04','hit',[(R,GAUSS,"chromosome[idx] += rng::randomNormal<GeneType>(0.0, SD);\n")]),
('gauss-clamp-first-bounds','C04','hit',[(R,GAUSS,GAUSS.replace('bounds[idx].upper())','bounds[0].upper())'))]),
('gauss-clamp-before','C04','hit',[(R,GAUSS,CL+"            chromosome[idx] += rng::randomNormal<GeneType>(0.0, SD);\n")]),
('gauss-only-upper','C04','hit',[(R,GAUSS,GAUSS.replace('std::clamp(chromosome[idx], bounds[idx].lower(), bounds[idx].upper())','std::min(chromosome[idx], bounds[idx].upper())'))]),
('gauss-clamp-sometimes','C04','hit',[(R,GAUSS,GAUSS.replace(CL,'            if (sigma_ > 1.0) '+CL.strip()+'\n'))]),
('nonuniform-clamp-dropped','C04','hit',[(R,"chromosome[idx] += (bound - chromosome[idx]) * multiplier;","chromosome[idx] += (bound - chromosome[idx]) * multiplier; if (multiplier <= 1.5) continue;")]),
('uniform-span','C04','hit',[(R,"chromosome[idx] = rng::randomReal(bounds[idx].lower(), bounds[idx].upper());","chromosome[idx] = rng::randomReal(bounds[idx].lower(), bounds[idx].upper() - bounds[idx].lower());")]),
('uniform-other-index','C04','hit',[(R,"chromosome[idx] = rng::randomReal(bounds[idx].lower(), bounds[idx].upper());","chromosome[idx] = rng::randomReal(bounds[idx].lower(), bounds[mutated_indices[0]].upper());")]),
('boundary-mirror','C04','hit',[(R,"chromosome[idx] = rng::randomBool() ? bounds[idx].lower() : bounds[idx].upper();","chromosome[idx] = rng::randomBool() ? bounds[idx].lower() : -bounds[idx].lower();")]),
('int-uniform-plus-one','C04','hit',[(I,"GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());","GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper()); if (new_gene == old_gene) new_gene++;")]),
('wright-child2','C04','hit',[(CR,WR+"\n            /* The children's genes might be outside the allowed intervals. */\n"+C1+C2,WR+"\n"+C1)]),
('wright-clamp-child1-twice','C04','hit',[(CR,WR+"\n            /* The children's genes might be outside the allowed intervals. */\n"+C1+C2,WR+"\n"+C1+C1)]),
('flip-decrement','C04','hit',[(B,"chromosome[idx] ^= 1;","chromosome[idx] = 2 - chromosome[idx];")]),
('flip-not','C04','hit',[(B,"chromosome[idx] ^= 1;","chromosome[idx] = ~chromosome[idx];")]),
('iota-one','C04','hit',[(EP,"GeneType{ 0 }","GeneType{ 1 }")]),
('gen-real-skip-first','C04','hit',[(ER,"for (size_t i = 0;","for (size_t i = 1;")]),
('gen-real-wrong-idx','C04','hit',[(ER,"gene_bounds()[i].upper()","gene_bounds()[0].upper()")]),
('gen-int-plus1','C04','hit',[(EI,"gene_bounds()[idx].upper())","gene_bounds()[idx].upper() + 1)")]),
('gen-bin-two','C04','hit',[(EB,"rng::randomBool)","[] { return GeneType(rng::randomInt(0, 2)); })")]),
# quiet
('q-minmax','C04','quiet',[(R,GAUSS,GAUSS.replace('std::clamp(chromosome[idx], bounds[idx].lower(), bounds[idx].upper())','std::max(bounds[idx].lower(), std::min(chromosome[idx], bounds[idx].upper()))'))]),
('q-ifs','C04','quiet',[(R,GAUSS,GAUSS.replace(CL,'            if (chromosome[idx] < bounds[idx].lower()) chromosome[idx] = bounds[idx].lower();\n            if (chromosome[idx] > bounds[idx].upper()) chromosome[idx] = bounds[idx].upper();\n'))]),
('q-ifelse','C04','quiet',[(R,GAUSS,GAUSS.replace(CL,'            if (chromosome[idx] < bounds[idx].lower()) chromosome[idx] = bounds[idx].lower();\n            else if (chromosome[idx] > bounds[idx].upper()) chromosome[idx] = bounds[idx].upper();\n'))]),
('q-local','C04','quiet',[(R,GAUSS,"const GeneType moved = chromosome[idx] + rng::randomNormal<GeneType>(0.0, SD);\n            chromosome[idx] = std::clamp(moved, bounds[idx].lower(), bounds[idx].upper());\n")]),
('q-boundref','C04','quiet',[(R,GAUSS,"const auto& b = bounds[idx]; auto& gene = chromosome[idx];\n            gene += rng::randomNormal<GeneType>(0.0, SD);\n            gene = std::clamp(gene, b.lower(), b.upper());\n")]),
('q-helper','C04','quiet',clampfn(R)+[(R,GAUSS,"chromosome[idx] = clipTo(chromosome[idx] + rng::randomNormal<GeneType>(0.0, SD), bounds[idx]);\n")]),
('q-helper-ref','C04','quiet',[(R, 'namespace gapp::mutation::real\n{\n', 'namespace gapp::mutation::real\n{\n    static void clipGene(double& v, const Bounds<double>& b) { v = std::clamp(v, b.lower(), b.upper()); }\n'),(R,GAUSS,"chromosome[idx] += rng::randomNormal<GeneType>(0.0, SD);\n            clipGene(chromosome[idx], bounds[idx]);\n")]),
('q-helper-chrom','C04','quiet',[(R, 'namespace gapp::mutation::real\n{\n', 'namespace gapp::mutation::real\n{\n    static void clipAll(Chromosome<double>& c, const BoundsVector<double>& b) { for (size_t i = 0; i < c.size(); i++) c[i] = std::clamp(c[i], b[i].lower(), b[i].upper()); }\n'),(R,GAUSS+"        }\n","chromosome[idx] += rng::randomNormal<GeneType>(0.0, SD);\n        }\n        clipAll(chromosome, bounds);\n")]),
('q-second-loop','C04','quiet',[(R,GAUSS+"        }\n","chromosome[idx] += rng::randomNormal<GeneType>(0.0, SD);\n        }\n        for (const auto& idx : mutated_indices) chromosome[idx] = std::clamp(chromosome[idx], bounds[idx].lower(), bounds[idx].upper());\n")]),
('q-index-loop','C04','quiet',[(R,"for (const auto& idx : mutated_indices)\n        {\n            const GeneType SD","for (size_t k = 0; k < mutated_indices.size(); k++)\n        {\n            const size_t idx = mutated_indices[k];\n            const GeneType SD")]),
('q-bernoulli','C04','quiet',[(R,"for (const auto& idx : mutated_indices)\n        {\n            const GeneType SD","for (size_t idx = 0; idx < chromosome.size(); idx++)\n        {\n            if (rng::randomReal() >= mutation_rate()) continue;\n            const GeneType SD")]),
('q-wright-order','C04','quiet',[(CR,WR+"\n            /* The children's genes might be outside the allowed intervals. */\n"+C1+C2,C1+WR+C2)]),
('q-wright-lambda','C04','quiet',[(CR,WR+"\n            /* The children's genes might be outside the allowed intervals. */\n"+C1+C2,WR+"            const auto clip = [&](GeneType& g) { g = std::clamp(g, bounds[i].lower(), bounds[i].upper()); };\n            clip(child1.chromosome[i]);\n            clip(child2.chromosome[i]);\n")]),
('q-flip-1-minus','C04','quiet',[(B,"chromosome[idx] ^= 1;","chromosome[idx] = 1 - chromosome[idx];")]),
('q-flip-not','C04','quiet',[(B,"chromosome[idx] ^= 1;","chromosome[idx] = !chromosome[idx];")]),
('q-flip-eq','C04','quiet',[(B,"chromosome[idx] ^= 1;","chromosome[idx] = (chromosome[idx] == 0) ? 1 : 0;")]),
('q-gen-perm-loop','C04','quiet',[(EP,"std::iota(solution.chromosome.begin(), solution.chromosome.end(), GeneType{ 0 });","for (size_t i = 0; i < chrom_len(); i++) solution.chromosome[i] = i;")]),
('q-gen-bin-loop','C04','quiet',[(EB,"std::generate(solution.chromosome.begin(), solution.chromosome.end(), rng::randomBool);","for (auto& gene : solution.chromosome) gene = rng::randomBool();")]),
('q-gen-bin-int','C04','quiet',[(EB,"rng::randomBool)","[] { return GeneType(rng::randomInt(0, 1)); })")]),
('q-gen-real-transform','C04','quiet',[(ER,"for (size_t i = 0; i < solution.chromosome.size(); i++)\n        {\n            solution.chromosome[i] = rng::randomReal(gene_bounds()[i].lower(), gene_bounds()[i].upper());\n        }","std::transform(gene_bounds().begin(), gene_bounds().end(), solution.chromosome.begin(), [](const auto& b) { return rng::randomReal(b.lower(), b.upper()); });"),(ER,'#include "','#include <algorithm>\n#include "')]),
('q-int-dowhile','C04','quiet',[(I,"GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());\n            while (new_gene == old_gene)\n            {\n                new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());\n            }","GeneType new_gene;\n            do { new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper()); } while (new_gene == old_gene);")]),
]
