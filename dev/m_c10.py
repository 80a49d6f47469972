N='algorithm/nsga2.cpp'; N3='algorithm/nsga3.cpp'; S='algorithm/soga_selection.cpp'; RP='algorithm/soga_replacement.cpp'; PO='core/population.cpp'; ND='algorithm/nd_sort.cpp'; GA='core/ga_base.impl.hpp'; A='utility/algorithm.hpp'
FV="return fvec[lhs.idx] < fvec[rhs.idx]; // ascending"
DI="return dists_[lhs.idx] > dists_[rhs.idx]; // descending"
LX="if (lhs[i] != rhs[i]) return lhs[i] > rhs[i];"
M=[
('asc-le','C10','hit',[(N,FV,"return fvec[lhs.idx] <= fvec[rhs.idx];")]),
('desc-ge','C10','hit',[(N,DI,"return dists_[lhs.idx] >= dists_[rhs.idx];")]),
('or-mixed','C10','hit',[(N,DI,"return lhs.rank < rhs.rank || dists_[lhs.idx] > dists_[rhs.idx];")]),
('not-less','C10','hit',[(N,FV,"return !(fvec[lhs.idx] < fvec[rhs.idx]);")]),
('tolerance','C10','hit',[(N,FV,"return math::floatIsLess(fvec[lhs.idx], fvec[rhs.idx]);"),(N,'#include "nsga2.hpp"','#include "nsga2.hpp"\n#include "../utility/math.hpp"')]),
('bare-tolerance','C10','hit',[(N,DI,"return dists_[lhs.idx] - dists_[rhs.idx] > 1E-9;")]),
('tourn-le','C10','hit',[(S,"return fmat[lhs][0] < fmat[rhs][0];","return fmat[lhs][0] <= fmat[rhs][0];")]),
('lex-true','C10','hit',[(PO,LX+"\n            }\n            return false;",LX+"\n            }\n            return true;")]),
('lex-any','C10','hit',[(ND,LX,"if (lhs[i] > rhs[i]) return true;")]),
('lex-tol','C10','hit',[(ND,LX,"if (!math::floatIsEqual(lhs[i], rhs[i])) return lhs[i] > rhs[i];")]),
('chrom-noteq','C10','hit',[(GA,"return lhs.chromosome < rhs.chromosome;","return !(rhs.chromosome < lhs.chromosome) && lhs.fitness <= rhs.fitness;")]),
('ref-le','C10','hit',[(N3,"return niche_counts_[lhs] < niche_counts_[rhs];","return niche_counts_[lhs] <= niche_counts_[rhs];")]),
('and-mixed','C10','hit',[(N3,"return niche_counts_[lhs] < niche_counts_[rhs];","return niche_counts_[lhs] < niche_counts_[rhs] || (niche_counts_[lhs] == niche_counts_[rhs] && lhs <= rhs);")]),
('unique-tol','C10','hit',[(GA,"return lhs.chromosome == rhs.chromosome;","return math::floatVecIsEqual<double>(lhs.fitness, rhs.fitness);")]),
('q-swapped','C10','quiet',[(N,FV,"return fvec[rhs.idx] > fvec[lhs.idx];")]),
('q-notge','C10','quiet',[(N,FV,"return !(fvec[lhs.idx] >= fvec[rhs.idx]);")]),
('q-lex','C10','quiet',[(N,DI,"if (lhs.rank != rhs.rank) return lhs.rank < rhs.rank;\n            return dists_[lhs.idx] > dists_[rhs.idx];")]),
('q-tie','C10','quiet',[(N,DI,"return std::tie(lhs.rank, dists_[rhs.idx]) < std::tie(rhs.rank, dists_[lhs.idx]);"),(N,'#include "nsga2.hpp"','#include "nsga2.hpp"\n#include <tuple>')]),
('q-tern','C10','quiet',[(N,DI,"return lhs.rank == rhs.rank ? dists_[lhs.idx] > dists_[rhs.idx] : lhs.rank < rhs.rank;")]),
('q-locals','C10','quiet',[(N,FV,"const double a = fvec[lhs.idx], b = fvec[rhs.idx];\n                    if (a < b) return true;\n                    return false;")]),
('q-helper','C10','quiet',[(S,"return fmat[lhs][0] < fmat[rhs][0];","return firstLess(fmat, lhs, rhs);"),(S,"namespace gapp::selection\n{","namespace gapp::selection\n{\n    static bool firstLess(const FitnessMatrix& m, size_t a, size_t b) { return m[a][0] < m[b][0]; }\n")]),
('q-index','C10','quiet',[(N3,"return niche_counts_[lhs] < niche_counts_[rhs];","return niche_counts_[lhs] < niche_counts_[rhs] || (niche_counts_[lhs] == niche_counts_[rhs] && lhs < rhs);")]),
('q-stdlex','C10','quiet',[(PO,"            for (size_t i = 0; i < lhs.size(); i++)\n            {\n                "+LX+"\n            }\n            return false;","            return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());")]),
('q-diff0','C10','quiet',[(N,FV,"return fvec[lhs.idx] - fvec[rhs.idx] < 0.0;")]),
('q-whileloop','C10','quiet',[(ND,"            for (size_t i = 0; i < lhs.size(); i++)\n            {\n                "+LX+" // descending\n            }\n            return false;","            size_t i = 0;\n            while (i < lhs.size() && lhs[i] == rhs[i]) ++i;\n            return i < lhs.size() && lhs[i] > rhs[i];")]),
]
