RG='utility/rng.hpp'; DI='utility/distribution.hpp'; MP='mutation/permutation.cpp'; EP='encoding/permutation.cpp'; MR='mutation/real.cpp'
M=[
('no-bool-reset','C09','hit',[(RG,'generator->bool_distribution.reset();','')]),
('no-poisson','C09','hit',[(RG,'generator->poisson_distribution.reset();','')]),
('cond-normal','C09','hit',[(RG,'generator->normal_distribution.reset();','if (seed != 0) generator->normal_distribution.reset();')]),
('same-stream','C09','hit',[(RG,'generator->instance = global_generator_.jump();\n                generator->bool','generator->instance = global_generator_;\n generator->bool')]),
('hoisted-jump','C09','hit',[(RG,'for (RegisteredGenerator* generator : tls_generators_->list)\n            {\n                generator->instance = global_generator_.jump();','const Xoroshiro128p first = global_generator_.jump(); for (RegisteredGenerator* generator : tls_generators_->list)\n {\n generator->instance = first;')]),
('no-root-seed','C09','hit',[(RG,'global_generator_.seed(seed);\n            for','for')]),
('late-root-seed','C09','hit',[(RG,'global_generator_.seed(seed);\n            for','if (!tls_generators_->list.empty()) { tls_generators_->list.front()->instance = global_generator_.jump(); } global_generator_.seed(seed);\n for')]),
('no-instance','C09','hit',[(RG,'generator->instance = global_generator_.jump();\n                generator->bool','generator->bool')]),
('break','C09','hit',[(RG,'generator->poisson_distribution.reset();','generator->poisson_distribution.reset(); if (generator == &generator_) break;')]),
('no-register','C09','hit',[(RG,'tls_generators_->list.push_back(this);','if (tls_generators_->list.size() < 64) tls_generators_->list.push_back(this);')]),
('ctor-copy','C09','hit',[(RG,'instance = global_generator_.jump();\n                tls','instance = global_generator_;\n tls')]),
('no-unregister','C09','hit',[(RG,'std::erase(tls_generators_->list, this);','')]),
('not-tls','C09','hit',[(RG,'alignas(128) inline static thread_local RegisteredGenerator generator_;','alignas(128) inline static RegisteredGenerator generator_;')]),
('mt','C09','hit',[(MP,'std::shuffle(chromosome.begin() + first, chromosome.begin() + last, rng::prng);','thread_local std::mt19937 gen{ 42 }; std::shuffle(chromosome.begin() + first, chromosome.begin() + last, gen);'),(MP,'#include "permutation.hpp"','#include "permutation.hpp"\n#include <random>')]),
('rd','C09','hit',[(EP,'std::shuffle(solution.chromosome.begin(), solution.chromosome.end(), rng::prng);','std::random_device rd; std::shuffle(solution.chromosome.begin(), solution.chromosome.end(), rd);'),(EP,'#include "permutation.hpp"','#include "permutation.hpp"\n#include <random>')]),
('copy-engine','C09','hit',[(EP,'std::shuffle(solution.chromosome.begin(), solution.chromosome.end(), rng::prng);','std::shuffle(solution.chromosome.begin(), solution.chromosome.end(), rng::Xoroshiro128p{ rng::prng() });')]),
('bool-reset','C09','hit',[(DI,'constexpr void reset() noexcept { bit_pool_ = 1; }','constexpr void reset() noexcept { bit_pool_ |= 1; }')]),
('bool-reset-empty','C09','hit',[(DI,'constexpr void reset() noexcept { bit_pool_ = 1; }','constexpr void reset() noexcept { }')]),
('seed-time','C09','hit',[(RG,'global_generator_{ GAPP_SEED }','global_generator_{ GAPP_SEED + uint64_t(std::time(nullptr)) }'),(RG,'GAPP_API inline static constinit Xoroshiro128p','GAPP_API inline static Xoroshiro128p'),(RG,'#include <vector>','#include <vector>\n#include <ctime>')]),
('kept-dist','C09','hit',[(RG,'return std_dev * prng.generator_.normal_distribution(rng::prng) + mean;','thread_local std::normal_distribution<double> dist; return std_dev * dist(rng::prng) + mean;')]),
('poisson-static','C09','hit',[(RG,'return prng.generator_.poisson_distribution(rng::prng);','static thread_local std::poisson_distribution<std::uint64_t> d{ mean }; if (d.mean() != mean) d = std::poisson_distribution<std::uint64_t>{ mean }; return d(rng::prng);')]),
('randint-cached','C09','hit',[(RG,'return std::uniform_int_distribution<decltype(+lbound)>{ lbound, ubound }(rng::prng);','thread_local std::uint64_t bits = 0; if (ubound - lbound == 1) { if (!bits) bits = rng::prng(); const bool b = bits & 1; bits >>= 1; return lbound + b; } return std::uniform_int_distribution<decltype(+lbound)>{ lbound, ubound }(rng::prng);')]),
('r-foreach','C09','quiet',[(RG,'for (RegisteredGenerator* generator : tls_generators_->list)\n            {\n                generator->instance = global_generator_.jump();\n                generator->bool_distribution.reset();\n                generator->normal_distribution.reset();\n                generator->poisson_distribution.reset();\n            }','std::for_each(tls_generators_->list.begin(), tls_generators_->list.end(), [](RegisteredGenerator* g) { g->poisson_distribution.reset(); g->normal_distribution.reset(); g->bool_distribution.reset(); g->instance = global_generator_.jump(); });'),(RG,'#include <vector>','#include <vector>\n#include <algorithm>')]),
('r-helper','C09','quiet',[(RG,'generator->instance = global_generator_.jump();\n                generator->bool_distribution.reset();\n                generator->normal_distribution.reset();\n                generator->poisson_distribution.reset();','generator->restart(global_generator_.jump());'),(RG,'~RegisteredGenerator() noexcept','void restart(const Xoroshiro128p& engine) { instance = engine; bool_distribution.reset(); normal_distribution.reset(); poisson_distribution.reset(); }\n ~RegisteredGenerator() noexcept')]),
('r-index','C09','quiet',[(RG,'for (RegisteredGenerator* generator : tls_generators_->list)\n            {','for (size_t i = 0; i < tls_generators_->list.size(); i++)\n { RegisteredGenerator* generator = tls_generators_->list[i];')]),
('r-assign-dist','C09','quiet',[(RG,'generator->normal_distribution.reset();','generator->normal_distribution = std::normal_distribution<double>{};')]),
('r-jump-stmt','C09','quiet',[(RG,'generator->instance = global_generator_.jump();\n                generator->bool','global_generator_.jump(); generator->instance = global_generator_;\n generator->bool')]),
('r-local-dist','C09','quiet',[(RG,'return std::uniform_int_distribution<decltype(+lbound)>{ lbound, ubound }(rng::prng);','std::uniform_int_distribution<decltype(+lbound)> dist{ lbound, ubound }; return dist(rng::prng);')]),
('r-ref','C09','quiet',[(EP,'std::shuffle(solution.chromosome.begin(), solution.chromosome.end(), rng::prng);','const auto& gen = rng::prng; std::shuffle(solution.chromosome.begin(), solution.chromosome.end(), gen);')]),
]
