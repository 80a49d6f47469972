R='utility/rng.hpp'; G='core/ga_base.impl.hpp'
M=[
('rint-ub','C04,C16','hit',[(R,'std::uniform_int_distribution<decltype(+lbound)>{ lbound, ubound }','std::uniform_int_distribution<decltype(+lbound)>{ lbound, IntType(ubound + 1) }')]),
('ridx','C16','hit',[(R,'randomInt<detail::size_type<R>>(0, range.size() - 1)','randomInt<detail::size_type<R>>(0, range.size())')]),
('rreal','C04','hit',[(R,'return lbound + (ubound - lbound) * rng::randomReal();','return lbound + (ubound - lbound + 1.0) * rng::randomReal();')]),
('rreal01','C04','hit',[(R,'(std::numeric_limits<RealType>::epsilon() / 2.0)','(std::numeric_limits<RealType>::epsilon() * 2.0)')]),
('relem','C16','hit',[(R,'const auto max_offset = std::distance(first, last) - 1;','const auto max_offset = std::distance(first, last);')]),
('q-relem','C16,C04','quiet',[(R,'const auto max_offset = std::distance(first, last) - 1; const auto offset = rng::randomInt(0_pd, max_offset); return std::next(first, offset);','return first + rng::randomInt(0_pd, std::distance(first, last) - 1);')]),
]
