// flags: -fsanitize=address   Building a cone tree over exponentially spaced points (one point is split off at a time) must not use freed memory.
#include "utility/cone_tree.hpp"
#include "utility/cone_tree.cpp"
#include "utility/math.cpp"
#include <cstdio>
#include <vector>
#include <cmath>
int main()
{
    std::vector<gapp::detail::ConeTree::Point> points;
    for (int i = 0; i < 400; i++) points.push_back({ std::pow(1.5, i), 1.0 });
    gapp::detail::ConeTree tree{ points };
    std::vector<double> q{ 1.0, 0.0 };
    gapp::detail::ConeTree::Point query{ 1.0, 0.0 };
    auto best = tree.findBestMatch(query);
    std::printf("best match: %g (expected %g)\n", best.prod, std::pow(1.5, 399));
    return best.prod == std::pow(1.5, 399) ? 0 : 1;
}
