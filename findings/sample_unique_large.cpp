// sampling without replacement from a large range returned the same number twice
#include "gapp.hpp"
#include <algorithm>
#include <cstdio>
int main()
{
    auto v = gapp::rng::sampleUnique<size_t>(0, 70000, 60000);
    std::sort(v.begin(), v.end());
    const auto twice = v.end() - std::unique(v.begin(), v.end());
    std::printf("%td numbers occur more than once\n", twice);
    return twice != 0;
}
