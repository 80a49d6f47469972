// A parallel loop that is left by an exception must have waited for the iterations running on other threads.
#include <gapp.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <stdexcept>
#include <thread>
using namespace gapp;
static std::atomic<int> started{ 0 }, finished{ 0 };
int main()
{
    execution_threads(4);
    const auto caller = std::this_thread::get_id();
    try
    {
        detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(4_sz), [&](size_t)
        {
            if (std::this_thread::get_id() != caller) { started++; std::this_thread::sleep_for(std::chrono::milliseconds(300)); finished++; }
            else { while (started < 3) std::this_thread::yield(); throw std::runtime_error("iteration failed"); }
        });
    }
    catch (const std::runtime_error&) {}
    int s = started, d = finished;
    std::printf("loop left: %d iterations started on other threads, %d finished\n", s, d);
    bool early = d < s;
    std::this_thread::sleep_for(std::chrono::milliseconds(600));
    std::_Exit(early);
}
