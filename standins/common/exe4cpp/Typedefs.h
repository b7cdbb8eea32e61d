// Stand-in for the exe4cpp library (not installed here).
#ifndef STANDIN_EXE4CPP_TYPEDEFS_H
#define STANDIN_EXE4CPP_TYPEDEFS_H

#include <chrono>
#include <functional>

namespace exe4cpp
{

using action_t = std::function<void()>;
using duration_t = std::chrono::steady_clock::duration;
using steady_time_t = std::chrono::steady_clock::time_point;

} // namespace exe4cpp

#endif
