#ifndef STANDIN_EXE4CPP_TIMER_H
#define STANDIN_EXE4CPP_TIMER_H

#include <memory>
#include "exe4cpp/Typedefs.h"

namespace exe4cpp
{

class ITimer
{
public:
    virtual ~ITimer() = default;
    virtual void cancel() = 0;
    virtual steady_time_t expires_at() = 0;
};

class Timer
{
public:
    Timer() = default;
    explicit Timer(const std::shared_ptr<ITimer>& timer) : m_timer{timer} {}
    Timer(std::nullptr_t) {}

    bool is_active() const { return static_cast<bool>(m_timer); }
    operator bool() const { return is_active(); }
    bool cancel()
    {
        if(m_timer)
        {
            m_timer->cancel();
            m_timer.reset();
            return true;
        }
        return false;
    }
    steady_time_t expires_at() const { return m_timer ? m_timer->expires_at() : steady_time_t::max(); }

private:
    std::shared_ptr<ITimer> m_timer;
};

} // namespace exe4cpp

#endif
