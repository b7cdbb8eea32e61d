#ifndef STANDIN_EXE4CPP_MOCKEXECUTOR_H
#define STANDIN_EXE4CPP_MOCKEXECUTOR_H

#include <algorithm>
#include <deque>
#include <vector>
#include "exe4cpp/IExecutor.h"

namespace exe4cpp
{

class MockExecutor final : public IExecutor
{
    struct Entry final : public ITimer
    {
        MockExecutor* owner;
        steady_time_t at;
        action_t action;
        void cancel() override { owner->cancel(this); }
        steady_time_t expires_at() override { return at; }
    };

public:
    Timer start(const duration_t& duration, const action_t& action) override { return start(m_now + duration, action); }
    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto e = std::make_shared<Entry>();
        e->owner = this;
        e->at = expiration;
        e->action = action;
        m_timers.push_back(e);
        return Timer{e};
    }
    void post(const action_t& action) override { m_posted.push_back(action); }
    steady_time_t get_time() override { return m_now; }

    bool run_one()
    {
        if(m_posted.empty()) check_timers();
        if(m_posted.empty()) return false;
        auto action = std::move(m_posted.front());
        m_posted.pop_front();
        action();
        return true;
    }
    size_t run_many(size_t max = 10000)
    {
        size_t n = 0;
        while(n < max && run_one()) ++n;
        return n;
    }
    size_t num_pending() const { return m_posted.size(); }
    size_t num_timer_active() const { return m_timers.size(); }
    size_t num_active() const { return m_posted.size(); }
    size_t num_active_timers() const { return m_timers.size(); }
    size_t num_pending_timers() const { return m_timers.size(); }
    void add_time(const duration_t& d) { m_now += d; }
    size_t advance_time(const duration_t& d)
    {
        add_time(d);
        return check_timers();
    }
    bool advance_to_next_timer()
    {
        auto it = next();
        if(it == m_timers.end()) return false;
        if((*it)->at > m_now) m_now = (*it)->at;
        return check_timers() > 0;
    }

private:
    std::vector<std::shared_ptr<Entry>>::iterator next()
    {
        return std::min_element(m_timers.begin(), m_timers.end(),
                                [](const auto& a, const auto& b) { return a->at < b->at; });
    }
    size_t check_timers()
    {
        size_t n = 0;
        for(;;)
        {
            auto it = next();
            if(it == m_timers.end() || (*it)->at > m_now) return n;
            m_posted.push_back((*it)->action);
            m_timers.erase(it);
            ++n;
        }
    }
    void cancel(Entry* e)
    {
        auto it = std::find_if(m_timers.begin(), m_timers.end(), [&](const auto& t) { return t.get() == e; });
        if(it != m_timers.end()) m_timers.erase(it);
    }

    steady_time_t m_now{};
    std::deque<action_t> m_posted;
    std::vector<std::shared_ptr<Entry>> m_timers;
};

} // namespace exe4cpp

#endif
