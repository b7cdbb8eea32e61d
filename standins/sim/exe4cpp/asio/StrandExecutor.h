// Stand-in for exe4cpp's strand executor over the simulated world.
#ifndef SIM_STRANDEXECUTOR_H
#define SIM_STRANDEXECUTOR_H

#include "asio.hpp"
#include "exe4cpp/IExecutor.h"

namespace exe4cpp
{

class AsioTimer final : public ITimer
{
public:
    explicit AsioTimer(asio::io_service& io) : impl{io} {}
    void cancel() override { asio::error_code ec; impl.cancel(ec); }
    steady_time_t expires_at() override { return impl.expires_at(); }
    asio::steady_timer impl;
};

class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor>
{
public:
    explicit StrandExecutor(std::shared_ptr<asio::io_service> io) : m_io{std::move(io)}, m_strand{*m_io} { SIM_GUARD; ++sim::world().live_executors; }
    ~StrandExecutor() { SIM_GUARD; --sim::world().live_executors; }
    static std::shared_ptr<StrandExecutor> create(std::shared_ptr<asio::io_service> io) { return std::make_shared<StrandExecutor>(std::move(io)); }
    Timer start(const duration_t& duration, const action_t& action) override { return start(get_time() + duration, action); }
    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        SIM_GUARD;
        auto timer = std::make_shared<AsioTimer>(*m_io);
        timer->impl.expires_at(expiration);
        timer->impl.async_wait(m_strand.wrap([timer, action, self = shared_from_this()](const asio::error_code& ec) {
            if(!ec) action();
        }));
        return Timer{timer};
    }
    void post(const action_t& action) override
    {
        SIM_GUARD;
        m_strand.post([action, self = shared_from_this()]() { action(); });
#ifdef SIM_THREADS
        sim_notify();
#endif
    }
    steady_time_t get_time() override { return sim::world().now; }
    template <class H> auto wrap(H&& handler) { return m_strand.wrap(std::forward<H>(handler)); }
    std::shared_ptr<asio::io_service> get_context() { return m_io; }
    std::shared_ptr<StrandExecutor> fork() { return create(m_io); }

private:
    std::shared_ptr<asio::io_service> m_io;
    asio::io_service::strand m_strand;
};

} // namespace exe4cpp

#endif
