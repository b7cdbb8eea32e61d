#ifndef SIM_THREADPOOL_H
#define SIM_THREADPOOL_H

#include <memory>
#include "asio.hpp"

namespace exe4cpp
{

class ThreadPool final
{
public:
    ThreadPool(const std::shared_ptr<asio::io_service>& io, uint32_t concurrency) : m_io{io}
    {
#ifdef SIM_THREADS
        sim_run_pool(m_io.get(), concurrency);
#else
        (void)concurrency;
#endif
    }
    ~ThreadPool() { shutdown(); }
    void shutdown()
    {
        if(m_done) return;
        m_done = true;
#ifdef SIM_THREADS
        sim_join_pool(m_io.get());
#else
        sim::world().join_pool(asio::error::operation_aborted);
#endif
    }

private:
    std::shared_ptr<asio::io_service> m_io;
    bool m_done = false;
};

} // namespace exe4cpp

#endif
