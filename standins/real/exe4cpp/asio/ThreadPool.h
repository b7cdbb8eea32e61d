#ifndef STANDIN_REAL_THREADPOOL_H
#define STANDIN_REAL_THREADPOOL_H

#include <memory>
#include <thread>
#include <vector>
#include <asio.hpp>

namespace exe4cpp
{

class ThreadPool final
{
public:
    ThreadPool(const std::shared_ptr<asio::io_service>& io, uint32_t concurrency)
        : m_io{io}, m_work{std::make_unique<asio::io_service::work>(*io)}
    {
        if(concurrency == 0) concurrency = 1;
        for(uint32_t i = 0; i < concurrency; ++i) m_threads.emplace_back([this]() { m_io->run(); });
    }
    ~ThreadPool() { shutdown(); }
    void shutdown()
    {
        m_work.reset();
        for(auto& t : m_threads) if(t.joinable()) t.join();
        m_threads.clear();
    }

private:
    std::shared_ptr<asio::io_service> m_io;
    std::unique_ptr<asio::io_service::work> m_work;
    std::vector<std::thread> m_threads;
};

} // namespace exe4cpp

#endif
