// Stand-in for asio over the simulated world of sim.hpp.
#ifndef SIM_ASIO_HPP
#define SIM_ASIO_HPP

#include <arpa/inet.h>
#include <array>
#include <cstring>
#include <string>
#include <type_traits>
#include "sim.hpp"

namespace asio
{

using error_code = std::error_code;
using system_error = std::system_error;

namespace error
{
enum basic_errors
{
    access_denied = EACCES, address_in_use = EADDRINUSE, already_connected = EISCONN, already_started = EALREADY,
    bad_descriptor = EBADF, broken_pipe = EPIPE, connection_aborted = ECONNABORTED, connection_refused = ECONNREFUSED,
    connection_reset = ECONNRESET, fault = EFAULT, host_unreachable = EHOSTUNREACH, in_progress = EINPROGRESS,
    interrupted = EINTR, invalid_argument = EINVAL, message_size = EMSGSIZE, network_down = ENETDOWN,
    network_reset = ENETRESET, network_unreachable = ENETUNREACH, no_descriptors = EMFILE, no_memory = ENOMEM,
    not_connected = ENOTCONN, not_socket = ENOTSOCK, operation_aborted = ECANCELED, operation_not_supported = EOPNOTSUPP,
    shut_down = ESHUTDOWN, timed_out = ETIMEDOUT, try_again = EAGAIN, would_block = EWOULDBLOCK
};
enum misc_errors { already_open = 1, eof, not_found, fd_set_failure };
enum netdb_errors { host_not_found = 1, host_not_found_try_again = 2, no_data = 4, no_recovery = 3 };

struct misc_category_t : std::error_category
{
    const char* name() const noexcept override { return "asio.misc"; }
    std::string message(int v) const override
    {
        switch(v) { case already_open: return "Already open"; case eof: return "End of file"; case not_found: return "Element not found"; default: return "asio.misc error"; }
    }
};
struct netdb_category_t : std::error_category
{
    const char* name() const noexcept override { return "asio.netdb"; }
    std::string message(int) const override { return "Host not found"; }
};
inline const std::error_category& get_misc_category() { static misc_category_t c; return c; }
inline const std::error_category& get_netdb_category() { static netdb_category_t c; return c; }
inline const std::error_category& get_system_category() { return std::system_category(); }
inline std::error_code make_error_code(basic_errors e) { return {static_cast<int>(e), std::system_category()}; }
inline std::error_code make_error_code(misc_errors e) { return {static_cast<int>(e), get_misc_category()}; }
inline std::error_code make_error_code(netdb_errors e) { return {static_cast<int>(e), get_netdb_category()}; }
} // namespace error
} // namespace asio

namespace std
{
template <> struct is_error_code_enum<asio::error::basic_errors> : true_type {};
template <> struct is_error_code_enum<asio::error::misc_errors> : true_type {};
template <> struct is_error_code_enum<asio::error::netdb_errors> : true_type {};
} // namespace std

namespace asio
{

inline error_code sim_ec(error_code ec) { return ec == sim::aborted_ec() ? error_code{error::operation_aborted} : ec; }

// A handler bound to a strand.
template <class H>
struct wrapped_handler
{
    std::shared_ptr<sim::Strand> strand;
    H handler;
    template <class... A> void operator()(A... a) const { queue(a...); }
    template <class... A> void operator()(A... a) { queue(a...); }
    template <class... A> void queue(A... a) const
    {
        SIM_GUARD;
        SIM_RELEASE(strand.get());
        auto h = std::make_shared<H>(handler);
        strand->q.push_back([h, a...]() mutable { (*h)(a...); });
    }
};
template <class T> struct is_wrapped : std::false_type {};
template <class H> struct is_wrapped<wrapped_handler<H>> : std::true_type {};

// Turns any completion handler into a callable that queues it.
template <class H>
auto sim_completion(H&& h)
{
    using D = std::decay_t<H>;
    if constexpr(is_wrapped<D>::value) return D(std::forward<H>(h));
    else return wrapped_handler<D>{sim::world().io_strand, D(std::forward<H>(h))};
}

class io_context
{
public:
    class strand
    {
    public:
        explicit strand(io_context&) { SIM_GUARD; m_s = sim::world().make_strand(); }
        template <class F> void post(F f) { SIM_GUARD; SIM_RELEASE(m_s.get()); auto p = std::make_shared<F>(std::move(f)); m_s->q.push_back([p] { (*p)(); }); }
        template <class F> void dispatch(F f) { if(m_s->running) f(); else post(std::move(f)); }
        template <class H> wrapped_handler<std::decay_t<H>> wrap(H&& h) { return {m_s, std::forward<H>(h)}; }
        bool running_in_this_thread() const { return m_s->running; }
        std::shared_ptr<sim::Strand> sim_strand() const { return m_s; }
    private:
        std::shared_ptr<sim::Strand> m_s;
    };
    class work { public: explicit work(io_context&) {} };

    explicit io_context(int = 0) {}
    io_context(const io_context&) = delete;
    template <class F> void post(F f) { SIM_GUARD; auto s = sim::world().io_strand; SIM_RELEASE(s.get()); auto p = std::make_shared<F>(std::move(f)); s->q.push_back([p] { (*p)(); }); }
    template <class F> void dispatch(F f) { post(std::move(f)); }
    size_t run() { return static_cast<size_t>(sim::world().drain()); }
    size_t poll() { return run(); }
    void stop() {}
    bool stopped() const { return false; }
    void restart() {}
    void reset() {}
    io_context& get_executor() { return *this; }
    io_context& context() { return *this; }
};
using io_service = io_context;
template <class H> auto bind_executor(const io_context::strand& s, H&& h) { return io_context::strand(s).wrap(std::forward<H>(h)); }
struct transfer_all_t {};
inline transfer_all_t transfer_all() { return {}; }
template <class F> void post(io_context& io, F f) { io.post(std::move(f)); }
template <class F> void post(io_context::strand& s, F f) { s.post(std::move(f)); }
template <class F> void dispatch(io_context& io, F f) { io.post(std::move(f)); }

// ---- buffers ----
class mutable_buffer
{
public:
    mutable_buffer() = default;
    mutable_buffer(void* p, size_t n) : m_p{p}, m_n{n} {}
    void* data() const { return m_p; }
    size_t size() const { return m_n; }
    mutable_buffer& operator+=(size_t k) { k = std::min(k, m_n); m_p = static_cast<uint8_t*>(m_p) + k; m_n -= k; return *this; }
private:
    void* m_p = nullptr;
    size_t m_n = 0;
};
class const_buffer
{
public:
    const_buffer() = default;
    const_buffer(const void* p, size_t n) : m_p{p}, m_n{n} {}
    const_buffer(const mutable_buffer& b) : m_p{b.data()}, m_n{b.size()} {}
    const void* data() const { return m_p; }
    size_t size() const { return m_n; }
    const_buffer& operator+=(size_t k) { k = std::min(k, m_n); m_p = static_cast<const uint8_t*>(m_p) + k; m_n -= k; return *this; }
private:
    const void* m_p = nullptr;
    size_t m_n = 0;
};
using mutable_buffers_1 = mutable_buffer;
using const_buffers_1 = const_buffer;
inline mutable_buffer buffer(void* p, size_t n) { return {p, n}; }
inline const_buffer buffer(const void* p, size_t n) { return {p, n}; }
inline mutable_buffer buffer(const mutable_buffer& b) { return b; }
inline const_buffer buffer(const const_buffer& b) { return b; }
template <class T, size_t N> mutable_buffer buffer(std::array<T, N>& a) { return {a.data(), N * sizeof(T)}; }
template <class T, size_t N> mutable_buffer buffer(std::array<T, N>& a, size_t n) { return {a.data(), std::min(n, N * sizeof(T))}; }
template <class T, size_t N> const_buffer buffer(const std::array<T, N>& a) { return {a.data(), N * sizeof(T)}; }
template <class T, size_t N> const_buffer buffer(const std::array<T, N>& a, size_t n) { return {a.data(), std::min(n, N * sizeof(T))}; }
template <class T, size_t N> mutable_buffer buffer(T (&a)[N]) { return {a, N * sizeof(T)}; }
template <class T> mutable_buffer buffer(std::vector<T>& v) { return {v.data(), v.size() * sizeof(T)}; }
template <class T> const_buffer buffer(const std::vector<T>& v) { return {v.data(), v.size() * sizeof(T)}; }
template <class T> mutable_buffer buffer(std::vector<T>& v, size_t n) { return {v.data(), std::min(n, v.size() * sizeof(T))}; }
template <class T> const_buffer buffer(const std::vector<T>& v, size_t n) { return {v.data(), std::min(n, v.size() * sizeof(T))}; }
inline const_buffer buffer(const std::string& s) { return {s.data(), s.size()}; }

// ---- timers ----
template <class Clock = std::chrono::steady_clock>
class basic_waitable_timer
{
public:
    using duration = typename Clock::duration;
    using time_point = typename Clock::time_point;
    explicit basic_waitable_timer(io_context&) : m_at{} {}
    basic_waitable_timer(io_context&, duration d) : m_at{sim::world().now + d} {}
    basic_waitable_timer(io_context&, time_point t) : m_at{t} {}
    ~basic_waitable_timer() { cancel(); }
    basic_waitable_timer(const basic_waitable_timer&) = delete;
    time_point expires_at() const { SIM_READS; return m_at; }
    time_point expiry() const { return expires_at(); }
    size_t expires_at(time_point t) { const size_t n = cancel(); m_at = t; return n; }
    size_t expires_after(duration d) { return expires_at(sim::world().now + d); }
    size_t expires_from_now(duration d) { return expires_after(d); }
    size_t cancel()
    {
        SIM_WRITES;
        SIM_GUARD;
        auto list = std::move(m_waits);
        m_waits.clear();
        size_t n = 0;
        for(auto& w : list) if(auto t = w.lock()) { sim::world().cancel(t, error::operation_aborted); ++n; }
        return n;
    }
    size_t cancel(error_code& ec) { ec = {}; return cancel(); }
    template <class H> void async_wait(H&& h)
    {
        SIM_WRITES;
        SIM_GUARD;
        auto c = sim_completion(std::forward<H>(h));
        auto t = std::make_shared<sim::Timer>();
        t->id = sim::world().next_id++;
        t->at = m_at;
        t->done = [c](error_code ec) { c(ec); };
        SIM_RELEASE(t.get());
        sim::world().timers.push_back(t);
        m_waits.push_back(t);
#ifdef SIM_THREADS
        sim_notify();
#endif
    }

private:
    SIM_TOUCHABLE;
    time_point m_at;
    std::vector<std::weak_ptr<sim::Timer>> m_waits;
};
using steady_timer = basic_waitable_timer<std::chrono::steady_clock>;

namespace ip
{

class address
{
public:
    address() : m_s{"0.0.0.0"} {}
    static address from_string(const std::string& s, error_code& ec)
    {
        address a;
        unsigned char buf[16];
        if(inet_pton(AF_INET, s.c_str(), buf) == 1) { a.m_s = s; ec = {}; }
        else if(inet_pton(AF_INET6, s.c_str(), buf) == 1) { a.m_s = s; a.m_v4 = false; ec = {}; }
        else ec = error::invalid_argument;
        return a;
    }
    static address from_string(const std::string& s)
    {
        error_code ec;
        auto a = from_string(s, ec);
        if(ec) throw system_error(ec, "from_string");
        return a;
    }
    static address any() { return {}; }
    static address loopback() { return from_string("127.0.0.1"); }
    static address broadcast() { return from_string("255.255.255.255"); }
    bool is_v4() const { return m_v4; }
    bool is_v6() const { return !m_v4; }
    const address& to_v4() const { return *this; }
    const address& to_v6() const { return *this; }
    bool is_loopback() const { return m_v4 ? m_s.compare(0, 4, "127.") == 0 : m_s == "::1"; }
    bool is_unspecified() const { return m_s == "0.0.0.0" || m_s == "::"; }
    bool is_multicast() const { unsigned char b[4]; return m_v4 && inet_pton(AF_INET, m_s.c_str(), b) == 1 && (b[0] & 0xF0) == 0xE0; }
    std::string to_string() const { return m_s; }
    std::string to_string(error_code& ec) const { ec = {}; return m_s; }
    bool operator<(const address& o) const { return m_s < o.m_s; }
    bool operator==(const address& o) const { return m_s == o.m_s; }
    bool operator!=(const address& o) const { return m_s != o.m_s; }

private:
    std::string m_s;
    bool m_v4 = true;
};
using address_v4 = address;
inline address make_address_v4(const std::string& s) { return address::from_string(s); }
inline address make_address_v4(const std::string& s, error_code& ec) { return address::from_string(s, ec); }
inline address make_address(const std::string& s) { return address::from_string(s); }
inline address make_address(const std::string& s, error_code& ec) { return address::from_string(s, ec); }

class tcp
{
public:
    static tcp v4() { return tcp{true}; }
    static tcp v6() { return tcp{false}; }
    bool is_v4() const { return m_v4; }
    bool operator==(const tcp& o) const { return m_v4 == o.m_v4; }

    class endpoint
    {
    public:
        endpoint() = default;
        endpoint(const tcp& p, unsigned short port) : m_port{port} { if(!p.is_v4()) m_a = ip::address::from_string("::"); }
        endpoint(const ip::address& a, unsigned short port) : m_a{a}, m_port{port} {}
        ip::address address() const { return m_a; }
        void address(const ip::address& a) { m_a = a; }
        unsigned short port() const { return m_port; }
        void port(unsigned short p) { m_port = p; }
        tcp protocol() const { return m_a.is_v4() ? tcp::v4() : tcp::v6(); }
        bool operator==(const endpoint& o) const { return m_a == o.m_a && m_port == o.m_port; }
        sim::Endpoint to_sim() const { return {m_a.to_string(), m_port, m_a.is_v4()}; }
        static endpoint from_sim(const sim::Endpoint& e) { return {ip::address::from_string(e.host), e.port}; }
    private:
        ip::address m_a;
        unsigned short m_port = 0;
    };

    struct no_delay { explicit no_delay(bool = true) {} };
    bool operator!=(const tcp& o) const { return m_v4 != o.m_v4; }

    class socket
    {
    public:
        enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
        struct reuse_address { explicit reuse_address(bool = true) {} };
        struct keep_alive { explicit keep_alive(bool = true) {} };
        struct linger { linger(bool, int) {} };
        struct send_buffer_size { explicit send_buffer_size(int = 0) {} };
        struct receive_buffer_size { explicit receive_buffer_size(int = 0) {} };
        static constexpr int max_listen_connections = 4096, max_connections = 4096;
        void non_blocking(bool) {}
        void non_blocking(bool, error_code& ec) { ec = {}; }
        size_t available(error_code& ec) const { SIM_READS; SIM_GUARD; ec = {}; return m_s->conn ? m_s->conn->rx.size() : 0; }
        size_t available() const { error_code ec; return available(ec); }
        static constexpr shutdown_type shutdown_both_ = shutdown_both;

        explicit socket(io_context&) { SIM_GUARD; m_s = sim::world().make_socket(); }
        socket(io_context& io, const tcp& p) : socket{io} { error_code ec; open(p, ec); }
        socket(socket&&) = default;
        socket& operator=(socket&&) = default;
        ~socket() { SIM_WRITES; SIM_GUARD; if(m_s) m_s->close(); }

        void open(const tcp& p, error_code& ec)
        {
            SIM_WRITES;
            SIM_GUARD;
            if(m_s->open) { ec = error::already_open; return; }
            if(sim::world().open_fails) { ec = error::no_descriptors; return; }
            m_s->open = true;
            m_s->v4 = p.is_v4();
            m_s->bound = false;
            m_s->local = {};
            ec = {};
        }
        void open(const tcp& p) { error_code ec; open(p, ec); if(ec) throw system_error(ec); }
        void bind(const endpoint& e, error_code& ec)
        {
            SIM_WRITES;
            SIM_GUARD;
            if(!m_s->open) { ec = error::bad_descriptor; return; }
            if(m_s->bound) { ec = error::invalid_argument; return; }
            if(m_s->v4 != e.protocol().is_v4()) { ec = m_s->v4 ? sim::sys_ec(std::errc::address_family_not_supported) : error_code{error::invalid_argument}; return; }
            if(sim::world().bind_fails) { ec = sim::sys_ec(std::errc::address_not_available); return; }
            m_s->bound = true;
            m_s->local = e.to_sim();
            ec = {};
        }
        void bind(const endpoint& e) { error_code ec; bind(e, ec); if(ec) throw system_error(ec); }
        bool is_open() const { SIM_READS; return m_s->open; }
        void close(error_code& ec) { SIM_WRITES; SIM_GUARD; ec = {}; m_s->close(); }
        void close() { SIM_WRITES; SIM_GUARD; m_s->close(); }
        void cancel(error_code& ec)
        {
            SIM_WRITES;
            SIM_GUARD;
            if(!m_s->open) { ec = error::bad_descriptor; return; }
            ec = {};
            m_s->cancel();
        }
        void cancel() { error_code ec; cancel(ec); if(ec) throw system_error(ec); }
        void shutdown(shutdown_type, error_code& ec)
        {
            SIM_WRITES;
            SIM_GUARD;
            if(!m_s->open) { ec = error::bad_descriptor; return; }
            if(!m_s->conn) { ec = error::not_connected; return; }
            ec = {};
            m_s->shutdown_both();
        }
        void shutdown(shutdown_type t) { error_code ec; shutdown(t, ec); if(ec) throw system_error(ec); }
        template <class O> void set_option(const O&) {}
        template <class O> void set_option(const O&, error_code& ec) { ec = {}; }
        endpoint remote_endpoint(error_code& ec) const
        {
            SIM_READS;
            SIM_GUARD;
            if(!m_s->conn) { ec = error::not_connected; return {}; }
            ec = {};
            return endpoint::from_sim(m_s->conn->remote);
        }
        endpoint remote_endpoint() const { error_code ec; auto e = remote_endpoint(ec); if(ec) throw system_error(ec); return e; }
        endpoint local_endpoint(error_code& ec) const { ec = {}; return m_s->local.host.empty() ? endpoint{} : endpoint::from_sim(m_s->local); }
        endpoint local_endpoint() const { error_code ec; return local_endpoint(ec); }

        template <class H> void async_connect(const endpoint& e, H&& h)
        {
            SIM_GUARD;
            auto c = sim_completion(std::forward<H>(h));
            sim_connect(e, [c](error_code ec) { c(ec); });
        }
        void sim_connect(const endpoint& e, std::function<void(error_code)> done)
        {
            SIM_WRITES;
            SIM_GUARD;
            if(!m_s->open)
            {
                error_code ec;
                open(e.protocol(), ec);
                if(ec) { done(ec); return; }
            }
            if(m_s->v4 != e.protocol().is_v4()) { done(sim::sys_ec(std::errc::address_family_not_supported)); return; }
            ++sim::world().connects_started;
            m_s->connecting = std::make_unique<sim::ConnectOp>();
            m_s->connecting->to = e.to_sim();
            m_s->connecting->done = [done](error_code ec) { done(sim_ec(ec)); };
#ifdef SIM_THREADS
            sim_notify();
#endif
        }
        template <class B, class H> void async_read_some(const B& b, H&& h)
        {
            SIM_WRITES;
            SIM_GUARD;
            auto c = sim_completion(std::forward<H>(h));
            mutable_buffer m = b;
            if(!m_s->open) { c(error_code{error::bad_descriptor}, size_t{0}); return; }
            if(!m_s->conn) { c(error_code{error::not_connected}, size_t{0}); return; }
            if(m.size() == 0) { c(error_code{}, size_t{0}); return; }
            // From here on the buffer belongs to the operation: whatever is still in it may be overwritten any time.
            std::memset(m.data(), 0xEE, m.size());
            m_s->reads.push_back({static_cast<uint8_t*>(m.data()), m.size(), [c](error_code ec, size_t n) {
                if(!ec && n == 0) ec = error::eof;
                c(sim_ec(ec), n);
            }});
            m_s->do_reads();
#ifdef SIM_THREADS
            sim_notify();
#endif
        }
        template <class B, class H> void async_receive(const B& b, H&& h) { async_read_some(b, std::forward<H>(h)); }
        template <class B, class H> void async_write_some(const B& b, H&& h)
        {
            SIM_GUARD;
            auto c = sim_completion(std::forward<H>(h));
            sim_write(const_buffer(b), [c](error_code ec, size_t n) { c(ec, n); });
        }
        template <class B, class H> void async_send(const B& b, H&& h) { async_write_some(b, std::forward<H>(h)); }
        void sim_write(const_buffer b, std::function<void(error_code, size_t)> done)
        {
            SIM_WRITES;
            SIM_GUARD;
            if(!m_s->open) { done(error::bad_descriptor, 0); return; }
            if(!m_s->conn) { done(error::not_connected, 0); return; }
            if(m_s->conn->local_shutdown) { done(error::broken_pipe, 0); return; }
            m_s->writes.push_back({static_cast<const uint8_t*>(b.data()), b.size(), [done](error_code ec, size_t n) { done(sim_ec(ec), n); }});
            m_s->do_writes();
#ifdef SIM_THREADS
            sim_notify();
#endif
        }
        std::shared_ptr<sim::Socket> sim_socket() const { return m_s; }
        using executor_type = io_context&;

    private:
        SIM_TOUCHABLE;
        std::shared_ptr<sim::Socket> m_s;
    };

    class acceptor
    {
    public:
        struct reuse_address { explicit reuse_address(bool = true) {} };
        static constexpr int max_listen_connections = 4096, max_connections = 4096;
        void non_blocking(bool) {}
        explicit acceptor(io_context&) { SIM_GUARD; m_a.id = sim::world().next_id++; sim::world().acceptors.push_back(&m_a); }
        acceptor(io_context& io, const endpoint& e, bool = true) : acceptor{io}
        {
            SIM_GUARD;
            struct Undo { sim::Acceptor* a; bool armed = true; ~Undo() { if(armed) forget(a); } } undo{&m_a};
            error_code ec;
            open(e.protocol(), ec);
            bind(e, ec);
            if(!ec) listen(0, ec);
            if(ec) throw system_error(ec, "bind");
            undo.armed = false;
        }
        acceptor(const acceptor&) = delete;
        ~acceptor() { SIM_WRITES; SIM_GUARD; m_a.close(); forget(&m_a); }
        void open(const tcp&, error_code& ec) { ec = {}; }
        void open(const tcp&) {}
        void bind(const endpoint& e, error_code& ec)
        {
            SIM_WRITES;
            SIM_GUARD;
            ec = {};
            if(sim::world().listen_fails || sim::world().listens(e.to_sim())) { ec = error::address_in_use; return; }
            m_a.at = e.to_sim();
        }
        void bind(const endpoint& e) { error_code ec; bind(e, ec); if(ec) throw system_error(ec); }
        void listen(int, error_code& ec) { ec = {}; m_a.open = true; }
        void listen(int = 0) { m_a.open = true; }
        template <class O> void set_option(const O&) {}
        template <class O> void set_option(const O&, error_code& ec) { ec = {}; }
        bool is_open() const { SIM_READS; return m_a.open; }
        void close() { SIM_WRITES; SIM_GUARD; m_a.close(); }
        void close(error_code& ec) { SIM_WRITES; SIM_GUARD; ec = {}; m_a.close(); }
        void cancel() { error_code ec; cancel(ec); }
        void cancel(error_code& ec)
        {
            SIM_WRITES;
            SIM_GUARD;
            ec = {};
            auto o = std::move(m_a.ops);
            m_a.ops.clear();
            for(auto& op : o) { auto d = op.done; auto s = op.sock; sim::world().abort_later([d, s] { d(sim::aborted_ec()); }); }
        }
        endpoint local_endpoint() const { return endpoint::from_sim(m_a.at); }
        template <class H> void async_accept(socket& s, H&& h)
        {
            SIM_WRITES;
            SIM_GUARD;
            auto c = sim_completion(std::forward<H>(h));
            if(!m_a.open) { c(error_code{error::bad_descriptor}); return; }
            if(s.is_open()) { c(error_code{error::already_open}); return; }
            m_a.ops.push_back({s.sim_socket(), [c](error_code ec) { c(sim_ec(ec)); }});
            m_a.try_accept();
#ifdef SIM_THREADS
            sim_notify();
#endif
        }

    private:
        static void forget(sim::Acceptor* a)
        {
            auto& v = sim::world().acceptors;
            v.erase(std::remove(v.begin(), v.end(), a), v.end());
        }
        SIM_TOUCHABLE;
        sim::Acceptor m_a;
    };

    class resolver
    {
    public:
        class query
        {
        public:
            enum flags { canonical_name = 1, passive = 2, numeric_host = 4, numeric_service = 8, address_configured = 32 };
            query(const std::string& h, const std::string& s, int = 0) : m_h{h}, m_s{s} {}
            query(const tcp& p, const std::string& h, const std::string& s, int = 0) : m_h{h}, m_s{s}, m_v4{p.is_v4()} {}
            std::string host_name() const { return m_h; }
            std::string service_name() const { return m_s; }
            bool v4only() const { return m_v4; }
        private:
            std::string m_h, m_s;
            bool m_v4 = false;
        };
        class entry
        {
        public:
            entry() = default;
            explicit entry(tcp::endpoint e) : m_e{std::move(e)} {}
            tcp::endpoint endpoint() const { return m_e; }
            operator tcp::endpoint() const { return m_e; }
        private:
            tcp::endpoint m_e;
        };
        class iterator
        {
        public:
            using value_type = entry;
            using reference = const entry&;
            using pointer = const entry*;
            using difference_type = std::ptrdiff_t;
            using iterator_category = std::forward_iterator_tag;
            iterator() = default;
            explicit iterator(std::vector<entry> v) { if(!v.empty()) m_v = std::make_shared<std::vector<entry>>(std::move(v)); }
            const entry& operator*() const { return (*m_v)[m_i]; }
            const entry* operator->() const { return &(*m_v)[m_i]; }
            iterator& operator++() { if(++m_i >= m_v->size()) { m_v.reset(); m_i = 0; } return *this; }
            iterator operator++(int) { auto t = *this; ++*this; return t; }
            bool operator==(const iterator& o) const { return m_v == o.m_v && m_i == o.m_i; }
            bool operator!=(const iterator& o) const { return !(*this == o); }
            iterator begin() const { return *this; }
            iterator end() const { return {}; }
            bool empty() const { return !m_v; }
        private:
            std::shared_ptr<std::vector<entry>> m_v;
            size_t m_i = 0;
        };
        class results : public iterator
        {
        public:
            using iterator = resolver::iterator;
            using const_iterator = iterator;
            using size_type = size_t;
            using protocol_type = tcp;
            using endpoint_type = tcp::endpoint;
            results() = default;
            results(iterator i) : iterator{std::move(i)} {}
            const_iterator cbegin() const { return *this; }
            const_iterator cend() const { return {}; }
            size_type size() const { return static_cast<size_t>(std::distance(cbegin(), cend())); }
        };
        using results_type = results;
        using endpoint_type = tcp::endpoint;
        using protocol_type = tcp;

        explicit resolver(io_context&) {}
        ~resolver() { cancel(); }
        resolver(const resolver&) = delete;
        template <class H> void async_resolve(const query& q, H&& h)
        {
            SIM_WRITES;
            SIM_GUARD;
            auto c = sim_completion(std::forward<H>(h));
            sim::ResolveOp op;
            op.host = q.host_name();
            op.service = q.service_name();
            op.v4only = q.v4only();
            op.owner = this;
            const bool v4only = q.v4only();
            op.done = [c, v4only](error_code ec, std::vector<sim::Endpoint> eps) {
                std::vector<entry> v;
                for(auto& e : eps) if(!v4only || e.v4) v.emplace_back(tcp::endpoint::from_sim(e));
                c(sim_ec(ec), results{iterator{std::move(v)}});
            };
            sim::world().resolves.push_back(std::move(op));
#ifdef SIM_THREADS
            sim_notify();
#endif
        }
        template <class H> void async_resolve(const std::string& host, const std::string& service, H&& h) { async_resolve(query{host, service}, std::forward<H>(h)); }
        void cancel()
        {
            SIM_WRITES;
            SIM_GUARD;
            auto& all = sim::world().resolves;
            for(size_t i = 0; i < all.size();)
            {
                if(all[i].owner != this) { ++i; continue; }
                auto d = all[i].done;
                all.erase(all.begin() + static_cast<long>(i));
                sim::world().abort_later([d] { d(sim::aborted_ec(), {}); });
            }
        }
    private:
        SIM_TOUCHABLE;
    };

private:
    explicit tcp(bool v4) : m_v4{v4} {}
    bool m_v4;
};

} // namespace ip

// The intermediate steps of a composed operation run on the strand of its handler.
template <class F> void sim_continue(const std::shared_ptr<sim::Strand>& strand, F f)
{
    SIM_GUARD;
    SIM_RELEASE(strand.get());
    auto p = std::make_shared<F>(std::move(f));
    strand->q.push_back([p] { (*p)(); });
}

// As asio does it: every attempt starts by closing the socket, which the single connect then re-opens.
template <class H>
struct sim_connect_op : std::enable_shared_from_this<sim_connect_op<H>>
{
    ip::tcp::socket* s;
    ip::tcp::resolver::iterator it, end;
    std::shared_ptr<sim::Strand> strand;
    H done;
    explicit sim_connect_op(H h) : done(std::move(h)) {}
    void next(error_code)
    {
        error_code ec;
        s->close(ec);
        auto self = this->shared_from_this();
        s->sim_connect((*it).endpoint(), [self](error_code e) { sim_continue(self->strand, [self, e] { self->finished(e); }); });
    }
    void finished(error_code ec)
    {
        if(!s->is_open()) { done(error_code{error::operation_aborted}, end); return; }
        if(!ec) { done(ec, it); return; }
        ++it;
        if(it == end) { done(ec, end); return; }
        next(ec);
    }
};
template <class H>
void async_connect(ip::tcp::socket& s, ip::tcp::resolver::iterator begin, ip::tcp::resolver::iterator end, H&& h)
{
    SIM_GUARD;
    auto c = sim_completion(std::forward<H>(h));
    auto h2 = c.handler; // already on its strand when it is called
    auto d = [h2](error_code ec, ip::tcp::resolver::iterator it) mutable {
        if constexpr(std::is_invocable_v<decltype(h2)&, error_code, ip::tcp::resolver::iterator>) h2(ec, it);
        else h2(ec, it == ip::tcp::resolver::iterator{} ? ip::tcp::endpoint{} : (*it).endpoint());
    };
    if(begin == end) { auto f = [d]() mutable { d(error_code{error::not_found}, {}); }; sim_continue(c.strand, f); return; }
    auto op = std::make_shared<sim_connect_op<decltype(d)>>(d);
    op->s = &s;
    op->strand = c.strand;
    op->it = begin;
    op->end = end;
    op->next({});
}
template <class H, class = std::enable_if_t<!std::is_convertible_v<H, ip::tcp::resolver::iterator>>>
void async_connect(ip::tcp::socket& s, ip::tcp::resolver::iterator begin, H&& h)
{
    async_connect(s, begin, ip::tcp::resolver::iterator{}, std::forward<H>(h));
}

template <bool Write>
struct sim_transfer_op : std::enable_shared_from_this<sim_transfer_op<Write>>
{
    ip::tcp::socket* s;
    std::conditional_t<Write, const_buffer, mutable_buffer> b;
    size_t total = 0;
    std::shared_ptr<sim::Strand> strand;
    std::function<void(error_code, size_t)> done;
    void go()
    {
        auto self = this->shared_from_this();
        wrapped_handler<std::function<void(error_code, size_t)>> step{strand, [self](error_code ec, size_t n) {
            self->total += n;
            self->b += n;
            if(ec || self->b.size() == 0) { self->done(ec, self->total); return; }
            self->go();
        }};
        if constexpr(Write) s->async_write_some(b, step); else s->async_read_some(b, step);
    }
};
template <class B, class H>
void async_write(ip::tcp::socket& s, const B& b, H&& h)
{
    SIM_GUARD;
    auto c = sim_completion(std::forward<H>(h));
    auto op = std::make_shared<sim_transfer_op<true>>();
    op->s = &s;
    op->b = const_buffer(b);
    op->strand = c.strand;
    op->done = c.handler;
    op->go();
}
template <class B, class H>
void async_write(ip::tcp::socket& s, const B& b, transfer_all_t, H&& h) { async_write(s, b, std::forward<H>(h)); }
template <class B, class H>
void async_read(ip::tcp::socket& s, const B& b, H&& h)
{
    SIM_GUARD;
    auto c = sim_completion(std::forward<H>(h));
    auto op = std::make_shared<sim_transfer_op<false>>();
    op->s = &s;
    op->b = mutable_buffer(b);
    op->strand = c.strand;
    op->done = c.handler;
    op->go();
}
template <class B, class H>
void async_read(ip::tcp::socket& s, const B& b, transfer_all_t, H&& h) { async_read(s, b, std::forward<H>(h)); }

using socket_base = ip::tcp::socket;
} // namespace asio

#endif
