// Simulated world under the stand-in asio: virtual clock, strands, timers, resolver, TCP sockets and
// acceptors. Nothing happens by itself: a harness decides every completion, so every schedule and every
// environment answer can be enumerated. The semantics follow asio's reactor on Linux:
//  * an operation's handler never runs inside the initiating call; it is queued on its strand (FIFO)
//  * async_send / async_read_some first try immediately (speculatively); what the kernel cannot take is
//    done later, FROM THE CALLER'S BUFFER AS IT IS THEN
//  * closing or cancelling completes pending operations with operation_aborted, later
//  * a timer that has already expired and been queued cannot be cancelled any more
#ifndef SIM_SIM_HPP
#define SIM_SIM_HPP

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <system_error>
#include <utility>
#include <vector>

// Hooks for the thread-schedule explorer (no-ops unless a harness defines SIM_THREADS).
#ifdef SIM_THREADS
extern "C" void sim_enter();
extern "C" void sim_leave();
extern "C" void sim_hb_release(const void*);
extern "C" void sim_hb_acquire(const void*);
extern "C" void sim_run_pool(const void* io, unsigned threads);
extern "C" void sim_join_pool(const void* io);
extern "C" void sim_notify();
namespace sim { struct Guard { Guard() { sim_enter(); } ~Guard() { sim_leave(); } }; }
#define SIM_GUARD ::sim::Guard sim_guard_
#define SIM_RELEASE(p) sim_hb_release(p)
#define SIM_ACQUIRE(p) sim_hb_acquire(p)
// asio's objects must not be shared between threads unsynchronised: using one is an access to this.
namespace sim { struct Touch { mutable char t = 0; void write() const { *static_cast<volatile char*>(&t) = 1; } void read() const { (void)*static_cast<volatile char*>(&t); } }; }
#define SIM_WRITES m_touch.write()
#define SIM_READS m_touch.read()
#define SIM_TOUCHABLE ::sim::Touch m_touch
#else
#define SIM_WRITES do {} while(0)
#define SIM_READS do {} while(0)
#define SIM_TOUCHABLE static_assert(true, "")
#define SIM_GUARD do {} while(0)
#define SIM_RELEASE(p) do {} while(0)
#define SIM_ACQUIRE(p) do {} while(0)
#endif

namespace sim
{

using Bytes = std::vector<uint8_t>;
using clock_t_ = std::chrono::steady_clock;
using time_p = clock_t_::time_point;
using dur = clock_t_::duration;
using ec_t = std::error_code;
inline ec_t sys_ec(std::errc e) { return {static_cast<int>(e), std::system_category()}; } // as asio reports them

struct Strand
{
    int id = 0;
    std::deque<std::function<void()>> q;
    bool running = false;
};

struct Timer
{
    long id = 0;
    time_p at{};
    std::function<void(ec_t)> done; // queues the handler
};

struct Endpoint
{
    std::string host;
    unsigned short port = 0;
    bool v4 = true;
};

struct Conn;

struct ReadOp { uint8_t* p; size_t n; std::function<void(ec_t, size_t)> done; };
struct WriteOp { const uint8_t* p; size_t n; std::function<void(ec_t, size_t)> done; };
struct ConnectOp { Endpoint to; std::function<void(ec_t)> done; };

struct Socket : std::enable_shared_from_this<Socket>
{
    int id = 0;
    bool open = false;
    bool bound = false;
    bool v4 = true;
    Endpoint local;
    std::shared_ptr<Conn> conn;
    std::deque<ReadOp> reads;
    std::deque<WriteOp> writes;
    std::unique_ptr<ConnectOp> connecting;

    void do_reads();
    void do_writes();
    void abort_ops(ec_t ec);
    void close();
    void cancel();
    void shutdown_both();
};

// One established TCP connection seen from the code's side.
struct Conn
{
    int id = 0;
    Endpoint local, remote;
    bool accepted = false;             // accepted by a server (as opposed to opened by a client)
    std::weak_ptr<Socket> sock;
    Bytes tx;                          // what the code has put on the wire
    std::vector<std::pair<size_t, time_p>> tx_marks; // (end offset, time) of every accepted piece
    size_t window = SIZE_MAX;          // how many more bytes the kernel accepts from the code
    size_t max_piece = SIZE_MAX;       // at most this many bytes per write operation (short writes)
    Bytes rx;                          // arrived but not yet read by the code
    bool rx_eof = false;
    ec_t rx_err, tx_err;
    bool local_closed = false;         // the code closed it
    bool local_shutdown = false;
    time_p closed_at{};

    bool alive() const { return !local_closed && !rx_eof && !rx_err && !tx_err; }
    void poke() { if(auto s = sock.lock()) { s->do_writes(); s->do_reads(); } }
    // ---- what the peer / network does ----
    void deliver(const Bytes& b)
    {
        if(local_closed || local_shutdown) return;
        rx.insert(rx.end(), b.begin(), b.end());
        poke();
    }
    void peer_eof() { if(local_closed) return; rx_eof = true; poke(); }
    void peer_reset(ec_t ec)
    {
        if(local_closed) return;
        rx.clear();
        rx_err = ec;
        tx_err = ec;
        poke();
    }
    void open_window(size_t n)
    {
        if(n == SIZE_MAX || window == SIZE_MAX) window = n; else window += n;
        poke();
    }
};

struct Acceptor
{
    int id = 0;
    bool open = false;
    Endpoint at;
    struct Op { std::shared_ptr<Socket> sock; std::function<void(ec_t)> done; };
    std::deque<Op> ops;
    std::deque<std::shared_ptr<Conn>> backlog;
    std::deque<ec_t> errors; // pending accept failures
    void try_accept();
    void close();
};

struct ResolveOp { std::string host, service; bool v4only = false; const void* owner = nullptr; std::function<void(ec_t, std::vector<Endpoint>)> done; };

struct World
{
    time_p now{};
    int next_id = 1;
    std::shared_ptr<Strand> io_strand; // handlers not bound to a strand
    std::vector<std::shared_ptr<Strand>> strands;
    std::vector<std::shared_ptr<Timer>> timers;
    std::deque<ResolveOp> resolves;
    std::vector<std::weak_ptr<Socket>> sockets;
    std::vector<std::shared_ptr<Conn>> conns;
    std::vector<Acceptor*> acceptors;
    bool defer_aborts = false;
    bool bind_fails = false, open_fails = false, listen_fails = false;
    size_t initial_window = SIZE_MAX;
    std::deque<std::function<void()>> deferred; // aborted completions not yet queued
    // statistics and verdicts
    long tasks_run = 0, connects_started = 0;
    bool pool_joined = false, pool_hang = false;
    std::string hang_why;
    dur join_time{};
    std::function<void()> before_join;   // harness hook
    long live_strands = 0, live_executors = 0;

    World() { reset(); }
    void reset()
    {
        // Dropping handlers may run destructors that call back into the world: empty it first.
        // (Repeat, as those destructors may add things.)
        for(int i = 0; i < 4; ++i)
        {
            auto s = std::move(strands); strands.clear();
            auto ios = std::move(io_strand); io_strand.reset();
            auto t = std::move(timers); timers.clear();
            auto r = std::move(resolves); resolves.clear();
            auto c = std::move(conns); conns.clear();
            auto d = std::move(deferred); deferred.clear();
            std::vector<std::shared_ptr<Socket>> alive;
            for(auto& w : sockets) if(auto p = w.lock()) alive.push_back(p);
            sockets.clear();
            for(auto& p : alive) { p->reads.clear(); p->writes.clear(); p->connecting.reset(); }
            for(auto* a : acceptors) { a->ops.clear(); a->backlog.clear(); }
            for(auto& x : s) x->q.clear();
            if(ios) ios->q.clear();
        }
        now = time_p{} + std::chrono::hours{1};
        next_id = 1;
        io_strand = std::make_shared<Strand>();
        acceptors.clear();
        defer_aborts = bind_fails = open_fails = listen_fails = false;
        initial_window = SIZE_MAX;
        tasks_run = connects_started = 0;
        pool_joined = pool_hang = false;
        hang_why.clear();
        join_time = dur{};
        before_join = nullptr;
    }

    // ---- strands ----
    std::shared_ptr<Strand> make_strand()
    {
        auto s = std::make_shared<Strand>();
        s->id = next_id++;
        strands.push_back(s);
        return s;
    }
    void gc_strands()
    {
        strands.erase(std::remove_if(strands.begin(), strands.end(), [](const auto& s) { return s.use_count() == 1 && s->q.empty(); }), strands.end());
    }
    std::vector<std::shared_ptr<Strand>> ready()
    {
        std::vector<std::shared_ptr<Strand>> r;
        if(!io_strand->q.empty() && !io_strand->running) r.push_back(io_strand);
        for(auto& s : strands) if(!s->q.empty() && !s->running) r.push_back(s);
        return r;
    }
    bool has_ready() const
    {
        if(!io_strand->q.empty() && !io_strand->running) return true;
        for(auto& s : strands) if(!s->q.empty() && !s->running) return true;
        return false;
    }
    void run_one(const std::shared_ptr<Strand>& s)
    {
        auto f = std::move(s->q.front());
        s->q.pop_front();
        s->running = true;
        ++tasks_run;
        struct R { Strand* s; ~R() { s->running = false; } } r{s.get()};
        f();
    }
    // Runs everything that is ready (deterministic order). Returns the number of handlers run.
    long drain(long limit = 100000)
    {
        long n = 0;
        for(;;)
        {
            flush_deferred();
            auto r = ready();
            if(r.empty()) return n;
            run_one(r.front());
            if(++n >= limit) { pool_hang = true; hang_why = "handlers keep queueing handlers"; return n; }
        }
    }
    void flush_deferred()
    {
        while(!deferred.empty())
        {
            auto f = std::move(deferred.front());
            deferred.pop_front();
            f();
        }
    }
    void abort_later(std::function<void()> f)
    {
        if(defer_aborts) deferred.push_back(std::move(f)); else f();
    }

    // ---- time ----
    std::shared_ptr<Timer> next_timer()
    {
        std::shared_ptr<Timer> best;
        for(auto& t : timers) if(!best || t->at < best->at) best = t;
        return best;
    }
    std::vector<std::shared_ptr<Timer>> due_timers()
    {
        std::vector<std::shared_ptr<Timer>> r;
        for(auto& t : timers) if(t->at <= now) r.push_back(t);
        std::stable_sort(r.begin(), r.end(), [](const auto& a, const auto& b) { return a->at < b->at; });
        return r;
    }
    void fire(const std::shared_ptr<Timer>& t)
    {
        auto it = std::find(timers.begin(), timers.end(), t);
        if(it == timers.end()) return;
        timers.erase(it);
        SIM_ACQUIRE(t.get()); // whoever completes an operation comes after its start
        auto d = std::move(t->done);
        if(d) d(ec_t{});
    }
    void fire_due() { for(auto& t : due_timers()) fire(t); }
    void cancel(const std::shared_ptr<Timer>& t, ec_t ec)
    {
        auto it = std::find(timers.begin(), timers.end(), t);
        if(it == timers.end()) return;
        timers.erase(it);
        SIM_ACQUIRE(t.get()); // whoever completes an operation comes after its start
        auto d = std::move(t->done);
        if(d) abort_later([d, ec] { d(ec); });
    }
    // Moves the clock; expired timers are queued at their own time, everything ready is run in between.
    void advance(dur d)
    {
        const auto target = now + d;
        drain();
        for(;;)
        {
            auto t = next_timer();
            if(!t || t->at > target) break;
            if(t->at > now) now = t->at;
            fire_due();
            drain();
        }
        now = target;
    }

    // ---- sockets ----
    std::shared_ptr<Socket> make_socket()
    {
        auto s = std::make_shared<Socket>();
        s->id = next_id++;
        sockets.push_back(s);
        return s;
    }
    std::vector<std::shared_ptr<Socket>> open_sockets()
    {
        std::vector<std::shared_ptr<Socket>> r;
        for(auto& w : sockets) if(auto s = w.lock()) if(s->open) r.push_back(s);
        return r;
    }
    std::shared_ptr<Socket> pending_connect()
    {
        for(auto& w : sockets) if(auto s = w.lock()) if(s->connecting) return s;
        return nullptr;
    }
    bool connects() const
    {
        for(auto& w : sockets) if(auto s = w.lock()) if(s->connecting) return true;
        return false;
    }
    std::shared_ptr<Conn> make_conn(const std::shared_ptr<Socket>& s, Endpoint remote)
    {
        auto c = std::make_shared<Conn>();
        c->id = next_id++;
        c->local = s->local;
        c->remote = std::move(remote);
        c->sock = s;
        c->window = initial_window;
        s->conn = c;
        conns.push_back(c);
        return c;
    }
    std::shared_ptr<Conn> complete_connect(const std::shared_ptr<Socket>& s, ec_t ec)
    {
        auto op = std::move(s->connecting);
        std::shared_ptr<Conn> c;
        if(!ec) c = make_conn(s, op->to);
        op->done(ec);
        return c;
    }
    void complete_resolve(ec_t ec, std::vector<Endpoint> eps = {})
    {
        auto op = std::move(resolves.front());
        resolves.pop_front();
        op.done(ec, std::move(eps));
    }
    Acceptor* acceptor(unsigned short port)
    {
        for(auto* a : acceptors) if(a->open && a->at.port == port) return a;
        return nullptr;
    }
    static bool any_address(const std::string& h) { return h == "0.0.0.0" || h == "::"; }
    // Is this address and port taken by a listening socket?
    bool listens(const Endpoint& e)
    {
        for(auto* a : acceptors) if(a->open && a->at.port == e.port && (a->at.host == e.host || any_address(a->at.host) || any_address(e.host))) return true;
        return false;
    }
    // A client connects to a listening port: null when nobody listens.
    std::shared_ptr<Conn> incoming(unsigned short port)
    {
        return incoming(acceptor(port));
    }
    // The same to one address of this machine.
    std::shared_ptr<Conn> incoming(const std::string& host, unsigned short port)
    {
        for(auto* a : acceptors) if(a->open && a->at.port == port && (a->at.host == host || any_address(a->at.host))) return incoming(a);
        return nullptr;
    }
    std::shared_ptr<Conn> incoming(Acceptor* a)
    {
        if(!a) return nullptr;
        auto c = std::make_shared<Conn>();
        c->id = next_id++;
        c->accepted = true;
        c->window = initial_window;
        c->local = a->at;
        c->remote = Endpoint{"10.9.8.7", static_cast<unsigned short>(40000 + c->id), true};
        conns.push_back(c);
        a->backlog.push_back(c);
        a->try_accept();
        return c;
    }
    size_t outstanding()
    {
        size_t n = timers.size() + resolves.size() + deferred.size();
        for(auto& w : sockets) if(auto s = w.lock()) n += s->reads.size() + s->writes.size() + (s->connecting ? 1 : 0);
        for(auto* a : acceptors) n += a->ops.size();
        return n;
    }
    // What the thread pool's destructor waits for: all work to run out. The resolver and connection attempts
    // end by themselves (the system bounds them) and time passes; a pending read, write or accept on a silent
    // peer never ends, which would block the destructor for ever.
    void join_pool(const std::error_code& aborted)
    {
        if(before_join) before_join();
        const auto t0 = now;
        long rounds = 0;
        for(;;)
        {
            drain();
            if(pool_hang) break;
            if(outstanding() == 0) break;
            if(++rounds > 2000) { pool_hang = true; hang_why = "background activity never ends"; break; }
            if(!resolves.empty()) { complete_resolve(sys_ec(std::errc::host_unreachable)); continue; }
            if(auto s = pending_connect()) { complete_connect(s, sys_ec(std::errc::timed_out)); continue; }
            if(auto t = next_timer())
            {
                if(t->at > now) now = t->at;
                fire_due();
                continue;
            }
            pool_hang = true;
            hang_why = "a read, write or accept operation is left pending";
            break;
        }
        (void)aborted;
        join_time = now - t0;
        pool_joined = true;
    }
};

inline World& world()
{
    static World* w = new World;
    return *w;
}
inline ec_t aborted_ec() { return std::make_error_code(std::errc::operation_canceled); }

inline void Socket::do_reads()
{
    while(!reads.empty() && conn)
    {
        auto& c = *conn;
        if(!c.rx.empty() && !c.local_shutdown)
        {
            auto op = std::move(reads.front());
            reads.pop_front();
            const size_t n = std::min(op.n, c.rx.size());
            std::memcpy(op.p, c.rx.data(), n);
            c.rx.erase(c.rx.begin(), c.rx.begin() + static_cast<long>(n));
            op.done(ec_t{}, n);
        }
        else if(c.rx_err)
        {
            auto op = std::move(reads.front());
            reads.pop_front();
            op.done(c.rx_err, 0);
        }
        else if(c.rx_eof)
        {
            auto op = std::move(reads.front());
            reads.pop_front();
            op.done(ec_t{}, 0); // the asio layer turns a zero-byte read into eof
        }
        else return;
    }
}
inline void Socket::do_writes()
{
    while(!writes.empty() && conn)
    {
        auto& c = *conn;
        if(c.tx_err)
        {
            auto op = std::move(writes.front());
            writes.pop_front();
            op.done(c.tx_err, 0);
            continue;
        }
        auto& f = writes.front();
        if(c.window == 0 && f.n > 0) return;
        const size_t n = std::min({f.n, c.window, c.max_piece});
        auto op = std::move(f);
        writes.pop_front();
        c.tx.insert(c.tx.end(), op.p, op.p + n);
        if(n) c.tx_marks.emplace_back(c.tx.size(), world().now);
        if(c.window != SIZE_MAX) c.window -= n;
        op.done(ec_t{}, n);
    }
}
inline void Socket::abort_ops(ec_t ec)
{
    auto& w = world();
    auto r = std::move(reads); reads.clear();
    auto wr = std::move(writes); writes.clear();
    auto c = std::move(connecting); connecting.reset();
    for(auto& op : r) { auto d = op.done; w.abort_later([d, ec] { d(ec, 0); }); }
    for(auto& op : wr) { auto d = op.done; w.abort_later([d, ec] { d(ec, 0); }); }
    if(c) { auto d = c->done; w.abort_later([d, ec] { d(ec); }); }
}
inline void Socket::close()
{
    if(!open) return;
    open = false;
    bound = false;
    if(conn)
    {
        conn->local_closed = true;
        conn->closed_at = world().now;
        conn.reset();
    }
    abort_ops(aborted_ec());
}
inline void Socket::cancel() { abort_ops(aborted_ec()); }
inline void Socket::shutdown_both()
{
    if(conn) { conn->local_shutdown = true; conn->rx.clear(); }
}
inline void Acceptor::try_accept()
{
    while(open && !ops.empty() && (!errors.empty() || !backlog.empty()))
    {
        auto op = std::move(ops.front());
        ops.pop_front();
        if(!errors.empty())
        {
            auto ec = errors.front();
            errors.pop_front();
            op.done(ec);
            continue;
        }
        auto c = backlog.front();
        backlog.pop_front();
        op.sock->open = true;
        op.sock->conn = c;
        op.sock->local = at;
        c->sock = op.sock;
        op.done(ec_t{});
    }
}
inline void Acceptor::close()
{
    if(!open) return;
    open = false;
    auto& w = world();
    auto o = std::move(ops); ops.clear();
    for(auto& op : o) { auto d = op.done; auto s = op.sock; w.abort_later([d, s] { d(aborted_ec()); }); }
    for(auto& c : backlog) { c->local_closed = true; c->closed_at = w.now; }
    backlog.clear();
}

} // namespace sim

#endif
