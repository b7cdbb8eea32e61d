// Shutting down at every moment: a client channel (ShutClient) or a server channel (ShutServer) in the simulated
// world. Monitors for C14. All timeouts and periods are an hour, so whatever is left running shows.
#ifndef HARNESS_SHUTSIM_HPP
#define HARNESS_SHUTSIM_HPP

#include "serversim.hpp"

namespace hw
{

// Counts what was queued when a shutdown was called: it has been carried out when all of that has run.
struct Behind
{
    std::vector<std::pair<std::weak_ptr<sim::Strand>, size_t>> left;
    bool armed = false;
    void arm(World& w)
    {
        if(armed) return;
        armed = true;
        for(auto& s : w->strands) left.emplace_back(s, s->q.size());
        left.emplace_back(w->io_strand, w->io_strand->q.size());
    }
    void ran(const std::shared_ptr<sim::Strand>& s) { for(auto& l : left) if(l.first.lock() == s && l.second) --l.second; }
    // Also what that queued in turn, and so on: three times.
    int generation = 0;
    bool passed(int gen = 0) const { if(!armed) return false; if(generation > gen) return true; for(auto& l : left) if(l.second) return false; return generation == gen; }
    void next(World& w) { while(generation < 3 && passed(generation)) { ++generation; left.clear(); armed = false; arm(w); } }
};

enum : unsigned {
    K_CHAN = 1, K_MAN = 2, K_DESTROY = 4, K_DROP = 8, K_INHANDLER = 16,
    D_POLL = 32, D_INVALID = 64, D_SLOW = 128, D_NET = 256, D_TIME = 512, D_FOLLOW = 1024, D_GOOD = 2048, D_RESET = 4096, D_AGAIN = 8192, D_LATE = 1 << 14
};

struct ShutClient
{
    mc::Ctx& c;
    unsigned menu;
    int max_requests;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IClientChannel> chan;
    std::shared_ptr<modbus::IClientSession> s1;
    std::shared_ptr<modbus::IScheduledRequest> poll;
    struct R { int calls = 0; bool poll = false; };
    std::deque<R> rs;
    std::shared_ptr<int> token = std::make_shared<int>(0), poll_token = std::make_shared<int>(0);
    Behind behind;
    bool quiet_since = false; // a point where nothing is queued has been reached since the shutdown
    bool man_shut = false, in_join = false, shut_in_handler = false, dropped = false;
    int shutdowns = 0;
    std::map<sim::Conn*, size_t> tx_at_quiet;
    std::map<sim::Conn*, size_t> tx_frames; // frames begun when the shutdown was carried out

    ShutClient(mc::Ctx& ctx, unsigned m, int maxr) : c(ctx), menu(m), max_requests(maxr)
    {
        man = modbus::IModbusManager::create(null_logger(), 1);
        chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"plc", 502}, "", modbus::LoggingLevel::Critical);
        s1 = chan->create_session(UnitIdentifier{1}, 1h);
        w->defer_aborts = true;
        w->before_join = [this] { join(); };
        w->drain();
    }
    ~ShutClient() { failure = std::make_exception_ptr(0); poll.reset(); s1.reset(); chan.reset(); w->before_join = nullptr; man.reset(); }
    bool gone() const { return behind.passed(); }

    void call(size_t id, const Out& o)
    {
        if(failure) return;
        R& r = rs[id];
        c.note("    request %zu: %s", id, o.str().c_str());
        c.observe(id * 256 + static_cast<unsigned char>(o.type));
        c.checked();
        ++r.calls;
        if(gone()) c.fail("request %zu: its handler is called (%s) although the shutdown has been carried out", id, o.str().c_str());
        if(man_shut && !in_join) c.fail("request %zu: its handler is called (%s) after the manager's shutdown returned", id, o.str().c_str());
    }
    void send(bool valid, int then)
    {
        rs.emplace_back();
        const size_t id = rs.size() - 1;
        Req q;
        q.kind = ref::ReadHolding;
        q.addr = static_cast<uint32_t>(id);
        q.qty = valid ? 1 : 0;
        auto t = token;
        hw::send(*s1, q, nullptr, [this, id, t, then](const Out& o) {
            call(id, o);
            if(then == 1 && s1) send(true, 0);
            if(then == 2 && chan) shut_channel();
        });
    }
    void shut_channel()
    {
        ++shutdowns;
        chan->shutdown();
        behind.arm(w);
    }
    void start_poll()
    {
        if(poll) { poll->start(); return; }
        rs.emplace_back();
        const size_t id = rs.size() - 1;
        Req q;
        q.kind = ref::ReadInput;
        q.addr = static_cast<uint32_t>(id);
        q.qty = 1;
        rs.back().poll = true;
        auto t = poll_token;
        poll = hw::schedule(*s1, q, nullptr, 1h, [this, id, t](const Out& o) { call(id, o); });
    }
    // While the manager waits for its threads, the rest of the world goes on.
    void join()
    {
        // (from a destructor: a failure is kept until the destructor is through)
        in_join = true;
        behind.arm(w); // every channel's shutdown has been called
        try { settle(); } catch(...) { failure = std::current_exception(); }
        if(failure) while(w->has_ready()) try { w->drain(); } catch(...) { }
        in_join = false;
    }
    std::exception_ptr failure;
    void rethrow() { if(failure) std::rethrow_exception(failure); }
    std::shared_ptr<sim::Conn> conn()
    {
        for(auto& k : w->conns) if(k->alive()) return k;
        return nullptr;
    }
    // The last complete frame the peer has not answered.
    bool unanswered(sim::Conn* k, uint32_t& tid, uint8_t& f)
    {
        const auto& b = k->tx;
        if(b.size() < 12 || b.size() % 12) return false;
        tid = ref::get16(b, b.size() - 12);
        f = b[b.size() - 5];
        return answered[k] != static_cast<int>(tid);
    }
    std::map<sim::Conn*, int> answered;

    using Act = std::pair<std::string, std::function<void()>>;
    std::vector<Act> actions()
    {
        std::vector<Act> a;
        auto on = [&](unsigned m) { return (menu & m) != 0; };
        auto k = conn();
        const bool may_call = s1 && !man_shut && !in_join && (!gone() || on(D_LATE));
        if(may_call)
        {
            if(static_cast<int>(rs.size()) < max_requests)
            {
                a.emplace_back("send", [this] { send(true, 0); });
                if(on(D_INVALID)) a.emplace_back("send outside the limits", [this] { send(false, 0); });
                if(on(D_FOLLOW)) a.emplace_back("send, sending another when told", [this] { send(true, 1); });
                if(on(K_INHANDLER)) a.emplace_back("send, shutting down the channel when told", [this] { send(true, 2); });
                if(on(D_POLL) && !poll) a.emplace_back("schedule a request", [this] { start_poll(); });
            }
            if(poll)
            {
                a.emplace_back("stop polling", [this] { poll->stop(); });
                a.emplace_back("start polling", [this] { poll->start(); });
            }
        }
        if(!in_join)
        {
            if(on(K_CHAN) && chan && (shutdowns == 0 || (on(D_AGAIN) && shutdowns < 2))) a.emplace_back("SHUT DOWN the channel", [this] { shut_channel(); });
            if(on(K_MAN) && man && !man_shut) a.emplace_back("SHUT DOWN the manager", [this] { man->shutdown(); rethrow(); behind.arm(w); man_shut = true; });
            if(on(K_DESTROY) && man && !(man_shut && !on(D_AGAIN))) a.emplace_back("DESTROY the manager", [this] { man.reset(); man_shut = true; joined(); });
            if(on(K_DROP) && s1) a.emplace_back("the application drops its references", [this] { drop(); });
        }
        if(!w->resolves.empty())
        {
            a.emplace_back("the name resolves", [this] { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}, sim::Endpoint{"10.0.0.2", 502, true}}); });
            if(on(D_NET)) a.emplace_back("the name does not resolve", [this] { w->complete_resolve(asio::error::host_not_found); });
        }
        if(auto s = w->pending_connect())
        {
            a.emplace_back("connected", [this, s] { w->complete_connect(s, {}); });
            if(on(D_SLOW)) a.emplace_back("connected, slowly", [this, s] { w->initial_window = 5; w->complete_connect(s, {}); w->initial_window = SIZE_MAX; });
            if(on(D_NET)) a.emplace_back("connection refused", [this, s] { w->complete_connect(s, asio::error::connection_refused); });
        }
        if(k)
        {
            uint32_t tid; uint8_t f;
            if(on(D_GOOD) && unanswered(k.get(), tid, f)) a.emplace_back("response", [this, k, tid, f] { answered[k.get()] = static_cast<int>(tid); k->deliver(ref::frame(tid, 1, {f, 2, 0, 5})); });
            if(on(D_RESET)) a.emplace_back("the peer resets", [this, k] { k->peer_reset(asio::error::connection_reset); });
            if(k->window != SIZE_MAX) a.emplace_back("the socket takes everything", [this, k] { k->open_window(SIZE_MAX); });
        }
        if(on(D_TIME)) if(auto t = w->next_timer()) a.emplace_back("time passes to the next timer", [this, t] { if(t->at > w->now) w->now = t->at; w->fire_due(); });
        return a;
    }
    void drop() { dropped = true; poll.reset(); s1.reset(); chan.reset(); }
    void joined()
    {
        rethrow();
        c.checked();
        if(w->pool_hang) c.fail("destroying the manager would never end: %s", w->hang_why.c_str());
        if(w->join_time > 10s) c.fail("destroying the manager takes %ld ms", ms(w->join_time));
    }
    void perform(Act& x)
    {
        c.note("%s", x.first.c_str());
        x.second();
        c.step();
        scan();
    }
    static size_t frames(const sim::Conn& k) { return (k.tx.size() + 11) / 12; }
    void scan()
    {
        if(!behind.passed(2)) return; // the connection's own shutdown is queued by the channel's
        for(auto& k : w->conns)
        {
            if(k->remote.host == "10.0.0.9") continue; // the other channel's
            c.checked();
            auto it = tx_frames.find(k.get());
            if(it == tx_frames.end()) { tx_frames[k.get()] = quiet_since ? 0 : frames(*k); it = tx_frames.find(k.get()); }
            if(frames(*k) > it->second) c.fail("a request is transmitted on connection %d although the shutdown has been carried out", k->id);
            if(quiet_since)
            {
                auto q = tx_at_quiet.find(k.get());
                if(k->tx.size() > (q == tx_at_quiet.end() ? 0 : q->second)) c.fail("connection %d still transmits after the shutdown", k->id);
            }
        }
    }
    void quiescent()
    {
        scan();
        c.state();
        while(behind.armed && behind.generation < 3) behind.next(w);
        if(!gone()) return;
        c.checked();
        if(!quiet_since) for(auto& k : w->conns) tx_at_quiet[k.get()] = k->tx.size();
        quiet_since = true;
        if(!w->open_sockets().empty()) c.fail("%zu sockets are still open after the shutdown", w->open_sockets().size());
        if(w->pending_connect()) c.fail("a connection attempt goes on after the shutdown");
        if(!w->timers.empty()) c.fail("%zu timers are still running after the shutdown", w->timers.size());
    }
    void settle(bool races = true)
    {
        Aborts aborts;
        while(aborts.more(w, c, races))
        {
            if(races && c.can_deviate())
            {
                auto b = actions();
                const int i = c.deviate(static_cast<int>(b.size()) + 1, "before the next handler");
                if(i > 0) { perform(b[static_cast<size_t>(i - 1)]); continue; }
            }
            auto s = w->ready().front();
            behind.ran(s);
            w->run_one(s);
            aborts.ran();
            behind.next(w);
            c.step();
            scan();
        }
        quiescent();
    }
    void act()
    {
        auto a = actions();
        if(a.empty()) return;
        perform(a[static_cast<size_t>(c.choose(static_cast<int>(a.size()), "action"))]);
        settle();
    }
    void explore(int depth)
    {
        for(int i = 0; i < depth; ++i) act();
        if(!rs.empty() || shutdowns || man_shut) c.nontrivial();
        finish();
    }
    // A cycle of `len` actions, repeated, and then `depth` actions.
    void explore_cycle(int len, int repeats, int depth)
    {
        static const std::vector<std::string> names{"send", "send outside the limits", "schedule a request", "start polling", "stop polling", "the name does not resolve", "connection refused", "response", "the peer resets", "time passes to the next timer"};
        std::vector<std::string> cycle;
        for(int i = 0; i < len; ++i) cycle.push_back(names[static_cast<size_t>(c.choose(static_cast<int>(names.size()), "action of the cycle"))]);
        auto go = [&](const std::string& n) { for(auto& x : actions()) if(x.first == n) { Act y = x; perform(y); settle(); return; } };
        for(int k = 0; k < repeats; ++k)
            for(auto& n : cycle)
            {
                if(n != "the name does not resolve" && n.compare(0, 4, "send") != 0) go("the name resolves");
                if(n != "connection refused" && n.compare(0, 4, "send") != 0) go("connected");
                go(n);
            }
        explore(depth);
    }
    void finish()
    {
        // another channel of the same manager is not affected
        if(man && !man_shut)
        {
            c.note("-- another channel");
            for(int i = 0; i < 3 && !w->resolves.empty(); ++i) { w->complete_resolve(asio::error::host_not_found); settle(false); }
            while(auto s = w->pending_connect()) { w->complete_connect(s, asio::error::connection_refused); settle(false); }
            auto b = behind;
            behind = {}; // its sockets are legitimate
            {
                auto ch = man->create_client_tcp_channel("other", modbus::Ipv4Endpoint{"10.0.0.9", 502}, "", modbus::LoggingLevel::Critical);
                auto s = ch->create_session(UnitIdentifier{1}, 1h);
                int calls = 0;
                Req q;
                q.kind = ref::ReadHolding;
                hw::send(*s, q, nullptr, [&](const Out& o) { if(o.type == 'D') ++calls; });
                w->drain();
                for(int i = 0; i < 4; ++i)
                {
                    if(!w->resolves.empty()) w->complete_resolve({}, {sim::Endpoint{"10.0.0.9", 502, true}});
                    if(auto p = w->pending_connect()) w->complete_connect(p, {});
                    w->drain();
                }
                for(auto& k : w->conns) if(k->alive() && k->remote.host == "10.0.0.9" && k->tx.size() == 12) k->deliver(ref::frame(ref::get16(k->tx, 0), 1, {3, 2, 0, 9}));
                w->drain();
                c.checked();
                if(calls != 1) c.fail("after the history, another channel of the same manager no longer works");
                ch->shutdown();
            }
            behind = b;
            w->drain();
        }
        // The end: whatever is still there goes, the application's references before or after the manager.
        if(man)
        {
            if(!dropped && c.choose(2, "references")) drop();
            c.note("-- the manager is destroyed, %s", dropped ? "the application holds nothing" : "the application holds its references");
            man.reset();
            man_shut = true;
            joined();
            settle();
        }
        c.checked();
        if(w->outstanding()) c.fail("%zu operations are outstanding after the manager was destroyed", w->outstanding());
        if(!w->open_sockets().empty()) c.fail("%zu sockets are still open after the manager was destroyed", w->open_sockets().size());
        if(token.use_count() > 1) c.fail("%ld references to response handlers are left after the manager was destroyed", token.use_count() - 1);
        if(!poll && poll_token.use_count() > 1) c.fail("the handler of a scheduled request is left after the manager was destroyed");
        w->advance(24h);
        std::weak_ptr<void> wc = chan, ws = s1, wp = poll;
        drop();
        if(poll_token.use_count() > 1) c.fail("the handler of a scheduled request is left after everything was released");
        if(!wc.expired() || !ws.expired() || !wp.expired()) c.fail("a channel, session or scheduled request is left after everything was released");
        if(w->live_executors) c.fail("%ld channels are left after everything was released", w->live_executors);
        for(auto& s : w->sockets) if(s.lock()) c.fail("a socket is left after everything was released");
    }
};

struct ShutServer : ServerSim
{
    unsigned kill;
    Behind behind;
    bool man_shut = false, in_join = false, quiet_since = false, dropped = false;
    int shutdowns = 0;
    long dead_seq = 0;
    std::map<sim::Conn*, size_t> tx_at_quiet;
    size_t attached_at_death = 0;

    ShutServer(mc::Ctx& ctx, unsigned m, unsigned k, unsigned lim, size_t maxc) : ServerSim(ctx, M14S, m, lim, maxc), kill(k)
    {
        s.w->before_join = [this] {
            in_join = true;
            behind.arm(s.w);
            try { settle_k(); } catch(...) { failure = std::current_exception(); over = true; }
            if(failure) while(s.w->has_ready()) try { s.w->drain(); } catch(...) { }
            in_join = false;
        };
    }
    ~ShutServer() { over = true; s.w->before_join = nullptr; }
    std::exception_ptr failure;
    void rethrow() { if(failure) std::rethrow_exception(failure); }
    void down() { ++shutdowns; s.chan->shutdown(); behind.arm(s.w); }
    std::vector<Act> all_actions()
    {
        std::vector<Act> a = s.chan && !(in_join || man_shut) ? actions() : std::vector<Act>{};
        if(in_join) for(auto& x : actions()) if(x.first.find("session is attached") == std::string::npos) a.push_back(x);
        if(in_join || man_shut) return a;
        if((kill & K_CHAN) && s.chan && shutdowns < 1 + !!(kill & D_AGAIN)) a.emplace_back("SHUT DOWN the channel", [this] { down(); });
        if((kill & D_AGAIN) && s.chan) a.emplace_back("start the channel again", [this] { s.chan->start(); });
        if(kill & K_MAN) a.emplace_back("SHUT DOWN the manager", [this] { s.man->shutdown(); rethrow(); behind.arm(s.w); man_shut = true; });
        if(kill & K_DESTROY) a.emplace_back("DESTROY the manager", [this] { s.man.reset(); rethrow(); man_shut = true; });
        if((kill & K_DROP) && s.chan) a.emplace_back("the application drops its reference", [this] { s.chan.reset(); });
        return a;
    }
    void check()
    {
        if(!behind.passed()) { scan(); return; }
        behind.next(s.w);
        if(behind.passed(2)) dead_tx = true;
        if(!dead) { dead = true; dead_seq = seq; for(auto& u : attached) attached_at_death += !u.second.empty(); }
        c.checked();
        if(quiet_since) for(auto& cl : cls) if(cl.k->tx.size() > tx_at_quiet[cl.k.get()]) c.fail("client %d is still sent to after the shutdown", cl.id);
    }
    void quiet_k()
    {
        while(behind.armed && behind.generation < 3) behind.next(s.w);
        check();
        c.state();
        if(!dead) { quiescent(); return; }
        c.checked();
        if(!quiet_since) for(auto& cl : cls) tx_at_quiet[cl.k.get()] = cl.k->tx.size();
        quiet_since = true;
        for(auto& cl : cls) if(!cl.k->local_closed) c.fail("the connection of client %d is not closed by the shutdown", cl.id);
        if(!s.w->open_sockets().empty()) c.fail("%zu sockets are still open after the shutdown", s.w->open_sockets().size());
        for(auto* x : s.w->acceptors) if(x->open) c.fail("the server still listens after the shutdown");
        told();
    }
    void told()
    {
        for(auto& u : attached) for(size_t i = 0; i < u.second.size(); ++i)
        {
            const int n = u.second[i].s->shutdowns;
            const bool last = i + 1 == u.second.size();
            if(n > 1) c.fail("a session of unit %u is told %d times to shut down", u.first, n);
            if(last && u.second[i].seq < kill_seq && n != 1) c.fail("the session of unit %u is not told to shut down", u.first);
        }
    }
    long kill_seq = 0; // sessions attached before this were attached when the shutdown was called
    void go(Act& x)
    {
        const bool before = behind.armed;
        const long at = seq + 1;
        perform(x);
        if(!before && behind.armed) kill_seq = at;
        check();
    }
    void settle_k()
    {
        if(in_join && !kill_seq) kill_seq = ++seq;
        Aborts aborts;
        while(aborts.more(s.w, c))
        {
            if(c.can_deviate())
            {
                auto b = all_actions();
                const int i = c.deviate(static_cast<int>(b.size()) + 1, "before the next handler");
                if(i > 0) { go(b[static_cast<size_t>(i - 1)]); continue; }
            }
            auto st = s.w->ready().front();
            behind.ran(st);
            s.w->run_one(st);
            aborts.ran();
            c.step();
            check();
        }
        quiet_k();
    }
    void explore_k(int depth)
    {
        for(int i = 0; i < depth; ++i)
        {
            auto a = all_actions();
            if(a.empty()) break;
            go(a[static_cast<size_t>(c.choose(static_cast<int>(a.size()), "action"))]);
            settle_k();
        }
        if(dead || !cls.empty()) c.nontrivial();
        if(s.man)
        {
            if(s.chan && c.choose(2, "references")) s.chan.reset();
            c.note("-- the manager is destroyed, %s", s.chan ? "the application holds the channel" : "the application holds nothing");
            s.man.reset();
            rethrow();
            man_shut = true;
            settle_k();
        }
        auto& w = s.w;
        c.checked();
        if(w->pool_hang) c.fail("destroying the manager would never end: %s", w->hang_why.c_str());
        if(w->join_time > 10s) c.fail("destroying the manager takes %ld ms", ms(w->join_time));
        if(w->outstanding()) c.fail("%zu operations are outstanding after the manager was destroyed", w->outstanding());
        told();
        for(auto& u : attached) for(auto& x : u.second) if(x.s.use_count() > 1) c.fail("a session of unit %u is left after the manager was destroyed", u.first);
        w->incoming(502);
        w->drain();
        s.chan.reset();
        if(w->live_executors) c.fail("%ld channels are left after everything was released", w->live_executors);
        for(auto& x : w->sockets) if(x.lock()) c.fail("a socket is left after everything was released");
        for(auto* x : w->acceptors) if(x->open) c.fail("a listening socket is left after everything was released");
    }
};

} // namespace hw

#endif
