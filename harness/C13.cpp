// C13: scheduled requests poll as documented.
#include <deque>

#include "simworld.hpp"

using namespace hw;

namespace
{
enum : unsigned { EXC = 1, EOFS = 2, DOWN = 4, TICK = 8, PERIOD = 16, SHUT = 32, SHUT_SESSION = 64, REENTER = 128, APP = 256, MALFORMED = 512, RACES = 1024, FORGET = 2048 };

struct PollSim
{
    mc::Ctx& c;
    unsigned menu;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IClientChannel> chan;
    std::shared_ptr<modbus::IClientSession> s;

    // The reference: what each scheduled request should be doing.
    struct P
    {
        std::shared_ptr<modbus::IScheduledRequest> h;
        bool running = false;
        int cycle = 0;
        dur period{};
        time_p next = time_p::max();
        long sent = 0, outcomes = 0, wire = 0;
        int then = 0; // what its handler does the next time: 1 stop, 2 stop and start, 3 short period, 4 start
        // for races
        time_p last_outcome{}, last_tx{};
        dur min_period{};
        int credit = 0; // requests that may leave at once: one for each start of a stopped poll
        bool last_cmd_start = true;
    };
    struct Q { int poll; int cycle; };
    std::vector<P> ps;
    std::deque<Q> queue;             // requests sent and without outcome, in order (poll -1: an application request)
    size_t wire_seen = 0;
    sim::Conn* wire_conn = nullptr;
    uint8_t last_tid[2] = {0, 0}, last_fc = 3;
    bool unanswered = false, down = false, dead = false, session_dead = false;
    bool races;
    std::vector<size_t> seen;

    PollSim(mc::Ctx& ctx, unsigned m, int polls) : c(ctx), menu(m), races(m & RACES)
    {
        man = modbus::IModbusManager::create(null_logger(), 1);
        chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"plc", 502}, "", modbus::LoggingLevel::Critical);
        s = chan->create_session(UnitIdentifier{1}, 250ms);
        w->defer_aborts = true;
        ps.resize(static_cast<size_t>(polls));
        for(int i = 0; i < polls; ++i)
        {
            Req r;
            r.kind = i == 0 ? ref::ReadHolding : ref::ReadCoils;
            r.addr = static_cast<uint32_t>(10 + i);
            r.qty = 1;
            P& p = ps[static_cast<size_t>(i)];
            p.period = p.min_period = i ? dur{170ms} : dur{400ms};
            p.h = hw::schedule(*s, r, nullptr, p.period, [this, i](const Out& o) { outcome(i, o); });
            started(i);
        }
        if(menu & FORGET) { c.note("the application keeps only the scheduled requests"); s.reset(); chan.reset(); }
        drain();
    }
    ~PollSim() { for(auto& p : ps) p.h.reset(); s.reset(); chan.reset(); man.reset(); }

    void started(int i)
    {
        P& p = ps[static_cast<size_t>(i)];
        p.last_cmd_start = true;
        if(p.running) return;
        ++p.credit;
        p.running = true;
        ++p.cycle;
        p.next = time_p::max();
        send(i);
    }
    void stopped(int i)
    {
        P& p = ps[static_cast<size_t>(i)];
        p.running = false;
        p.last_cmd_start = false;
        p.next = time_p::max();
    }
    void send(int i)
    {
        P& p = ps[static_cast<size_t>(i)];
        if(dead) return;
        ++p.sent;
        queue.push_back({i, p.cycle});
    }
    void outcome(int i, const Out& o)
    {
        c.step();
        c.note("    poll %d: %s", i, o.str().c_str());
        c.observe(static_cast<uint64_t>(o.type));
        if(dead) c.fail("poll %d: its handler is called after the channel was shut down", i);
        if(i >= 0) ++ps[static_cast<size_t>(i)].outcomes;
        unanswered = false;
        // which request that was: of several failing at once the order does not matter
        int cycle = 0;
        bool found = false;
        if(o.type == 'C') { for(auto it = queue.rbegin(); it != queue.rend(); ++it) if(it->poll == i) { cycle = it->cycle; queue.erase(std::next(it).base()); found = true; break; } }
        else if(!queue.empty() && (races || queue.front().poll == i)) { for(auto it = queue.begin(); it != queue.end(); ++it) if(it->poll == i) { cycle = it->cycle; queue.erase(it); found = true; break; } }
        c.checked();
        if(!races && !found) c.fail("poll %d has an outcome (%s) that no request of it was waiting for", i, o.str().c_str());
        if(i < 0) return;
        P& p = ps[static_cast<size_t>(i)];
        p.last_outcome = w->now;
        if(o.type == 'T' && races) ++p.credit; // timed out while connecting, it may still leave
        if(p.running && cycle == p.cycle) p.next = w->now + p.period;
        const int then = p.then;
        p.then = 0;
        if(then) c.note("    its handler %s", then == 1 ? "stops it" : then == 2 ? "stops and starts it" : then == 3 ? "changes the period" : "starts it");
        if(then == 1 || then == 2) { p.h->stop(); stopped(i); }
        if(then == 2 || then == 4) { p.h->start(); started(i); }
        if(then == 3)
        {
            p.h->set_frequency(130ms);
            // the wait that follows this outcome has already been decided when the change takes effect
            p.period = 130ms;
            p.min_period = std::min(p.min_period, dur{130ms});
        }
    }
    void scan()
    {
        seen.resize(w->conns.size(), 0);
        for(size_t k = 0; k < w->conns.size(); ++k)
        {
            auto& tx = w->conns[k]->tx;
            while(tx.size() - seen[k] >= 12)
            {
                const uint8_t* b = tx.data() + seen[k];
                const int i = b[7] == 3 && b[9] == 10 ? 0 : b[7] == 1 && b[9] == 11 ? 1 : -1;
                seen[k] += 12;
                last_tid[0] = b[0];
                last_tid[1] = b[1];
                last_fc = b[7];
                unanswered = true;
                if(dead) c.fail("a request is transmitted after the channel was shut down");
                if(i < 0 || i >= static_cast<int>(ps.size())) { c.note("    the application's request leaves"); continue; }
                P& p = ps[static_cast<size_t>(i)];
                c.note("    poll %d leaves", i);
                c.observe(static_cast<uint64_t>(i) + 1000);
                c.observe(static_cast<uint64_t>(ms(w->now.time_since_epoch())));
                ++p.wire;
                c.checked();
                if(w->now - p.last_outcome < p.min_period && p.credit-- <= 0)
                    c.fail("poll %d is sent %ld ms after the outcome of its previous request; its period is %ld ms", i, ms(w->now - p.last_outcome), ms(p.min_period));
                p.last_tx = w->now;
            }
        }
    }
    std::shared_ptr<sim::Conn> conn()
    {
        for(auto& k : w->conns) if(k->alive()) return k;
        return nullptr;
    }
    // The network makes or refuses connections at once.
    bool network()
    {
        if(!w->resolves.empty()) { if(down) w->complete_resolve(asio::error::host_not_found); else w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); return true; }
        if(auto k = w->pending_connect()) { w->complete_connect(k, down ? asio::error_code{asio::error::connection_refused} : asio::error_code{}); return true; }
        return false;
    }
    void one()
    {
        w->run_one(w->ready().front());
        c.step();
        scan();
    }
    void drain()
    {
        do for(Aborts aborts; aborts.more(w, c, false);) one(); while(network());
        quiescent();
    }
    void quiescent()
    {
        scan();
        c.state();
        for(size_t i = 0; i < ps.size(); ++i)
        {
            P& p = ps[i];
            c.checked();
            if(!session_dead && !dead && !dead_pending && p.h->is_running() != p.last_cmd_start) c.fail("poll %zu reports %srunning after its last command was to %s", i, p.h->is_running() ? "" : "not ", p.last_cmd_start ? "start" : "stop");
            if(!dead && p.h->get_frequency() != p.period) c.fail("poll %zu reports the period %ld ms, it was set to %ld ms", i, ms(p.h->get_frequency()), ms(p.period));
            if(races || dead || dead_pending) continue;
            // a request waits only behind the one that is outstanding
            long waiting = 0;
            for(size_t q = 1; q < queue.size(); ++q) if(queue[q].poll == static_cast<int>(i)) ++waiting;
            if(p.wire > p.sent - waiting) c.fail("poll %zu has sent %ld requests, only %ld were due", i, p.wire, p.sent - waiting);
            if(p.wire < p.sent - waiting && !lost()) c.fail("poll %zu has sent %ld requests, %ld were due", i, p.wire, p.sent - waiting);
        }
    }
    // Requests may have failed without ever being transmitted.
    bool lost() const { return any_failure; }
    bool any_failure = false;

    void expire(const std::shared_ptr<sim::Timer>& t)
    {
        if(t->at > w->now) w->now = t->at;
        w->fire_due();
        // the reference: polls whose time has come
        if(!races) for(size_t i = 0; i < ps.size(); ++i) if(ps[i].running && ps[i].next <= w->now) { ps[i].next = time_p::max(); due.push_back(static_cast<int>(i)); }
    }
    std::vector<int> due;
    void settle_due()
    {
        for(int i : due) send(i);
        due.clear();
    }

    using Act = std::pair<std::string, std::function<void()>>;
    std::vector<Act> actions()
    {
        std::vector<Act> a;
        auto on = [&](unsigned m) { return (menu & m) != 0; };
        auto k = conn();
        if(!dead && !session_dead) for(size_t n = 0; n < ps.size(); ++n)
        {
            const int i = static_cast<int>(n);
            const std::string who = ps.size() > 1 ? " poll " + std::to_string(i) : "";
            a.emplace_back("start" + who, [this, i] { ps[static_cast<size_t>(i)].h->start(); started(i); });
            a.emplace_back("stop" + who, [this, i] { ps[static_cast<size_t>(i)].h->stop(); stopped(i); });
            if(on(PERIOD) && i == 0)
            {
                P& p = ps[0];
                const dur to = p.period == dur{100ms} ? dur{700ms} : dur{100ms};
                a.emplace_back("period " + std::to_string(ms(to)) + " ms", [this, to] { ps[0].h->set_frequency(to); ps[0].period = to; ps[0].min_period = std::min(ps[0].min_period, to); });
            }
            if(on(REENTER) && i == 0 && !ps[0].then)
                for(int t = 1; t <= 4; ++t) a.emplace_back(std::string{"the next handler call "} + (t == 1 ? "stops" : t == 2 ? "stops and starts" : t == 3 ? "changes the period" : "starts"), [this, t] { ps[0].then = t; });
        }
        if(k && unanswered)
        {
            a.emplace_back("response", [this, k] { answer(k); });
            if(on(EXC)) a.emplace_back("exception response", [this, k] { unanswered = false; k->deliver(ref::frame(static_cast<uint32_t>(last_tid[0] << 8 | last_tid[1]), 1, ref::exception_pdu(last_fc, 2))); });
        }
        if(k && unanswered && on(MALFORMED)) a.emplace_back("malformed response", [this, k] { unanswered = false; k->deliver(ref::frame(static_cast<uint32_t>(last_tid[0] << 8 | last_tid[1]), 1, {last_fc, 7, 1})); });
        if(k && on(EOFS)) a.emplace_back("the peer ends the stream", [this, k] { any_failure = true; k->peer_eof(); });
        if(on(DOWN)) a.emplace_back(down ? "the network is up" : "the network is down", [this, k] { down = !down; any_failure = true; if(down && k) k->peer_reset(asio::error::connection_reset); });
        if(on(APP) && !dead) a.emplace_back("the application sends a request", [this] {
            Req r;
            r.kind = ref::ReadInput;
            r.addr = 1;
            r.qty = 1;
            queue.push_back({-1, 0});
            hw::send(*s, r, nullptr, [this](const Out& o) { outcome(-1, o); });
        });
        if(auto t = w->next_timer())
        {
            a.emplace_back("time passes to the next timer", [this, t] { expire(t); });
            if(on(TICK)) a.emplace_back("40 ms pass", [this] { tick(40ms); });
        }
        if(on(SHUT) && !dead) a.emplace_back("the channel is shut down", [this] { chan->shutdown(); shutting = true; });
        if(on(SHUT_SESSION) && !session_dead && !dead) a.emplace_back("the session is shut down", [this] { s->shutdown(); for(size_t i = 0; i < ps.size(); ++i) stopped(static_cast<int>(i)); session_dead = true; });
        return a;
    }
    bool shutting = false;
    void answer(const std::shared_ptr<sim::Conn>& k)
    {
        unanswered = false;
        Bytes pdu = last_fc == 1 ? Bytes{1, 1, 1} : Bytes{last_fc, 2, 0x12, 0x34};
        k->deliver(ref::frame(static_cast<uint32_t>(last_tid[0] << 8 | last_tid[1]), 1, pdu));
    }
    void tick(dur d)
    {
        const auto target = w->now + d;
        while(auto t = w->next_timer())
        {
            if(t->at > target) break;
            expire(t);
            while(w->has_ready()) one();
            settle_due();
            while(network()) while(w->has_ready()) one();
            quiescent();
        }
        w->now = target;
    }
    void after()
    {
        settle_due();
        if(shutting) { shutting = false; dead_pending = true; }
        drain();
        if(dead_pending) { dead = true; dead_pending = false; }
    }
    bool dead_pending = false;
    void explore(int depth)
    {
        for(int i = 0; i < depth; ++i)
        {
            auto a = actions();
            if(a.empty()) break;
            auto& x = a[static_cast<size_t>(c.choose(static_cast<int>(a.size()), "action"))];
            c.note("%s", x.first.c_str());
            x.second();
            if(races)
                for(Aborts aborts; aborts.more(w, c);)
                {
                    if(c.can_deviate())
                    {
                        auto b = actions();
                        const int n = c.deviate(static_cast<int>(b.size()) + 1, "before the next handler");
                        if(n > 0) { c.note("%s", b[static_cast<size_t>(n - 1)].first.c_str()); b[static_cast<size_t>(n - 1)].second(); continue; }
                    }
                    one();
                    aborts.ran();
                }
            after();
        }
        c.nontrivial();
        finish();
    }
    // A cycle of `len` actions, repeated: what does not apply at the time is left out.
    void explore_cycle(int len, int repeats)
    {
        static const std::vector<std::string> names{"start", "stop", "period", "response", "exception response", "malformed response", "the peer ends the stream", "the application sends a request", "time passes to the next timer", "40 ms pass"};
        std::vector<std::string> cycle;
        for(int i = 0; i < len; ++i) cycle.push_back(names[static_cast<size_t>(c.choose(static_cast<int>(names.size()), "action of the cycle"))]);
        for(int i = 0; i < repeats; ++i)
            for(auto& n : cycle)
            {
                auto a = actions();
                for(auto& x : a) if(x.first.compare(0, n == "period" ? 6 : std::string::npos, n) == 0) { c.note("%s", x.first.c_str()); x.second(); after(); break; }
            }
        c.nontrivial();
        finish();
    }
    void finish()
    {
        if(dead || session_dead)
        {
            c.note("-- everything has been shut down");
            std::vector<long> sent;
            for(auto& p : ps) sent.push_back(p.wire);
            const bool was_dead = dead;
            for(int i = 0; i < 20; ++i)
            {
                if(!was_dead) if(auto k = conn()) if(unanswered) { answer(k); after(); }
                auto t = w->next_timer();
                if(!t) break;
                expire(t);
                after();
            }
            for(size_t i = 0; i < ps.size(); ++i) if(ps[i].wire != sent[i] && queue.empty() && was_dead) c.fail("poll %zu sends a request after the shutdown", i);
            c.checked();
            if(auto t = w->next_timer()) c.fail("a timer keeps running after the shutdown");
            return;
        }
        // With a quick device and no more commands, each poll runs at its period exactly, or not at all.
        c.note("-- a healthy device answers at once");
        down = false;
        for(auto& p : ps) p.then = 0;
        auto serve = [&] { for(int i = 0; i < 20; ++i) { drain(); auto k = conn(); if(k && unanswered) { answer(k); continue; } break; } };
        serve();
        // requests already waiting get their answers; a wait that has begun keeps its old period
        for(int i = 0; i < 6; ++i) if(auto t = w->next_timer()) { if(t->at > w->now + 1s) break; expire(t); while(w->has_ready()) one(); settle_due(); serve(); }
        for(auto& p : ps) p.min_period = p.period;
        std::vector<long> n0;
        for(auto& p : ps) n0.push_back(p.wire);
        std::vector<std::vector<time_p>> at(ps.size());
        const auto t0 = w->now;
        for(int i = 0; i < 60; ++i)
        {
            auto t = w->next_timer();
            if(!t || t->at > t0 + 2100ms) break;
            std::vector<long> n;
            for(auto& p : ps) n.push_back(p.wire);
            expire(t);
            while(w->has_ready()) one();
            settle_due();
            serve();
            for(size_t k = 0; k < ps.size(); ++k) for(long m = n[k]; m < ps[k].wire; ++m) at[k].push_back(w->now);
        }
        for(size_t i = 0; i < ps.size(); ++i)
        {
            P& p = ps[i];
            c.checked();
            if(!p.last_cmd_start)
            {
                if(!at[i].empty()) c.fail("poll %zu was stopped but still sends requests", i);
                continue;
            }
            const long want = 2100 / ms(p.period);
            if(static_cast<long>(at[i].size()) < want) c.fail("poll %zu is running with a period of %ld ms but sent %zu requests in 2100 ms", i, ms(p.period), at[i].size());
            for(size_t k = 1; k < at[i].size(); ++k)
            {
                c.checked();
                if(at[i][k] - at[i][k - 1] != p.period) c.fail("poll %zu: two requests are %ld ms apart, its period is %ld ms", i, ms(at[i][k] - at[i][k - 1]), ms(p.period));
            }
        }
    }
};
void run(mc::Ctx& c, unsigned menu, int polls, int depth) { PollSim s{c, menu, polls}; s.explore(depth); }

// Periods of every size: the next request leaves a whole period after the outcome of the previous one, and not later.
void sizes(mc::Ctx& c)
{
    static const dur all[]{0ns, 1ns, 1us, 999us, 1ms, 1500us, 7ms, 10ms, 999ms, 1s, 59s, 60s, 61s, 59min, 1h, 3h, 24h, 24h * 25, 24h * 50, 24h * 400};
    const int n = static_cast<int>(std::size(all));
    const dur a = all[c.choose(n, "period")], b = all[c.choose(n, "and then")];
    const int kind = c.choose(4, "kind"), answer = c.choose(4, "answers"); // data, exception, malformed, none
    Client x{c};
    const dur timeout = 3s;
    const bool own = c.choose(2, "timeout given by") == 1; // the session; the request
    auto s = x.session(1, own ? dur{9s} : timeout);
    Req q;
    q.kind = kind; q.addr = 5;
    if(ref::is_read(kind)) q.qty = 1; else q.vals = {1};
    int calls = 0;
    Out got;
    auto p = hw::schedule(*s, q, own ? &timeout : nullptr, a, [&](const Out& o) { ++calls; got = o; });
    x.settle();
    auto until = [&](time_p t) {
        for(auto m = x.w->next_timer(); m && m->at <= t; m = x.w->next_timer()) { if(m->at > x.w->now) x.w->now = m->at; x.w->fire_due(); x.w->drain(); if(m->at == x.w->now && a == 0ns && b == 0ns && calls > 100) break; }
        x.w->now = t;
    };
    int wire = 1;
    auto check = [&](bool cond, const char* what) { c.checked(); c.step(); if(!cond) c.fail("periods of %ld and %ld ns, poll %d: %s (%zu bytes sent, %d outcomes)", static_cast<long>(a.count()), static_cast<long>(b.count()), wire, what, x.conn->tx.size(), calls); };
    auto sent = [&] { size_t at = 0; ref::Frame f; int k = 0; while(ref::next_frame(x.conn->tx, at, f)) { ++k; at = f.end; } return k; };
    for(int i = 0; i < 6; ++i)
    {
        const dur period = i < 3 ? a : b;
        check(p->is_running(), "it does not report running");
        check(p->get_frequency() == period, "it reports another period");
        check(sent() == wire && calls == wire - 1, "the request did not leave when it was due");
        x.w->now += 20ms;
        if(i == 2) { p->set_frequency(b); x.w->drain(); }
        const dur next = i < 2 ? a : b;
        const uint32_t tid = static_cast<uint32_t>(wire - 1);
        const Bytes exc = ref::exception_pdu(ref::fc(kind), 2), data = ref::response_pdu(q, {1});
        if(answer == 3)
        {
            // (the deadline counts from when the request left)
            const auto t = x.w->next_timer();
            check(t && t->at == x.w->now + timeout - 20ms, "its response is not waited for as long as it should");
            x.w->now = t->at;
            x.w->fire_due();
        }
        else x.conn->deliver(ref::frame(tid, 1, answer == 0 ? data : answer == 1 ? exc : Bytes{data[0], 99}));
        // what becomes due now: the outcome, and after it (period 0) the next request
        while(x.w->has_ready()) x.w->run_one(x.w->ready().front());
        check(calls == wire, "the outcome was not told");
        check(got.type == (answer == 0 ? 'D' : answer == 1 ? 'E' : answer == 2 ? 'M' : 'T'), ("another outcome was told: " + got.str()).c_str());
        if(next > 0ns) { until(x.w->now + next - 1ns); check(sent() == wire && calls == wire, "the next request left too early"); x.w->now += 1ns; }
        x.w->fire_due();
        x.w->drain();
        ++wire;
    }
    check(sent() == wire, "the last request did not leave when it was due");
    p->stop();
    x.w->drain();
    until(x.w->now + 24h * 1000);
    check(sent() == wire, "a request left after the stop");
    check(!p->is_running(), "it reports running after the stop");
    c.nontrivial();
    c.observe(static_cast<uint64_t>(a.count()));
    c.observe(static_cast<uint64_t>(b.count()));
}

// Many scheduled requests on one session: all of them poll, and all of them end.
void many(mc::Ctx& c)
{
    static const int sizes[]{1, 2, 3, 5, 9, 16, 17, 33, 64, 65, 150};
    const int n = sizes[c.choose(11, "scheduled requests")];
    const int how = c.choose(4, "end"); // session, channel, manager, each one stopped
    const int when = c.choose(3, "when"); // all waiting for their time, one outstanding and some behind it, while the first is being connected
    Client x{c};
    auto s = x.session(1, 1h);
    struct P { std::shared_ptr<modbus::IScheduledRequest> h; int calls = 0; };
    std::deque<P> ps;
    for(int i = 0; i < n; ++i)
    {
        ps.emplace_back();
        P& p = ps.back();
        Req q;
        q.kind = i % 4; q.addr = static_cast<uint32_t>(i); q.qty = 1;
        p.h = hw::schedule(*s, q, nullptr, 1min, [&p](const Out&) { ++p.calls; });
    }
    struct End { std::deque<P>& p; std::shared_ptr<modbus::IClientSession>& s; ~End() { p.clear(); s.reset(); } } end{ps, s};
    std::vector<int> sent(static_cast<size_t>(n), 0);
    size_t at = 0;
    auto serve = [&](int most) {
        ref::Frame f;
        for(int k = 0; k < most && x.conn && x.conn->alive() && ref::next_frame(x.conn->tx, at, f); ++k)
        {
            at = f.end;
            const uint32_t i = f.pdu.size() < 3 ? 9999 : static_cast<uint32_t>(f.pdu[1] << 8 | f.pdu[2]);
            if(i >= sent.size()) c.fail("an unexpected request");
            ++sent[i];
            x.conn->deliver(ref::frame(f.tid, 1, f.pdu[0] <= 2 ? Bytes{f.pdu[0], 1, 1} : Bytes{f.pdu[0], 2, 0, 1}));
            x.w->drain();
            c.step();
        }
    };
    auto tell = [&](int want, const char* what) {
        for(int i = 0; i < n; ++i)
        {
            c.checked();
            if(ps[static_cast<size_t>(i)].calls != want) c.fail("%d polls, %s: the handler of poll %d was called %d times, expected %d", n, what, i, ps[static_cast<size_t>(i)].calls, want);
        }
    };
    if(when < 2)
    {
        x.settle();
        for(int round = 1; round < 4; ++round)
        {
            serve(n);
            tell(round, "each in turn");
            if(round == 3 && when == 0) break;
            x.w->advance(1min);
            if(round == 3) serve(n / 2);
        }
    }
    else { x.w->drain(); x.w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); x.w->drain(); }
    c.note("%d polls, end %d, at %d", n, how, when);
    std::vector<int> calls;
    for(auto& p : ps) if(!p.h->is_running()) c.fail("a poll does not report running");
    if(how == 0) s->shutdown();
    else if(how == 1) x.chan->shutdown();
    else if(how == 2) x.man->shutdown();
    else for(auto& p : ps) p.h->stop();
    x.w->drain();
    for(int i = 0; i < n; ++i) if((how == 0 || how == 3) && ps[static_cast<size_t>(i)].h->is_running()) c.fail("%d polls: poll %d reports running after the end", n, i);
    for(auto& p : ps) calls.push_back(p.calls);
    // what has been sent before may still be answered; nothing is sent anew
    const size_t before = x.conn ? x.conn->tx.size() : 0;
    if(how == 1 || how == 2)
    {
        x.w->advance(24h);
        c.checked(3);
        if(x.w->timers.size()) c.fail("%d polls: %zu timers are left after the shutdown", n, x.w->timers.size());
        if(x.conn && x.conn->tx.size() != before) c.fail("%d polls: a request is sent after the shutdown", n);
        for(int i = 0; i < n; ++i) if(ps[static_cast<size_t>(i)].calls != calls[static_cast<size_t>(i)]) c.fail("%d polls: the handler of poll %d is called after the shutdown", n, i);
    }
    else
    {
        x.settle();
        serve(n);
        x.settle();
        serve(n);
        x.w->drain();
        // those that were waiting have had their turn; from here on there is nothing
        const size_t then = x.conn->tx.size();
        for(int i = 0; i < n; ++i) calls[static_cast<size_t>(i)] = ps[static_cast<size_t>(i)].calls;
        for(int k = 0; k < 5; ++k) { x.w->advance(1min); serve(n); }
        c.checked(2);
        if(x.conn->tx.size() != then) c.fail("%d polls: a request is sent a minute after the end", n);
        for(int i = 0; i < n; ++i) if(ps[static_cast<size_t>(i)].calls != calls[static_cast<size_t>(i)]) c.fail("%d polls: the handler of poll %d is called after the end", n, i);
        if(!x.w->timers.empty()) c.fail("%d polls: %zu timers are left running", n, x.w->timers.size());
    }
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C13";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -2 : t == 1 ? 0 : 1;
        auto add = [&](const char* name, int dev, unsigned menu, int polls, int depth) {
            v.push_back({name, [=](mc::Ctx& c) { run(c, menu, polls, depth + d); }, dev, std::to_string(depth + d) + " actions"});
        };
        add("one poll", 0, TICK | PERIOD, 1, 7);
        add("one poll, every answer", 0, EXC | MALFORMED | EOFS | DOWN | PERIOD, 1, 5);
        add("one poll, handlers that call back", 0, REENTER | EOFS, 1, 6);
        add("one poll, application traffic", 0, APP | EOFS, 1, 6);
        add("one poll, shutdown", 0, SHUT | SHUT_SESSION | APP | EOFS, 1, 5);
        add("one poll, races", t == 1 ? 1 : 2, RACES | PERIOD, 1, 5);
        add("one poll, races with failures", t == 1 ? 1 : 2, RACES | EOFS | REENTER, 1, 4);
        if(t) add("one poll, two races", 2, RACES, 1, 4);
        add("two polls", 0, EOFS, 2, 6);
        add("two polls, races", 1, RACES, 2, 5);
        add("only the polls are kept", 0, FORGET | EOFS, 2, 5);
        v.push_back({"periods of every size", sizes, 0, "20 x 20 periods from 0 to 400 days, all kinds, all answers"});
        v.push_back({"many polls", many, 0, "1 to 150 scheduled requests on one session, ended in four ways at three moments"});
        const int len = t == 2 ? 4 : t ? 3 : 2, times = t == 2 ? 40 : t ? 15 : 4;
        v.push_back({"cycles", [=](mc::Ctx& c) { PollSim s{c, EXC | MALFORMED | EOFS | PERIOD | APP | TICK, 1}; s.explore_cycle(1 + c.choose(len, "length"), times); }, 0, "every cycle of up to " + std::to_string(len) + " actions, repeated " + std::to_string(times) + " times"});
    }
    o.rule = "Every sequence of the stated number of actions (start, stop, change the period, every kind of answer, end of stream, network loss, clock advances, shutdown of session or channel, handlers that themselves call start, stop or set_frequency) on one or two polls of the real library in the simulated network. Without races every request's time is compared with a reference that tracks each poll's cycle and next due time; with races (an action placed between queued handlers, up to the deviation bound) each request must be due to a start or be a whole period after the previous outcome. At the end a healthy device answers at once for 2.1 s: each running poll must then send at exactly its period and each stopped one nothing.";
    o.assumptions = {"asio, exe4cpp and ser4cpp are stand-ins written from their documentation", "one strand: handlers run one at a time", "a request that timed out while its connection was still being made may be transmitted once the connection is there"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
