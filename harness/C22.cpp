// C22: custom timers run once, at their time, unless cancelled first.
#include <algorithm>

#include "simworld.hpp"

using namespace hw;

namespace
{
enum : unsigned { CANCEL = 1, DROP = 2, ABS = 4, TICK = 8, REQUESTS = 16, EFFECTS = 32, RACES = 64, TWO_SESSIONS = 128, SHUT = 256 };
enum Effect { Nothing, CancelFirst, CancelSelf, StartAnother, SendRequest, DropSelf };

struct TimerSim
{
    mc::Ctx& c;
    unsigned menu;
    size_t max_timers;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IClientChannel> chan;
    std::shared_ptr<modbus::IClientSession> s1, s2;
    std::shared_ptr<sim::Conn> conn;

    struct T
    {
        std::unique_ptr<modbus::ITimer> h;
        time_p at;
        Effect effect;
        bool queued = false, cancelled = false, touched = false; // cancelled: before it was queued; touched: cancel was called
        int runs = 0;
        long queue_pos = 0;
    };
    struct R { time_p sent; dur timeout; int calls = 0; Out out; };
    std::deque<T> ts;
    std::deque<R> rs;
    long queued_count = 0;
    bool in_start = false;

    TimerSim(mc::Ctx& ctx, unsigned m, size_t n) : c(ctx), menu(m), max_timers(n)
    {
        man = modbus::IModbusManager::create(null_logger(), 1);
        chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"10.0.0.1", 502}, "", modbus::LoggingLevel::Critical);
        s1 = chan->create_session(UnitIdentifier{1}, 120ms);
        s2 = chan->create_session(UnitIdentifier{2}, 120ms);
        settle();
    }
    ~TimerSim() { ts.clear(); s1.reset(); s2.reset(); chan.reset(); man.reset(); }

    void start(time_p at, bool relative, Effect e, int session)
    {
        const size_t id = ts.size();
        ts.emplace_back();
        ts.back().at = at;
        ts.back().effect = e;
        auto& s = session == 2 ? s2 : s1;
        auto action = [this, id] { ran(id); };
        in_start = true;
        ts.back().h = relative ? s->start(at - w->now, action) : s->start(at, action);
        in_start = false;
        check_expiry(id);
        mark();
    }
    void check_expiry(size_t id)
    {
        if(!ts[id].h || ts[id].touched) return;
        c.checked();
        const auto got = ts[id].h->expires_at();
        if(got != ts[id].at) c.fail("timer %zu reports its expiry %ld ms away, it was given %ld ms", id, ms(got - w->now), ms(ts[id].at - w->now));
    }
    // Timers whose time has come are queued now.
    void mark()
    {
        w->fire_due();
        std::vector<size_t> due;
        for(size_t i = 0; i < ts.size(); ++i) if(!ts[i].queued && !ts[i].cancelled && ts[i].at <= w->now) due.push_back(i);
        for(size_t i : due) { ts[i].queued = true; ts[i].queue_pos = ++queued_count; }
    }
    void ran(size_t id)
    {
        T& t = ts[id];
        c.note("    timer %zu runs", id);
        c.observe(id);
        c.observe(static_cast<uint64_t>(ms(w->now - time_p{})));
        ++t.runs;
        c.checked();
        if(in_start) c.fail("timer %zu ran inside the call that started it", id);
        if(t.runs > 1) c.fail("timer %zu ran twice", id);
        if(t.cancelled) c.fail("timer %zu ran although it had been cancelled before it was queued", id);
        if(w->now < t.at) c.fail("timer %zu ran %ld ms early", id, ms(t.at - w->now));
        switch(t.effect)
        {
        case CancelFirst: for(size_t i = 0; i < ts.size(); ++i) if(i != id) { cancel(i); break; } break;
        case CancelSelf: cancel(id); break;
        case StartAnother: c.note("    and starts another"); start(w->now + 40ms, true, Nothing, 1); break;
        case SendRequest: request(); break;
        case DropSelf: drop(id); break;
        default: break;
        }
    }
    void cancel(size_t id)
    {
        T& t = ts[id];
        if(!t.h) return;
        c.note("    timer %zu is cancelled", id);
        check_expiry(id);
        t.touched = true;
        t.h->cancel();
        if(!t.queued) t.cancelled = true;
    }
    void drop(size_t id) { ts[id].h.reset(); }
    void request()
    {
        const size_t id = rs.size();
        rs.push_back({w->now, dur{120ms}, 0, {}});
        Req r;
        r.kind = ref::ReadHolding;
        r.addr = 1;
        r.qty = 1;
        hw::send(*s1, r, nullptr, [this, id](const Out& o) {
            R& x = rs[id];
            c.note("    request %zu: %s", id, o.str().c_str());
            c.observe(static_cast<uint64_t>(o.type) + id);
            ++x.calls;
            x.out = o;
            c.checked();
            if(x.calls > 1) c.fail("a request has two outcomes");
            if(o.type == 'T' && w->now < x.sent + x.timeout) c.fail("a request timed out %ld ms early", ms(x.sent + x.timeout - w->now));
        });
    }
    void one()
    {
        w->run_one(w->ready().front());
        c.step();
    }
    bool network()
    {
        if(!w->resolves.empty()) { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); return true; }
        if(auto s = w->pending_connect()) { conn = w->complete_connect(s, {}); return true; }
        return false;
    }
    void settle()
    {
        do while(w->has_ready()) one(); while(network());
        c.state();
        for(size_t i = 0; i < ts.size(); ++i)
        {
            c.checked();
            if(ts[i].queued && ts[i].runs != 1 && !ts[i].cancelled) c.fail("timer %zu expired but did not run", i);
            if(!ts[i].queued && ts[i].runs) c.fail("timer %zu ran before it expired", i);
            check_expiry(i);
        }
    }
    // Advances the clock, stopping at every timer on the way.
    void to(time_p target)
    {
        while(auto t = w->next_timer())
        {
            if(t->at > target) break;
            if(t->at > w->now) w->now = t->at;
            mark();
            settle();
        }
        if(target > w->now) w->now = target;
        mark();
    }
    using Act = std::pair<std::string, std::function<void()>>;
    std::vector<Act> actions(bool quiet)
    {
        std::vector<Act> a;
        auto on = [&](unsigned m) { return (menu & m) != 0; };
        if(ts.size() < max_timers)
        {
            a.emplace_back("start a timer for 100 ms", [this] { start(w->now + 100ms, true, Nothing, 1); });
            a.emplace_back("start a timer for 60 ms", [this] { start(w->now + 60ms, true, Nothing, 1); });
            if(on(TWO_SESSIONS)) a.emplace_back("start a timer for 100 ms on the other session", [this] { start(w->now + 100ms, true, Nothing, 2); });
            if(on(ABS))
            {
                a.emplace_back("start a timer for the time in 60 ms", [this] { start(w->now + 60ms, false, Nothing, 1); });
                a.emplace_back("start a timer for 0 ms", [this] { start(w->now, true, Nothing, 1); });
                a.emplace_back("start a timer for a time that has passed", [this] { start(w->now - 50ms, false, Nothing, 1); });
            }
            if(on(EFFECTS))
            {
                a.emplace_back("start a timer for 60 ms that cancels another", [this] { start(w->now + 60ms, true, CancelFirst, 1); });
                a.emplace_back("start a timer for 60 ms that cancels itself", [this] { start(w->now + 60ms, true, CancelSelf, 1); });
                a.emplace_back("start a timer for 60 ms that starts another", [this] { start(w->now + 60ms, true, StartAnother, 1); });
                a.emplace_back("start a timer for 60 ms that drops its handle", [this] { start(w->now + 60ms, true, DropSelf, 1); });
                if(on(REQUESTS)) a.emplace_back("start a timer for 60 ms that sends a request", [this] { start(w->now + 60ms, true, SendRequest, 1); });
            }
        }
        for(size_t i = 0; i < ts.size(); ++i) if(ts[i].h)
        {
            if(on(CANCEL)) a.emplace_back("cancel timer " + std::to_string(i), [this, i] { cancel(i); });
            if(on(DROP)) a.emplace_back("drop the handle of timer " + std::to_string(i), [this, i] { drop(i); });
        }
        if(on(REQUESTS) && rs.size() < 2)
        {
            a.emplace_back("send a request", [this] { request(); });
            if(!rs.empty() && conn && conn->alive() && conn->tx.size() >= 12 * (answered + 1))
                a.emplace_back("response", [this] { const uint8_t* b = conn->tx.data() + 12 * answered++; conn->deliver(ref::frame(static_cast<uint32_t>(b[0] << 8 | b[1]), 1, {3, 2, 1, 2})); });
        }
        if(auto t = w->next_timer()) a.emplace_back("time passes to the next timer", [this, t] { if(t->at > w->now) w->now = t->at; mark(); });
        if(on(TICK) && quiet) a.emplace_back("60 ms pass", [this] { to(w->now + 60ms); });
        if(on(TICK) && quiet) a.emplace_back("60 ms pass at once", [this] { w->now += 60ms; mark(); });
        return a;
    }
    size_t answered = 0;
    void explore(int depth)
    {
        for(int i = 0; i < depth; ++i)
        {
            auto a = actions(true);
            if(a.empty()) break;
            auto& x = a[static_cast<size_t>(c.choose(static_cast<int>(a.size()), "action"))];
            c.note("%s", x.first.c_str());
            x.second();
            while(w->has_ready())
            {
                if((menu & RACES) && c.can_deviate())
                {
                    auto b = actions(false);
                    const int n = c.deviate(static_cast<int>(b.size()) + 1, "before the next handler");
                    if(n > 0) { c.note("%s", b[static_cast<size_t>(n - 1)].first.c_str()); b[static_cast<size_t>(n - 1)].second(); continue; }
                }
                one();
            }
            settle();
        }
        if(!ts.empty()) c.nontrivial();
        if((menu & SHUT) && c.choose(2, "shut down")) { c.note("-- the channel is shut down"); chan->shutdown(); settle(); rs.clear(); }
        c.note("-- time passes");
        to(w->now + 1s);
        settle();
        for(size_t i = 0; i < ts.size(); ++i)
        {
            c.checked();
            if(ts[i].runs != (ts[i].queued ? 1 : 0)) c.fail("timer %zu ran %d times", i, ts[i].runs);
            if(!ts[i].queued && !ts[i].cancelled) c.fail("timer %zu never expired", i);
        }
        for(auto& r : rs) { c.checked(); if(r.calls != 1) c.fail("a request has %d outcomes", r.calls); }
    }
};
void run(mc::Ctx& c, unsigned menu, size_t n, int depth) { TimerSim s{c, menu, n}; s.explore(depth); }

// Times of every size, alone and beside a second timer; the first one left alone, or cancelled just before its time.
void sizes(mc::Ctx& c)
{
    static const dur all[]{0ns, 1ns, 1us, 999us, 1ms, 1500us, 10ms, 999ms, 1s, 60s, 61s, 59min, 1h, 3h, 24h, 24h * 25, 24h * 50, 24h * 400};
    const int n = static_cast<int>(std::size(all));
    const dur a = all[c.choose(n, "time")], b = all[c.choose(n, "the other's")];
    const bool absolute = c.choose(2, "given as a time") != 0, cancel = c.choose(2, "cancelled just before") != 0;
    Client x{c};
    auto s = x.session(1);
    x.w->now += 17min;
    const auto t0 = x.w->now;
    int runs = 0, runs2 = 0;
    auto t = absolute ? s->start(time_p{t0 + a}, [&] { ++runs; }) : s->start(dur{a}, [&] { ++runs; });
    auto t2 = absolute ? s->start(dur{b}, [&] { ++runs2; }) : s->start(time_p{t0 + b}, [&] { ++runs2; });
    auto check = [&](bool cond, const char* what) { c.checked(); c.step(); if(!cond) c.fail("timers of %ld and %ld ns: %s (%d and %d runs)", static_cast<long>(a.count()), static_cast<long>(b.count()), what, runs, runs2); };
    check(t->expires_at() == t0 + a && t2->expires_at() == t0 + b, "an expiry is reported wrong");
    check(runs == 0 && runs2 == 0, "it ran inside start");
    auto until = [&](time_p p) {
        for(auto m = x.w->next_timer(); m && m->at <= p; m = x.w->next_timer()) { if(m->at > x.w->now) x.w->now = m->at; x.w->fire_due(); x.w->drain(); }
        x.w->now = p;
        x.w->fire_due();
        x.w->drain();
    };
    bool cancelled = false;
    if(a > 0ns)
    {
        until(t0 + a - 1ns);
        check(runs == 0 && runs2 == (b < a ? 1 : 0), "something ran early or late");
        if(cancel) { t->cancel(); cancelled = true; }
    }
    until(t0 + a);
    check(runs == (cancelled ? 0 : 1) && runs2 == (b <= a ? 1 : 0), "something ran early or late");
    if(b > a) { until(t0 + b - 1ns); check(runs2 == 0, "the other ran early"); }
    until(std::max(t0 + a, t0 + b));
    check(runs2 == 1, "the other did not run when it was due");
    until(x.w->now + 24h * 1000);
    check(runs == (cancelled ? 0 : 1) && runs2 == 1, "something ran again");
    c.nontrivial();
    c.observe(static_cast<uint64_t>(a.count()));
}
// Many timers, started in an order and cancelled by a pattern; and one after the other.
void crowd(mc::Ctx& c, int n)
{
    const int order = c.choose(4, "times"), pattern = c.choose(6, "cancelled"), early = c.choose(2, "cancelled before the first expires"), sessions = 1 + c.choose(2, "sessions");
    Client x{c};
    std::vector<std::shared_ptr<modbus::IClientSession>> ss;
    for(int i = 0; i < sessions; ++i) ss.push_back(x.session(static_cast<unsigned>(1 + i)));
    const auto t0 = x.w->now;
    std::vector<std::unique_ptr<modbus::ITimer>> ts;
    std::vector<int> runs(static_cast<size_t>(n)), order_run;
    auto at = [&](int i) -> dur { return order == 0 ? (i + 1) * 10ms : order == 1 ? (n - i) * 10ms : order == 2 ? dur{50ms} : ((i * 37) % n + 1) * 10ms; };
    auto cancelled = [&](int i) { return pattern == 1 ? i % 2 == 0 : pattern == 2 ? i % 2 == 1 : pattern == 3 ? i >= n / 2 : pattern == 4 ? i != n / 2 : pattern == 5; };
    for(int i = 0; i < n; ++i) ts.push_back(ss[static_cast<size_t>(i % sessions)]->start(dur{at(i)}, [&, i] { ++runs[static_cast<size_t>(i)]; order_run.push_back(i); c.step(); }));
    if(early) for(int i = 0; i < n; ++i) if(cancelled(i)) ts[static_cast<size_t>(i)]->cancel();
    for(auto m = x.w->next_timer(); m; m = x.w->next_timer())
    {
        if(m->at > x.w->now) x.w->now = m->at;
        x.w->fire_due();
        x.w->drain();
        for(int i = 0; i < n; ++i)
        {
            const int want = t0 + at(i) <= x.w->now && !(early && cancelled(i)) ? 1 : 0;
            c.checked();
            if(runs[static_cast<size_t>(i)] != want) c.fail("%ld ms in, timer %d of %d (for %ld ms) has run %d times", ms(x.w->now - t0), i, n, ms(at(i)), runs[static_cast<size_t>(i)]);
        }
    }
    if(!early) for(int i = 0; i < n; ++i) if(cancelled(i)) ts[static_cast<size_t>(i)]->cancel();
    x.w->drain();
    for(int i = 0; i < n; ++i) { c.checked(); if(runs[static_cast<size_t>(i)] != (early && cancelled(i) ? 0 : 1)) c.fail("timer %d of %d has run %d times", i, n, runs[static_cast<size_t>(i)]); }
    for(size_t k = 1; k < order_run.size(); ++k) if(at(order_run[k]) < at(order_run[k - 1])) c.fail("timers ran out of order");
    // one after the other
    int left = n;
    std::vector<std::unique_ptr<modbus::ITimer>> chain;
    std::function<void()> next = [&] { if(--left > 0) chain.push_back(ss[0]->start(dur{1ms}, next)); };
    const auto t1 = x.w->now;
    chain.push_back(ss[0]->start(dur{1ms}, next));
    for(auto m = x.w->next_timer(); m; m = x.w->next_timer()) { if(m->at > x.w->now) x.w->now = m->at; x.w->fire_due(); x.w->drain(); }
    c.checked();
    if(left != 0 || x.w->now - t1 != n * 1ms) c.fail("of a chain of %d timers %d are left after %ld ms", n, left, ms(x.w->now - t1));
    c.nontrivial();
    c.observe(static_cast<uint64_t>(order * 8 + pattern));
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C22";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -2 : t == 1 ? 1 : 2;
        auto add = [&](const char* name, int dev, unsigned menu, size_t n, int depth) {
            v.push_back({name, [=](mc::Ctx& c) { run(c, menu, n, depth + d); }, dev, std::to_string(depth + d) + " actions, at most " + std::to_string(n) + " timers started by the application"});
        };
        add("timers", 0, CANCEL | DROP | TICK, 3, 6);
        add("timers of every kind", 0, CANCEL | ABS | TICK | TWO_SESSIONS, 3, 5);
        add("timers whose actions act", 0, CANCEL | DROP | EFFECTS | TICK, 3, 5);
        add("timers and requests", 0, CANCEL | DROP | REQUESTS | TICK | SHUT, 2, 6);
        add("timers and requests, actions that act", 0, CANCEL | REQUESTS | EFFECTS, 3, 5);
        add("races", 2, CANCEL | DROP | RACES, 3, 5);
        add("races, actions that act", 1, CANCEL | DROP | RACES | EFFECTS | REQUESTS, 3, 4);
        add("races of every kind", 1, CANCEL | ABS | RACES | TICK | TWO_SESSIONS, 3, 4);
        v.push_back({"times of every size", sizes, 0, "18 x 18 times from 0 to 400 days, relative and absolute"});
        const int n = t == 2 ? 1000 : t ? 200 : 40;
        v.push_back({"crowds", [=](mc::Ctx& c) { crowd(c, n); }, 0, std::to_string(n) + " timers in 4 orders, cancelled in 6 patterns"});
    }
    o.rule = "Every sequence of the stated number of actions on timers started through client sessions of the real library: starting (relative, absolute, zero, already past, on either of two sessions; with an action that does nothing, cancels another timer or itself, starts another, sends a request or drops its handle), cancelling (also twice and after expiry), dropping the handle, sending requests, responses, and clock advances; in the race scenarios an action is also placed between queued handlers. A reference tracks for each timer whether it was queued or cancelled first; expires_at is read after every step until the timer is cancelled.";
    o.assumptions = {"asio and exe4cpp are stand-ins written from their documentation", "a timer counts as queued as soon as the clock reaches its expiry"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
