// C11: timeouts fire on time, once, and late responses are ignored.
#include "clientsim_main.hpp"

using namespace hw;

// Timeouts of every size, given with the request or by the session, on a connection that is up or being made.
static void sizes(mc::Ctx& c)
{
    static const dur all[]{0ns, 1ns, 1us, 999us, 1ms, 1500us, 10ms, 999ms, 1s, 59s, 60s, 61s, 59min, 1h, 3h, 24h, 24h * 25, 24h * 50, 24h * 400};
    const dur a = all[c.choose(static_cast<int>(std::size(all)), "timeout")];
    const dur b = all[c.choose(static_cast<int>(std::size(all)), "the next one's")];
    const int how = c.choose(3, "given by"); // the request; the session; the session, and overridden by the request
    const int kind = c.choose(8, "kind");
    const bool up = c.choose(2, "connected") != 0, answered = c.choose(2, "answered just in time") != 0;
    Client x{c};
    auto s = x.session(1, how == 1 ? a : 7s), s2 = x.session(2, b);
    Req q;
    q.kind = kind; q.addr = 5;
    if(ref::is_read(kind)) q.qty = 1; else q.vals = {1};
    int calls = 0, calls2 = 0;
    Out got, got2;
    if(up)
    {
        int n = 0;
        const dur l = 1h;
        hw::send(*s, q, &l, [&](const Out&) { ++n; });
        x.settle();
        x.conn->deliver(ref::frame(0, 1, ref::response_pdu(q, {1})));
        x.settle();
        if(n != 1) c.fail("a first request got %d outcomes", n);
        x.w->now += 17min;
    }
    hw::send(*s, q, how == 1 ? nullptr : &a, [&](const Out& o) { ++calls; got = o; });
    hw::send(*s2, q, nullptr, [&](const Out& o) { ++calls2; got2 = o; });
    if(up) x.settle(); else x.w->drain();
    auto until = [&](time_p t) {
        for(auto n = x.w->next_timer(); n && n->at <= t; n = x.w->next_timer()) { if(n->at > x.w->now) x.w->now = n->at; x.w->fire_due(); x.w->drain(); }
        x.w->now = t;
    };
    const auto t0 = x.w->now;
    auto check = [&](bool cond, const char* what) { c.checked(); c.step(); if(!cond) c.fail("timeouts of %ld and %ld ms: %s (%d outcomes '%c', %d outcomes '%c')", ms(a), ms(b), what, calls, calls ? got.type : '-', calls2, calls2 ? got2.type : '-'); };
    if(a > 0ns)
    {
        until(t0 + a - 1ns);
        check(calls == 0 && calls2 == 0, "an outcome came before the timeout");
    }
    if(answered && up && a > 0ns)
    {
        x.conn->deliver(ref::frame(1, 1, ref::response_pdu(q, {1})));
        x.w->drain();
        check(calls == 1 && got.type == 'D', "the response did not win");
    }
    else { until(t0 + a); check(calls == 1 && got.type == 'T', "no timeout when it was due"); }
    const auto t1 = x.w->now;
    if(b > 0ns)
    {
        until(t1 + b - 1ns);
        check(calls == 1 && calls2 == 0, "the next request's outcome came before its timeout");
    }
    until(t1 + b);
    check(calls == 1 && calls2 == 1 && got2.type == 'T', "no timeout of the next request when it was due");
    until(t1 + b + 24h * 1000);
    check(calls == 1 && calls2 == 1, "something came later");
    c.nontrivial();
    c.observe(static_cast<uint64_t>(a.count()));
}

int main(int argc, char** argv)
{
    constexpr unsigned Menu = A_SEND | A_SEND2 | A_GOOD | A_TIME | A_TICK;
    mc::Options o;
    o.property = "C11";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -1 : t == 1 ? 1 : 2;
        auto add = [&](const char* name, int dev, std::string bounds, std::function<void(mc::Ctx&)> f) { v.push_back({name, std::move(f), dev, std::move(bounds)}); };
        const auto n = [](int x) { return std::to_string(x) + " actions"; };
        add("new channel", 0, n(6 + d), [=](mc::Ctx& c) { fresh(c, M11, 6 + d, Menu, 4); });
        add("busy", 0, n(5 + d), [=](mc::Ctx& c) { busy(c, M11, 5 + d, Menu | A_STALE, 2, 5); });
        add("busy, races", 2, n(4 + d), [=](mc::Ctx& c) { busy(c, M11, 4 + d, Menu, 2, 4); });
        add("busy, races, failures", 2, n(2 + d), [=](mc::Ctx& c) { busy(c, M11, 2 + d, Menu | A_STALE | A_EXC | A_BAD | A_EOF | A_FOLLOW, 2, 5); });
        add("connecting, races", 1, n(4 + d), [=](mc::Ctx& c) { connecting(c, M11, 4 + d, Menu | A_SLOW | A_FOLLOW | A_STALE, true, 4); });
        add("timeouts of every size", 0, "19 x 19 timeouts from 0 to 400 days, given by session or request, all kinds", sizes);
        add("cycles", 0, std::string{"every cycle of "} + (t == 2 ? "3" : "1 to 3") + " actions, repeated " + (t == 2 ? "100" : t ? "24" : "6") + " times", [=](mc::Ctx& c) { cycles(c, M11, t == 2 ? 3 : t ? 1 + c.choose(3, "length") : 1 + c.choose(2, "length"), t == 2 ? 100 : t ? 24 : 6, Menu | A_STALE | A_EOF | A_FOLLOW); });
        add("crowds", 0, "every cycle of 2 actions, repeated 300 times", [=](mc::Ctx& c) { cycles(c, M11, t ? 2 : 1, t ? 150 : 20, A_SEND | A_SEND2 | A_GOOD | A_TIME | A_EOF); });
    }
    o.rule = std::string{"Explored: "} + menu_text() + ". Monitored: no timeout before its time since the request's turn came, and none if a matching response arrived before it; every request has an outcome by its deadline; late responses are never delivered; no timer outlives its request.";
    o.assumptions = {"the socket, resolver and clock are simulated after asio's reactor on Linux; one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
