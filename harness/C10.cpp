// C10: one outstanding request, in order, matched strictly.
#include "clientsim_main.hpp"

using namespace hw;

// A request is outstanding and frames with every other transaction identifier, or for every other unit, come in.
static void foreign(mc::Ctx& c)
{
    static const unsigned units[]{0, 1, 2, 17, 128, 247, 248, 255};
    static const unsigned tids[]{0, 1, 255, 256, 4660, 65535};
    const unsigned unit = units[c.choose(8, "unit")], tid = tids[c.choose(6, "transaction")];
    const int kind = c.choose(3, "response") ; // data, exception, malformed
    Client x{c};
    auto s = x.session(unit, 1h), other = x.session(unit ^ 1, 1h);
    Req q;
    q.kind = ref::ReadHolding; q.addr = 5; q.qty = 1;
    auto answer = [&](unsigned t, unsigned u, int k, uint16_t v) { x.conn->deliver(ref::frame(t, u, k == 0 ? ref::response_pdu(q, {v}) : k == 1 ? ref::exception_pdu(3, 2) : Bytes{3, 2, 1})); x.settle(); };
    int calls = 0;
    Out got;
    auto h = [&](const Out& o) { ++calls; got = o; };
    for(unsigned i = 0; i < tid; ++i)
    {
        hw::send(i % 3 ? *s : *other, q, nullptr, h);
        x.settle();
        answer(i, i % 3 ? unit : unit ^ 1, 0, 1);
        if(calls != static_cast<int>(i) + 1 || got.type != 'D') c.fail("request %u got %d outcomes", i, calls);
    }
    calls = 0;
    hw::send(*s, q, nullptr, h);
    x.settle();
    auto none = [&](unsigned t, unsigned u) { c.checked(); c.step(); if(calls) c.fail("a frame for transaction %u and unit %u was taken for the response to transaction %u of unit %u", t, u, tid, unit); };
    for(unsigned u = 0; u < 256; ++u) if(u != unit) { answer(tid, u, kind, 2); none(tid, u); }
    for(unsigned t = 0; t < 65536; ++t) if(t != tid) { answer(t, unit, kind, 3); none(t, unit); }
    for(unsigned u = 0; u < 256; ++u) if(u != unit) { answer(tid ^ (u ^ unit), u, kind, 4); none(tid ^ (u ^ unit), u); answer(u, tid & 0xFF, kind, 4); if(u != tid || unit != (tid & 0xFF)) none(u, tid & 0xFF); }
    answer(tid, unit, kind, 5);
    c.checked();
    if(calls != 1 || got.type != "DEM"[kind] || (kind == 0 && got.data != std::vector<uint32_t>{5, 5})) c.fail("the response to transaction %u of unit %u gave %d outcomes, '%c'", tid, unit, calls, calls ? got.type : '-');
    c.nontrivial();
    c.observe(unit * 65536 + tid);
}

int main(int argc, char** argv)
{
    constexpr unsigned Menu = A_SEND | A_SEND2 | A_GOOD | A_EOF | A_TIME;
    mc::Options o;
    o.property = "C10";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -1 : t == 1 ? 1 : 2;
        auto add = [&](const char* name, int dev, std::string bounds, std::function<void(mc::Ctx&)> f) { v.push_back({name, std::move(f), dev, std::move(bounds)}); };
        const auto n = [](int x) { return std::to_string(x) + " actions"; };
        add("new channel", 0, n(7 + d), [=](mc::Ctx& c) { fresh(c, M10, 7 + d, Menu | A_SLOW, 4); });
        add("busy, foreign frames", 0, n(4 + d), [=](mc::Ctx& c) { busy(c, M10, 4 + d, Menu | A_TID | A_UNIT | A_STALE | A_EARLY | A_DOUBLE | A_HALF | A_EXC | A_BAD, 2, 5); });
        add("busy, foreign frames, races", 1, n(3 + d), [=](mc::Ctx& c) { busy(c, M10, 3 + d, Menu | A_TID | A_UNIT | A_STALE | A_EARLY | A_DOUBLE | A_HALF, 2, 5); });
        add("connecting, slow sockets", 0, n(5 + d), [=](mc::Ctx& c) { connecting(c, M10, 5 + d, Menu | A_SLOW | A_STALE | A_EARLY, true, 5); });
        add("connecting, slow sockets, races", 2, n(3 + d), [=](mc::Ctx& c) { connecting(c, M10, 3 + d, Menu | A_SLOW | A_RESET, true, 4); });
        add("busy, races", 2, n(3 + d), [=](mc::Ctx& c) { busy(c, M10, 3 + d, Menu | A_EARLY | A_STALE | A_FOLLOW, 2, 5); });
        if(t) add("foreign identifiers", 0, "a request to 8 units with 6 transaction identifiers outstanding; frames with all other 255 units, all other 65535 transactions, and both", foreign);
        add("cycles", 0, std::string{"every cycle of "} + (t == 2 ? "3" : "1 to 3") + " actions, repeated " + (t == 2 ? "100" : t ? "24" : "6") + " times", [=](mc::Ctx& c) { cycles(c, M10, t == 2 ? 3 : t ? 1 + c.choose(3, "length") : 1 + c.choose(2, "length"), t == 2 ? 100 : t ? 24 : 6, Menu | A_SLOW | A_STALE | A_DOUBLE | A_HALF | A_TID | A_RESET); });
        add("crowds", 0, "every cycle of 2 actions, repeated 300 times", [=](mc::Ctx& c) { cycles(c, M10, t ? 2 : 1, t ? 150 : 20, A_SEND | A_SEND2 | A_GOOD | A_TIME | A_EOF); });
    }
    o.rule = std::string{"Explored: "} + menu_text() + ". Monitored: every byte that leaves belongs to a complete frame of a request, each request leaves at most once, in the order of sending, never while an earlier one awaits its outcome; data is delivered only from a frame with the identifiers of the request that arrived on its connection after it was transmitted";
    o.assumptions = {"the socket, resolver and clock are simulated after asio's reactor on Linux; one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
