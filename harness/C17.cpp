// C17: requests reach exactly the session attached for their unit; what it answers is what the client sees.
#include "serversim_main.hpp"

using namespace hw;
using mc::Ctx;

namespace
{

struct Bench : Server
{
    std::shared_ptr<sim::Conn> k;
    uint32_t tid = 1;
    explicit Bench(Ctx& ctx) : Server(ctx) { k = connect(); if(!k) c.fail("a started server does not listen"); }
    Bytes ask(unsigned unit, const Bytes& pdu)
    {
        k->tx.clear();
        k->tx_marks.clear();
        k->deliver(ref::frame(++tid, unit, pdu));
        w->drain();
        c.step();
        return k->tx;
    }
    void expect(unsigned unit, const Bytes& request, const Bytes& pdu)
    {
        const Bytes got = ask(unit, request);
        c.checked();
        c.observe(got.size());
        const Bytes want = pdu.empty() ? Bytes{} : ref::frame(tid, unit, pdu);
        if(got != want) c.fail("unit %u, request %s: answered by '%s', expected '%s'", unit, ref::hex(request).c_str(), ref::hex(got).c_str(), ref::hex(want).c_str());
    }
};
Req some(int k, uint32_t addr = 10, uint32_t n = 2)
{
    Req r;
    r.kind = k;
    r.addr = addr;
    r.qty = n;
    if(!ref::is_read(k)) for(uint32_t i = 0; i < (ref::is_single(k) ? 1 : n); ++i) r.vals.push_back(static_cast<uint16_t>(ref::is_bits(k) ? i % 2 : 1000 + i));
    return r;
}

// Every unit on its own: its session and no other is asked; nobody else answers. `set`: which units have sessions.
void units(Ctx& c)
{
    const int set = c.choose(6, "units with a session");
    Bench b{c};
    const bool late = c.choose(2, "sessions attached after the client connected") != 0;
    std::vector<std::shared_ptr<RecSession>> s(256);
    auto has = [&](unsigned u) { return set == 0 || (set == 1 && u % 2) || (set == 2 && u == 0) || (set == 3 && u == 255) || (set == 4 && u == 1) || (set == 5 && u % 3 == 2); };
    auto attach = [&] { for(unsigned u = 0; u < 256; ++u) if(has(u)) s[u] = b.add(u, u + 5); b.w->drain(); };
    if(!late) attach();
    if(late) { for(unsigned u = 0; u < 256; ++u) b.expect(u, ref::request_pdu(some(ref::ReadHolding)), {}); attach(); }
    uint32_t salt = 5;
    for(int round = 0; round < 3; ++round)
    {
        for(unsigned u = 0; u < 256; ++u)
        {
            const Req r = some(static_cast<int>(u) % ref::Kinds, u * 7);
            b.expect(u, ref::request_pdu(r), has(u) ? session_pdu(r, {}, u + salt) : Bytes{});
            for(unsigned x = 0; x < 256; ++x)
            {
                if(!s[x]) continue;
                const size_t want = x == u ? 1 : 0;
                if(s[x]->asked.size() != want) c.fail("a request for unit %u asks the session of unit %u %zu times", u, x, s[x]->asked.size());
                s[x]->asked.clear();
            }
            // an unknown function and an impossible request to the same unit: answered only if there is a session
            b.expect(u, {0x11}, has(u) ? ref::exception_pdu(0x11, 1) : Bytes{});
            b.expect(u, {3, 0, 0, 0, 0}, has(u) ? ref::exception_pdu(3, 3) : Bytes{});
            if(s[u] && !s[u]->asked.empty()) c.fail("unit %u: the session was asked for a request it cannot answer", u);
        }
        // all but the first are replaced
        salt += 300;
        for(unsigned u = 0, n = 0; u < 256; ++u) if(has(u)) { if(n++ || round) s[u] = b.add(u, u + salt); else { s[u]->salt = u + salt; } }
        b.w->drain();
    }
    c.nontrivial();
}

// A session that overrides only the functions in `mask`.
struct Partial : modbus::IServerSession
{
    RecSession inner;
    unsigned mask = 0;
    template<typename Q> auto go(int k, const Q& q) { using R = decltype(inner.on_request(q)); return (mask >> k & 1) ? inner.on_request(q) : R{modbus::IServerSession::on_request(q)}; }
    modbus::Expected<modbus::ReadCoilsResponse> on_request(const modbus::ReadCoilsRequest& q) override { return go(ref::ReadCoils, q); }
    modbus::Expected<modbus::ReadDiscreteInputsResponse> on_request(const modbus::ReadDiscreteInputsRequest& q) override { return go(ref::ReadDiscrete, q); }
    modbus::Expected<modbus::ReadHoldingRegistersResponse> on_request(const modbus::ReadHoldingRegistersRequest& q) override { return go(ref::ReadHolding, q); }
    modbus::Expected<modbus::ReadInputRegistersResponse> on_request(const modbus::ReadInputRegistersRequest& q) override { return go(ref::ReadInput, q); }
    modbus::Expected<modbus::WriteSingleCoilResponse> on_request(const modbus::WriteSingleCoilRequest& q) override { return go(ref::WriteCoil, q); }
    modbus::Expected<modbus::WriteSingleRegisterResponse> on_request(const modbus::WriteSingleRegisterRequest& q) override { return go(ref::WriteReg, q); }
    modbus::Expected<modbus::WriteMultipleCoilsResponse> on_request(const modbus::WriteMultipleCoilsRequest& q) override { return go(ref::WriteCoils, q); }
    modbus::Expected<modbus::WriteMultipleRegistersResponse> on_request(const modbus::WriteMultipleRegistersRequest& q) override { return go(ref::WriteRegs, q); }
};
struct Nothing : modbus::IServerSession { };
struct OneOnly : modbus::IServerSession
{
    using modbus::IServerSession::on_request;
    modbus::Expected<modbus::ReadInputRegistersResponse> on_request(const modbus::ReadInputRegistersRequest& q) override
    {
        modbus::ReadInputRegistersResponse r;
        for(uint32_t i = 0; i < q.qty_of_registers; ++i) r.values.push_back({static_cast<modbus::Address>(q.starting_address + i), static_cast<uint16_t>(q.starting_address + i)});
        return modbus::Expected<modbus::ReadInputRegistersResponse>{r};
    }
};
// Every subset of implemented functions; those not implemented answer illegal function.
void unimplemented(Ctx& c)
{
    const unsigned mask = static_cast<unsigned>(c.choose(256, "functions implemented"));
    Bench b{c};
    auto s = std::make_shared<Partial>();
    s->mask = mask;
    b.chan->add_session(UnitIdentifier{9}, s);
    b.chan->add_session(UnitIdentifier{10}, std::make_shared<Nothing>());
    b.chan->add_session(UnitIdentifier{11}, std::make_shared<OneOnly>());
    b.w->drain();
    for(int k = 0; k < ref::Kinds; ++k) for(uint32_t n : {1u, 2u, 9u}) for(uint32_t a : {0u, 300u, 65500u})
    {
        const Req r = some(k, a, n);
        const Bytes pdu = ref::request_pdu(r), no = ref::exception_pdu(ref::fc(k), 1);
        b.expect(9, pdu, (mask >> k & 1) ? session_pdu(r, {}, 0) : no);
        b.expect(10, pdu, no);
        std::vector<uint16_t> v;
        for(uint32_t i = 0; i < n; ++i) v.push_back(static_cast<uint16_t>(a + i));
        b.expect(11, pdu, k == ref::ReadInput ? ref::response_pdu(r, v) : no);
    }
    c.nontrivial();
}
// Whatever Modbus exception a session returns is what the client sees; another error is no answer.
void exceptions(Ctx& c)
{
    const int k = c.choose(ref::Kinds, "function");
    Bench b{c};
    auto s = b.add(9, 1);
    b.w->drain();
    for(int code = 0; code < 256; ++code) for(uint32_t n : {1u, 2u, ref::max_qty(k)})
    {
        if(ref::is_single(k) && n > 1) continue;
        s->reply = {Reply::Exception, code};
        const Req r = some(k, 40, n);
        b.expect(9, ref::request_pdu(r), ref::exception_pdu(ref::fc(k), code));
        s->reply = {Reply::Other, 0};
        b.expect(9, ref::request_pdu(r), {});
        s->reply = {};
        b.expect(9, ref::request_pdu(r), session_pdu(r, {}, 1));
    }
    c.nontrivial();
}
// A session that does more than answer: it attaches its own successor, for its own or another unit, while it is
// being asked. The request it was asked is answered by it; the ones after go to the successor.
void successor(Ctx& c)
{
    const unsigned other = c.choose(2, "successor for another unit") ? 8 : 7;
    const bool drop = c.choose(2, "the application drops its reference") != 0;
    Bench b{c};
    auto s = b.add(7, 1);
    b.w->drain();
    std::shared_ptr<RecSession> next;
    RecSession* p = s.get();
    p->on_call = [&] { if(!next) next = b.add(other, 2); };
    if(drop) s.reset();
    const Req r = some(c.choose(ref::Kinds, "function"));
    b.expect(7, ref::request_pdu(r), session_pdu(r, {}, 1));
    b.expect(other, ref::request_pdu(r), session_pdu(r, {}, 2));
    if(other != 7) b.expect(7, ref::request_pdu(r), session_pdu(r, {}, 1));
    // both in one piece of data: the second one was already there when the successor was attached
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    constexpr unsigned Menu = B_ATTACH | B_REQ | B_UNKNOWN;
    mc::Options o;
    o.property = "C17";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -2 : t == 1 ? 0 : 1;
        v.push_back({"every unit", units, 0, "6 sets of units with sessions, attached before or after the client connects; 256 units, 3 requests each"});
        v.push_back({"subsets of functions", unimplemented, 0, "256 subsets of implemented functions, 8 functions, 3 sizes, 3 addresses"});
        v.push_back({"session errors", exceptions, 0, "8 functions, all 256 exception codes, foreign errors"});
        v.push_back({"a session attaching its successor", successor, 0, "8 functions, same or other unit"});
        auto add = [&](const char* name, int dev, unsigned menu, size_t clients, int depth) {
            v.push_back({name, [=](mc::Ctx& c) { serve(c, M17, menu, 4, clients, clients + 1, depth + d); }, dev, std::to_string(depth + d) + " actions, " + std::to_string(clients) + " connections to start with"});
        };
        add("one client", 0, Menu | B_REQ2, 1, 8);
        add("one client, bad requests", 0, Menu | B_PIPE | B_BADFC | B_FOREIGN | B_EXC, 1, 6);
        add("two clients", 0, Menu | B_PIPE | B_EOF | B_HALF | B_CONNECT, 2, 5);
        add("one client, a race", 1, Menu | B_REQ2 | B_PIPE | B_EXC, 1, 5);
        add("two clients, a race", 1, Menu | B_HALF | B_CONNECT, 2, 4);
        if(t) add("one client, two races", 2, Menu | B_PIPE, 1, 3);
        for(unsigned limit : {1u, 3u, 12u})
            v.push_back({"cycles, limit " + std::to_string(limit), [=](mc::Ctx& c) { serve_cycles(c, M17, B_CONNECT | B_REQ | B_REQ2 | B_UNKNOWN | B_ATTACH | B_EOF | B_PIPE, limit, limit == 1 ? 1 : 2, t == 2 ? 3 : t ? 1 + c.choose(2, "length") : 1, t == 2 ? 60 : t ? 40 : 20); }, 0, t == 2 ? "every cycle of 3 actions, repeated 60 times" : "every cycle of 1 or 2 actions, repeated 40 times"});
    }
    o.rule = std::string{"Explored: "} + server_menu_text() + "; and for a static server every unit, every subset of implemented functions, every exception code. Monitored: each request reaches the session attached for its unit when it arrived or one attached since, once and unchanged, and no other session; no session, no answer; the answer is exactly what that session returned (from a reference encoder), illegal function where it implements nothing.";
    o.assumptions = {"a session attached while a request has arrived but is still queued may or may not already get that request", "the acceptor, sockets and clock are simulated after asio's reactor on Linux; one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
