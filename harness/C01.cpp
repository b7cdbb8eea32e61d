// C01: every request leaves the client as exactly one correct frame; requests outside the limits send nothing.
#include "simworld.hpp"

using namespace hw;
using mc::Ctx;

namespace
{

struct Bench : Client
{
    std::vector<std::shared_ptr<modbus::IClientSession>> sessions;
    uint32_t tid = 0;
    size_t seen = 0;
    bool answer = true;
    explicit Bench(Ctx& ctx) : Client(ctx) {}
    modbus::IClientSession& unit(unsigned u)
    {
        if(sessions.empty()) sessions.resize(256);
        if(!sessions[u]) sessions[u] = session(u);
        return *sessions[u];
    }
    ~Bench() { sessions.clear(); }

    // Sends one request on an idle channel and compares what leaves with the reference frame.
    void one(unsigned u, const Req& r, bool own_timeout = false)
    {
        int calls = 0;
        Out got;
        const dur t = 700ms;
        bool inside = true;
        hw::send(unit(u), r, own_timeout ? &t : nullptr, [&](const Out& o) { ++calls; got = o; if(inside) got.type = '!'; });
        inside = false;
        settle();
        c.step();
        c.checked();
        Bytes out;
        if(conn) out.assign(conn->tx.begin() + static_cast<long>(seen), conn->tx.end());
        if(conn) seen = conn->tx.size();
        if(!ref::valid(r))
        {
            if(!out.empty()) c.fail("%s with quantity %u put %s on the wire", ref::name(r.kind), r.count(), ref::hex(out).c_str());
            if(calls != 1 || got.type != 'Q') c.fail("%s with quantity %u: handler called %d times, last with %s; expected one malformed request error", ref::name(r.kind), r.count(), calls, got.str().c_str());
            return;
        }
        const Bytes want = ref::frame(tid, u, ref::request_pdu(r));
        if(out != want) c.fail("%s addr %u quantity %u unit %u: sent %s, expected %s", ref::name(r.kind), r.addr, r.count(), u, ref::hex(out, 300).c_str(), ref::hex(want, 300).c_str());
        if(calls) c.fail("%s: handler called (%s) before any response", ref::name(r.kind), got.str().c_str());
        // answer it, so that the channel is free for the next one
        conn->deliver(ref::frame(tid, u, ref::exception_pdu(ref::fc(r.kind), 2)));
        settle();
        if(calls != 1) c.fail("%s: handler called %d times for one response", ref::name(r.kind), calls);
        tid = (tid + 1) & 0xFFFF;
        if(tid % 512 == 0) { conn->tx.clear(); conn->tx_marks.clear(); seen = 0; }
    }
};

std::vector<uint16_t> pattern(int k, size_t n, int which)
{
    std::vector<uint16_t> v(n);
    for(size_t i = 0; i < n; ++i)
    {
        uint16_t x = 0;
        switch(which)
        {
        case 0: x = 0; break;
        case 1: x = 0xFFFF; break;
        case 2: x = i % 2 ? 0x00FF : 0xFF00; break;
        case 3: x = static_cast<uint16_t>(0x0102 * (i + 1) + i / 8); break;
        default: x = static_cast<uint16_t>((i * 40503u + 12345u) ^ (i * i)); break;
        }
        v[i] = ref::is_bits(k) ? (which == 2 ? i % 2 : which == 3 ? (i % 3 == 0) : which == 4 ? (x >> 7 & 1) : x & 1) : x;
    }
    return v;
}
Req make(int k, uint32_t addr, uint32_t n, int which)
{
    Req r;
    r.kind = k;
    r.addr = addr;
    r.qty = n;
    if(!ref::is_read(k)) r.vals = pattern(k, ref::is_single(k) ? 1 : n, which);
    return r;
}

void quantities(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int which = ref::is_read(k) ? 0 : c.choose(5, "values");
    const uint32_t addrs[] = {0, 1, 0x00FF, 0x0100, 0xFFFF};
    const uint32_t addr = addrs[c.choose(5, "address")];
    Bench b{c};
    if(ref::is_single(k)) { b.one(1, make(k, addr, 1, which)); return; }
    for(uint32_t n = 0; n <= ref::max_qty(k) + 3; ++n) b.one(17, make(k, addr, n, which), n % 2);
    c.nontrivial();
}
void illegal(Ctx& c)
{
    const int k = c.choose(8, "kind");
    if(ref::is_single(k)) return;
    Bench b{c};
    if(ref::is_read(k)) { for(uint32_t n = ref::max_qty(k) + 1; n <= 65535; n += 1) b.one(1, make(k, 5, n, 0)); }
    else for(uint32_t n : {ref::max_qty(k) + 1, 2040u, 2048u, 2049u, 4096u, 32768u, 65534u, 65535u, 65536u, 65537u, 65536u + ref::max_qty(k), 131072u, 131073u}) if(n > ref::max_qty(k)) b.one(1, make(k, 5, n, 1));
    b.one(2, make(k, 5, 1, 1)); // the channel is still usable, with the next transaction identifier
    c.nontrivial();
}
void addresses(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int hi = c.choose(32, "block");
    Bench b{c};
    for(int lo = 0; lo < 2048; ++lo) b.one(3, make(k, static_cast<uint32_t>(hi * 2048 + lo), ref::is_read(k) ? ref::max_qty(k) : 1, lo & 1));
    c.nontrivial();
}
void units(Ctx& c)
{
    const int k = c.choose(8, "kind");
    Bench b{c};
    for(unsigned u = 0; u < 256; ++u) b.one(u, make(k, u, 1 + u % 3, 1), u & 1);
    c.nontrivial();
}
// Every single value of a register, in the first, a middle and the last position; every coil pattern of up to `n` coils.
void values(Ctx& c)
{
    const int what = c.choose(4, "what");
    const int block = c.choose(16, "block");
    Bench b{c};
    if(what == 0) for(uint32_t v = 0; v < 4096; ++v) { Req r = make(ref::WriteReg, 7, 1, 0); r.vals[0] = static_cast<uint16_t>(block * 4096u + v); b.one(1, r); }
    else if(what == 1) for(uint32_t v = 0; v < 4096; ++v) { Req r = make(ref::WriteRegs, 7, 3, 0); r.vals[v % 3] = static_cast<uint16_t>(block * 4096u + v); b.one(1, r); }
    else if(what == 2) // all coil patterns of 1..12 coils
    {
        if(block > 11) return;
        for(uint32_t v = 0; v < 1u << (block + 1); ++v) { Req r = make(ref::WriteCoils, 7, static_cast<uint32_t>(block + 1), 0); for(int i = 0; i <= block; ++i) r.vals[static_cast<size_t>(i)] = v >> i & 1; b.one(1, r); }
    }
    else for(size_t bit = static_cast<size_t>(block); bit < 1968; bit += 16) // each single coil of the largest request, set and cleared
        for(int inv = 0; inv < 2; ++inv) { Req r = make(ref::WriteCoils, 7, 1968, inv ? 1 : 0); r.vals[bit] ^= 1; b.one(1, r); }
    c.nontrivial();
}
// More requests than there are transaction identifiers, with requests that are not sent in between.
void wrap(Ctx& c)
{
    const int k = c.choose(8, "kind");
    Bench b{c};
    for(uint32_t i = 0; i < 65536 + 300; ++i)
    {
        b.one(i & 255, make((k + static_cast<int>(i % 3)) % 8, i & 0xFFFF, 1, static_cast<int>(i % 2)));
        if(i % 997 == 0) b.one(1, make(ref::ReadCoils, 0, 2001, 0));
    }
    c.nontrivial();
}
// Several requests made before the first is answered, on two sessions: they leave in that order, each once its
// predecessor is answered, with consecutive identifiers.
void pipelined(Ctx& c, int depth)
{
    Client b{c};
    auto s1 = b.session(1), s2 = b.session(200);
    struct Sent { Req r; unsigned unit; int calls = 0; Out got; };
    std::vector<Sent> all(static_cast<size_t>(depth));
    for(auto& x : all)
    {
        const int k = c.choose(8, "kind");
        const int size = ref::is_single(k) ? 1 : c.choose(4, "size");
        const uint32_t n = size == 0 ? 0 : size == 1 ? 1 : size == 2 ? ref::max_qty(k) : ref::max_qty(k) + 1;
        x.r = make(k, 0x1234, n, 4);
        x.unit = c.choose(2, "session") ? 200 : 1;
        c.note("%s quantity %u unit %u", ref::name(k), x.r.count(), x.unit);
    }
    for(auto& x : all) hw::send(x.unit == 1 ? *s1 : *s2, x.r, nullptr, [&x](const Out& o) { ++x.calls; x.got = o; });
    for(auto& x : all) if(x.calls) c.fail("a handler ran inside the call that sends the request");
    uint32_t tid = 0;
    Bytes want;
    b.settle();
    for(auto& x : all)
    {
        c.step();
        c.checked();
        if(!ref::valid(x.r))
        {
            if(x.calls != 1 || x.got.type != 'Q') c.fail("%s with quantity %u: handler called %d times, last with %s; expected one malformed request error", ref::name(x.r.kind), x.r.count(), x.calls, x.got.str().c_str());
            continue;
        }
        const Bytes f = ref::frame(tid, x.unit, ref::request_pdu(x.r));
        want.insert(want.end(), f.begin(), f.end());
        if(!b.conn || b.conn->tx != want) c.fail("after request %u the wire has %s, expected %s", tid, b.conn ? ref::hex(b.conn->tx, 600).c_str() : "no connection", ref::hex(want, 600).c_str());
        if(x.calls) c.fail("%s: handler called before any response", ref::name(x.r.kind));
        b.conn->deliver(ref::frame(tid, x.unit, ref::exception_pdu(ref::fc(x.r.kind), 4)));
        b.settle();
        if(x.calls != 1 || x.got.type != 'E') c.fail("%s: handler called %d times (%s)", ref::name(x.r.kind), x.calls, x.got.str().c_str());
        ++tid;
    }
    c.checked();
    if(b.conn && b.conn->tx != want) c.fail("more was sent than the valid requests");
    if(tid) c.nontrivial();
    c.observe(tid);
}
// The same on a connection that accepts data only in small pieces, at every window size.
void slow(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int n = c.choose(2, "size");
    const int piece = c.choose(12, "piece") + 1;
    Client b{c};
    auto s = b.session(9);
    b.w->initial_window = SIZE_MAX;
    int calls = 0;
    // first request establishes the connection
    hw::send(*s, make(ref::ReadCoils, 0, 1, 0), nullptr, [&](const Out&) { ++calls; });
    b.settle();
    b.conn->deliver(ref::frame(0, 9, ref::exception_pdu(1, 4)));
    b.settle();
    const size_t before = b.conn->tx.size();
    b.conn->max_piece = static_cast<size_t>(piece);
    const Req r = make(k, 3, ref::is_single(k) ? 1 : n ? ref::max_qty(k) : 5, 4);
    hw::send(*s, r, nullptr, [&](const Out&) { ++calls; });
    b.settle();
    c.step();
    c.checked();
    const Bytes out(b.conn->tx.begin() + static_cast<long>(before), b.conn->tx.end()), want = ref::frame(1, 9, ref::request_pdu(r));
    if(out != want) c.fail("%s over a socket that takes %d bytes at a time: sent %s, expected %s", ref::name(k), piece, ref::hex(out, 300).c_str(), ref::hex(want, 300).c_str());
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C01";
    auto add = [&](bool quick, const char* name, std::function<void(Ctx&)> f, const char* bounds) {
        if(quick) o.quick.push_back({name, f, 0, bounds});
        o.thorough.push_back({name, f, 0, bounds});
    };
    add(true, "every quantity", quantities, "all quantities 0..max+3 of every kind, 5 value patterns, 5 addresses");
    add(true, "illegal quantities", illegal, "read quantities max+1..65535, write sizes up to 131073");
    add(true, "units", units, "all 256 units, every kind");
    add(true, "values", values, "all register values, all patterns of up to 12 coils, each single coil of 1968");
    add(true, "addresses", addresses, "all 65536 addresses, every kind");
    add(true, "slow sockets", slow, "pieces of 1..12 bytes");
    o.quick.push_back({"pipelined", [](Ctx& c) { pipelined(c, 2); }, 0, "all sequences of 2 requests, kinds x {0, 1, max, max+1} x 2 sessions"});
    o.thorough.push_back({"pipelined", [](Ctx& c) { pipelined(c, 3); }, 0, "all sequences of 3 requests, kinds x {0, 1, max, max+1} x 2 sessions"});
    add(true, "transaction identifiers wrap", wrap, "65836 consecutive requests, starting with each kind");
    o.rule = "Every request is made through the public session API; the bytes reaching the simulated TCP socket are compared with a frame built by an independent encoder, and the handler's calls are counted.";
    o.assumptions = {"the socket, resolver and clock are simulated; the library and its message code are the real ones"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
