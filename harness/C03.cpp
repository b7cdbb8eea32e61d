// C03: what a server makes of every request PDU.
#include "simserver.hpp"

using namespace hw;
using mc::Ctx;

namespace
{

struct Bench : Server
{
    std::shared_ptr<RecSession> s;
    std::shared_ptr<sim::Conn> k;
    uint32_t tid = 0xFFF0;
    unsigned unit;
    explicit Bench(Ctx& ctx, unsigned u = 7, modbus::LoggingLevel level = modbus::LoggingLevel::Critical) : Server(ctx, 16, level), unit(u)
    {
        s = add(u, 3);
        k = connect();
        if(!k) c.fail("a started server does not listen");
    }
    void one(const Bytes& pdu)
    {
        s->asked.clear();
        k->tx.clear();
        k->tx_marks.clear();
        k->deliver(ref::frame(tid, unit, pdu));
        w->drain();
        c.step();
        c.checked();
        const auto v = ref::decode_request(pdu);
        Bytes want;
        if(v.what == ref::Verdict::Exception) want = ref::frame(tid, unit, ref::exception_pdu(pdu[0], v.code));
        if(v.what == ref::Verdict::Request)
        {
            const Bytes p = session_pdu(v.req, s->reply, s->salt);
            if(!p.empty()) want = ref::frame(tid, unit, p);
        }
        c.observe(k->tx.size());
        if(s->asked.size() != (v.what == ref::Verdict::Request ? 1 : 0)) c.fail("PDU %s reached the session %zu times, expected %d", ref::hex(pdu).c_str(), s->asked.size(), v.what == ref::Verdict::Request);
        if(v.what == ref::Verdict::Request && !(s->asked[0] == v.req)) c.fail("PDU %s: the session was asked for %s addr %u quantity %u with other contents than sent", ref::hex(pdu).c_str(), ref::name(s->asked[0].kind), s->asked[0].addr, s->asked[0].count());
        if(k->tx != want) c.fail("PDU %s answered by '%s', expected '%s'", ref::hex(pdu).c_str(), ref::hex(k->tx, 300).c_str(), ref::hex(want, 300).c_str());
        if(!k->alive()) c.fail("PDU %s made the server close the connection", ref::hex(pdu).c_str());
        tid = (tid + 1) & 0xFFFF;
    }
};

Bytes head(int k, uint32_t a, uint32_t x) { Bytes p{ref::fc(k)}; ref::put16(p, a); ref::put16(p, x); return p; }
Req make(int k, uint32_t addr, uint32_t n, int which)
{
    Req r;
    r.kind = k;
    r.addr = addr;
    r.qty = n;
    if(!ref::is_read(k)) for(size_t i = 0; i < (ref::is_single(k) ? 1 : n); ++i)
    {
        const uint16_t x = which == 0 ? 0 : which == 1 ? 0xFFFF : which == 2 ? (i % 2 ? 0xA55A : 0x0FF1) : static_cast<uint16_t>((i * 40503u + 9u) ^ (i * i));
        r.vals.push_back(ref::is_bits(k) ? (which == 3 ? x >> 6 & 1 : x & 1) : x);
    }
    return r;
}

// All PDUs of up to two bytes, and every function code with bodies of every length.
void all_functions(Ctx& c)
{
    const int hi = c.choose(16, "function block");
    const int level = c.choose(2, "log level");
    Bench b{c, 7, level ? modbus::LoggingLevel::Trace : modbus::LoggingLevel::Critical};
    if(!hi) b.one({});
    for(int f = hi * 16; f < hi * 16 + 16; ++f)
    {
        b.one({static_cast<uint8_t>(f)});
        for(int x = 0; x < 256; ++x) b.one({static_cast<uint8_t>(f), static_cast<uint8_t>(x)});
        if(level) continue;
        for(size_t n = 2; n <= 252; ++n) for(int fill : {0x00, 0x01, 0xFF}) { Bytes p{static_cast<uint8_t>(f)}; p.resize(1 + n, static_cast<uint8_t>(fill)); b.one(p); }
    }
    c.nontrivial();
}
// Every value of the quantity or value field, at several addresses, for all kinds (exact length).
void quantities(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int block = c.choose(16, "block");
    Bench b{c};
    for(uint32_t x = static_cast<uint32_t>(block) * 4096; x < (static_cast<uint32_t>(block) + 1) * 4096; ++x)
    {
        Bytes p = head(k, x % 3 ? 0xFFFF : 0, x);
        if(ref::is_multi(k))
        {
            // the byte count such a quantity would have modulo 256, and as much data
            const uint32_t bytes = (k == ref::WriteCoils ? (x + 7) / 8 : 2 * x) & 0xFF;
            p.push_back(static_cast<uint8_t>(bytes));
            p.resize(std::min<size_t>(253, p.size() + bytes), 0x5A);
        }
        b.one(p);
        if(!ref::is_multi(k)) b.one(head(k, x, k == ref::WriteCoil ? 0xFF00 : 1)); // every address
    }
    c.nontrivial();
}
// Well-formed requests of every quantity and value pattern.
void requests(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int which = ref::is_read(k) ? 0 : c.choose(4, "values");
    const int reply = c.choose(3, "reply");
    Bench b{c};
    b.s->reply.what = static_cast<Reply::What>(reply);
    b.s->reply.code = 4;
    const uint32_t addrs[] = {0, 0x0100, 0x8000, 0xFFFF};
    for(uint32_t n = 1; n <= ref::max_qty(k); ++n) b.one(ref::request_pdu(make(k, addrs[n % 4], n, which)));
    c.nontrivial();
}
// Multiple writes: quantity against byte count against actual length.
void multi_shapes(Ctx& c)
{
    const int k = ref::WriteCoils + c.choose(2, "kind");
    static const uint32_t coils[] = {0, 1, 7, 8, 9, 16, 17, 1960, 1967, 1968, 1969, 2040, 65535}, regs[] = {0, 1, 2, 3, 4, 61, 122, 123, 124, 127, 128, 129, 65535};
    const int i = c.choose(13, "quantity");
    const uint32_t n = k == ref::WriteCoils ? coils[i] : regs[i];
    Bench b{c};
    const uint32_t expected = (k == ref::WriteCoils ? (n + 7) / 8 : 2 * n) & 0xFF;
    for(int count = 0; count < 256; ++count)
        for(int d : {0, -1, 1, 2, -2})
        {
            Bytes p = head(k, 5, n);
            p.push_back(static_cast<uint8_t>(count));
            const int len = 6 + count + d;
            if(len < 0 || len > 253) continue;
            p.resize(static_cast<size_t>(len), 0xC3);
            b.one(p);
        }
    for(size_t len = 0; len <= 253; ++len) // right byte count, every actual length
    {
        Bytes p = head(k, 5, n);
        p.push_back(static_cast<uint8_t>(expected));
        p.resize(len, 0x3C);
        if(len) b.one(p);
    }
    c.nontrivial();
}
// All register values and bit positions of writes.
void write_values(Ctx& c)
{
    const int what = c.choose(3, "what");
    const int block = c.choose(16, "block");
    Bench b{c};
    if(what == 0) for(uint32_t v = 0; v < 4096; ++v) { Req r = make(ref::WriteRegs, 9, 3, 0); r.vals[v % 3] = static_cast<uint16_t>(static_cast<uint32_t>(block) * 4096 + v); b.one(ref::request_pdu(r)); }
    else if(what == 1) { if(block < 12) for(uint32_t v = 0; v < 1u << (block + 1); ++v) { Req r = make(ref::WriteCoils, 9, static_cast<uint32_t>(block) + 1, 0); for(int i = 0; i <= block; ++i) r.vals[static_cast<size_t>(i)] = v >> i & 1; Bytes p = ref::request_pdu(r); b.one(p); if((block + 1) % 8) { p.back() = static_cast<uint8_t>(p.back() | 0xFF << ((block + 1) % 8)); b.one(p); } } }
    else for(size_t bit = static_cast<size_t>(block); bit < 1968; bit += 16) { Req r = make(ref::WriteCoils, 9, 1968, bit & 1); r.vals[bit] ^= 1; b.one(ref::request_pdu(r)); }
    c.nontrivial();
}
// All truncations and extensions of well-formed requests.
void lengths(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int n = c.choose(3, "size");
    Bench b{c};
    Bytes p = ref::request_pdu(make(k, 0x00FF, ref::is_single(k) ? 1 : n == 0 ? 1 : n == 1 ? 9 : ref::max_qty(k), 3));
    for(size_t len = 0; len <= 253; ++len) { Bytes q = p; q.resize(len, 0x01); b.one(q); }
    for(int f = 0; f < 256; ++f) { Bytes q = p; q[0] = static_cast<uint8_t>(f); b.one(q); }
    c.nontrivial();
}
// Every Modbus exception a session can return, every kind, every unit.
void replies(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int block = c.choose(8, "unit block");
    for(unsigned u = static_cast<unsigned>(block) * 32; u < (static_cast<unsigned>(block) + 1) * 32; ++u)
    {
        Bench b{c, u};
        for(int code : {1, 2, 3, 4, 5, 6, 8, 10, 11, 0})
        {
            b.s->reply.what = code ? Reply::Exception : Reply::Other;
            b.s->reply.code = code;
            b.one(ref::request_pdu(make(k, 2, ref::is_single(k) ? 1 : 2, 1)));
        }
        b.s->reply.what = Reply::Values;
        b.one(ref::request_pdu(make(k, 2, ref::is_single(k) ? 1 : 2, 1)));
    }
    c.nontrivial();
}
// A stream of well-formed requests answers every transaction identifier.
void identifiers(Ctx& c)
{
    const int block = c.choose(16, "block");
    Bench b{c};
    b.tid = static_cast<uint32_t>(block) * 4096;
    for(int i = 0; i < 4096; ++i) b.one(ref::request_pdu(make(i % 8, 2, ref::is_single(i % 8) ? 1 : 2, 1)));
    c.nontrivial();
}
// Sequences from a menu of good and bad PDUs and session replies: no PDU affects the next.
void sequences(Ctx& c, int depth)
{
    Bench b{c};
    for(int i = 0; i < depth; ++i)
    {
        const int k = c.choose(8, "kind");
        Bytes p = ref::request_pdu(make(k, static_cast<uint32_t>(i), ref::is_single(k) ? 1 : 3, 3));
        b.s->reply = {};
        switch(c.choose(7, "variant"))
        {
        case 0: break;
        case 1: p.pop_back(); break;
        case 2: p[0] = 0x2B; break;
        case 3: p.resize(1); break;
        case 4: b.s->reply = {Reply::Exception, 2}; break;
        case 5: b.s->reply = {Reply::Other, 0}; break;
        case 6: p[3] = 0xFF; break;
        }
        c.note("%s", ref::hex(p).c_str());
        b.one(p);
    }
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C03";
    auto add = [&](const char* name, std::function<void(Ctx&)> f, const char* bounds) { o.quick.push_back({name, f, 0, bounds}); o.thorough.push_back({name, f, 0, bounds}); };
    add("all function codes", all_functions, "all PDUs of 0..2 bytes; all 256 functions with bodies of 2..252 bytes of 00, 01 or FF");
    add("all quantities", quantities, "all 65536 values of the quantity or value field and all addresses, every kind");
    add("well-formed requests", requests, "all legal quantities, 4 value patterns, 3 kinds of session reply");
    add("multiple write shapes", multi_shapes, "13 quantities x 256 byte counts x length off by -2..2; all lengths");
    add("written values", write_values, "all register values, all patterns of up to 12 coils, each of 1968 coils");
    add("lengths", lengths, "all lengths to 253 and all function bytes of well-formed requests");
    add("session replies", replies, "all exception codes and other errors, all units, all kinds");
    add("transaction identifiers", identifiers, "all 65536");
    o.quick.push_back({"sequences", [](Ctx& c) { sequences(c, 2); }, 0, "all sequences of 2 PDUs, 8 kinds x 7 variants"});
    o.thorough.push_back({"sequences", [](Ctx& c) { sequences(c, 3); }, 0, "all sequences of 3 PDUs, 8 kinds x 7 variants"});
    o.rule = "Every PDU is delivered on a connection to a server with one recording session; whether and how the session is asked and the exact bytes answered are compared with an independent decoder and encoder.";
    o.assumptions = {"each request arrives in one read and its response is taken at once (C04, C16 cover the rest)", "a session returns as many values as it was asked for"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
