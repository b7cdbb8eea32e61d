// C02: what the handler is told about every response PDU.
#include "simworld.hpp"

using namespace hw;
using mc::Ctx;

namespace
{

struct Bench : Client
{
    std::shared_ptr<modbus::IClientSession> s;
    uint32_t tid = 0;
    explicit Bench(Ctx& ctx, modbus::LoggingLevel level = modbus::LoggingLevel::Critical) : Client(ctx, level) { s = session(0x2A); }
    ~Bench() { s.reset(); }
    // Sends `r`, answers it with `pdu`, and compares what the handler gets with the reference decoder.
    void one(const Req& r, const Bytes& pdu)
    {
        int calls = 0;
        Out got;
        hw::send(*s, r, nullptr, [&](const Out& o) { ++calls; got = o; });
        settle();
        conn->deliver(ref::frame(tid, 0x2A, pdu));
        conn->tx.clear();
        conn->tx_marks.clear();
        w->drain();
        tid = (tid + 1) & 0xFFFF;
        const Out want = ref::decode_response(r, pdu);
        c.step();
        c.checked();
        c.observe(static_cast<uint64_t>(got.type));
        if(calls != 1) c.fail("%s addr %u quantity %u answered by %s: handler called %d times", ref::name(r.kind), r.addr, r.count(), ref::hex(pdu).c_str(), calls);
        if(got != want) c.fail("%s addr %u quantity %u answered by %s: handler told '%s', expected '%s'", ref::name(r.kind), r.addr, r.count(), ref::hex(pdu).c_str(), got.str().c_str(), want.str().c_str());
    }
};

Req make(int k, uint32_t addr, uint32_t n)
{
    Req r;
    r.kind = k;
    r.addr = addr;
    r.qty = n;
    if(!ref::is_read(k)) r.vals.assign(ref::is_single(k) ? 1 : n, 1);
    return r;
}
std::vector<uint16_t> pattern(size_t n, int which)
{
    std::vector<uint16_t> v(n);
    for(size_t i = 0; i < n; ++i)
        v[i] = which == 0 ? 0 : which == 1 ? 0xFFFF : which == 2 ? (i % 2 ? 0x5AA5 : 0) : which == 3 ? static_cast<uint16_t>((i + 1) * 0x0103) : static_cast<uint16_t>((i * 40503u + 77u) ^ (i * i * 3));
    return v;
}
// For bits only the lowest bit counts, so use a bit of the pattern.
std::vector<uint16_t> values_for(int k, size_t n, int which)
{
    auto v = pattern(n, which);
    if(ref::is_bits(k)) for(size_t i = 0; i < n; ++i) v[i] = which == 3 ? i % 3 == 0 : which == 4 ? v[i] >> 5 & 1 : v[i] & 1;
    return v;
}

// All PDUs of up to two bytes, whatever was asked.
void tiny(Ctx& c)
{
    const int k = c.choose(8, "kind");
    const int hi = c.choose(16, "first byte");
    const uint32_t qs[] = {1, 8, 9};
    const uint32_t q = ref::is_single(k) ? 1 : qs[c.choose(3, "quantity")];
    Bench b{c};
    const Req r = make(k, 0xFFF0, q);
    if(!hi) b.one(r, {});
    for(int f = hi * 16; f < hi * 16 + 16; ++f)
    {
        b.one(r, {static_cast<uint8_t>(f)});
        for(int x = 0; x < 256; ++x) b.one(r, {static_cast<uint8_t>(f), static_cast<uint8_t>(x)});
    }
    c.nontrivial();
}
// Three to six bytes: every function byte that matters, every second byte, and an alphabet for the others.
void small(Ctx& c, bool deep)
{
    const int k = c.choose(8, "kind");
    const int len = 3 + c.choose(deep ? 5 : 4, "length");
    const int block = c.choose(8, "second byte");
    const uint32_t qs[] = {1, 2, 9, 3};
    const uint32_t q = ref::is_single(k) ? 1 : qs[c.choose(4, "quantity")];
    const std::vector<uint8_t> heads{ref::fc(k), static_cast<uint8_t>(ref::fc(k) | 0x80), static_cast<uint8_t>(ref::fc(k) ^ 1)};
    const std::vector<uint8_t> alpha = len <= 4 || deep ? std::vector<uint8_t>{0x00, 0x01, 0x7F, 0x80, 0xFF} : std::vector<uint8_t>{0x00, 0x01, 0xFF};
    Bench b{c};
    const Req r = make(k, 0x0102, q);
    size_t n = 1;
    for(int i = 2; i < len; ++i) n *= alpha.size();
    for(auto h : heads)
        for(int second = block * 32; second < block * 32 + 32; ++second)
        {
            if(second > 12 && second != 0x2A && second != 0x7F && second != 0x80 && second != 0xFF && len > 4 && !deep) continue;
            for(size_t m = 0; m < n; ++m)
            {
                Bytes p{h, static_cast<uint8_t>(second)};
                for(size_t x = m, i = 2; i < static_cast<size_t>(len); ++i, x /= alpha.size()) p.push_back(alpha[x % alpha.size()]);
                b.one(r, p);
            }
        }
    c.nontrivial();
}
// Every legal quantity: the right answer with every pattern, and its neighbours.
void quantities(Ctx& c)
{
    const int k = c.choose(4, "kind");
    const int block = c.choose(25, "block");
    Bench b{c};
    const uint32_t per = ref::max_qty(k) / 25;
    for(uint32_t q = static_cast<uint32_t>(block) * per + 1; q <= (static_cast<uint32_t>(block) + 1) * per; ++q)
    {
        const Req r = make(k, q % 2 ? 0xFF00 : 0, q);
        for(int which = 0; which < 5; ++which)
        {
            const auto v = values_for(k, q, which);
            const Bytes good = ref::response_pdu(r, v);
            b.one(r, good);
            if(which != 4) continue;
            for(int d : {-1, 1, 2, -2, 128, 254}) { Bytes p = good; p[1] = static_cast<uint8_t>(p[1] + d); b.one(r, p); }
            for(int d : {-1, 1, -2, 2, 3}) // right byte count, wrong length
            {
                Bytes p = good;
                if(d < 0) p.resize(p.size() - std::min<size_t>(p.size() - 2, static_cast<size_t>(-d))); else p.insert(p.end(), static_cast<size_t>(d), 0xA5);
                if(p.size() > 253 + 0) p.resize(253);
                b.one(r, p);
                if(p.size() < 2) continue;
                p[1] = static_cast<uint8_t>(p.size() - 2);
                b.one(r, p); // consistent byte count of the wrong quantity
            }
            { Bytes p = good; p[0] = ref::fc((k + 1) % 8); b.one(r, p); p = good; p[0] |= 0x80; b.one(r, p); }
            if(ref::is_bits(k) && q % 8) { Bytes p = good; p.back() = static_cast<uint8_t>(p.back() | 0xFF << (q % 8)); b.one(r, p); } // padding bits do not matter
        }
    }
    c.nontrivial();
}
// All truncations and all byte counts of answers of boundary sizes.
void shapes(Ctx& c)
{
    const int k = c.choose(4, "kind");
    static const uint32_t bits[] = {1, 7, 8, 9, 16, 17, 1992, 1993, 1999, 2000}, regs[] = {1, 2, 3, 4, 63, 64, 65, 123, 124, 125};
    const int i = c.choose(10, "quantity");
    const uint32_t q = ref::is_bits(k) ? bits[i] : regs[i];
    Bench b{c};
    const Req r = make(k, 100, q);
    const auto v = values_for(k, q, 4);
    const Bytes good = ref::response_pdu(r, v);
    Bytes longest = good;
    longest.resize(253, 0x3C);
    for(size_t n = 0; n <= 253; ++n) b.one(r, Bytes(longest.begin(), longest.begin() + static_cast<long>(n)));
    for(int x = 0; x < 256; ++x) { Bytes p = good; p[1] = static_cast<uint8_t>(x); b.one(r, p); }
    for(int x = 0; x < 256; ++x) { Bytes p = good; p[0] = static_cast<uint8_t>(x); b.one(r, p); }
    for(int x = 0; x <= 251; ++x) { Bytes p{ref::fc(k), static_cast<uint8_t>(x)}; p.resize(2 + static_cast<size_t>(x), 0xC3); b.one(r, p); } // byte count equal to the data, any size
    if(ref::is_bits(k)) for(size_t bit = 0; bit < q; ++bit) { auto w = values_for(k, q, bit & 1); w[bit] ^= 1; b.one(r, ref::response_pdu(r, w)); }
    else for(size_t reg = 0; reg < q; ++reg) for(int bit = 0; bit < 16; ++bit) { auto w = values_for(k, q, 0); w[reg] = static_cast<uint16_t>(1u << bit); b.one(r, ref::response_pdu(r, w)); }
    c.nontrivial();
}
// Write confirmations: every address, every value or quantity, wrong lengths.
void writes(Ctx& c)
{
    const int k = 4 + c.choose(4, "kind");
    const int block = c.choose(16, "block");
    Bench b{c};
    const Req r = make(k, 0x0304, ref::is_single(k) ? 1 : 5);
    for(uint32_t x = static_cast<uint32_t>(block) * 4096; x < (static_cast<uint32_t>(block) + 1) * 4096; ++x)
    {
        Bytes p{ref::fc(k)};
        ref::put16(p, 0x0304);
        ref::put16(p, x);
        b.one(r, p);
        Bytes q{ref::fc(k)};
        ref::put16(q, x);
        ref::put16(q, k == ref::WriteCoil ? (x & 1 ? 0xFF00 : 0) : k == ref::WriteReg ? 1 : 5);
        b.one(r, q);
        if(x % 64 == 0) for(size_t n = 0; n < 9; ++n) { Bytes s = q; s.resize(n, 0xEE); b.one(r, s); }
    }
    c.nontrivial();
}
// Exceptions: every code, every kind, every length; and large junk.
void exceptions(Ctx& c)
{
    const int k = c.choose(8, "kind");
    Bench b{c, c.choose(2, "log level") ? modbus::LoggingLevel::Trace : modbus::LoggingLevel::Critical};
    const Req r = make(k, 1, ref::is_single(k) ? 1 : 7);
    for(int code = 0; code < 256; ++code)
    {
        b.one(r, ref::exception_pdu(ref::fc(k), code));
        for(int f = 0; f < 8; ++f) b.one(r, ref::exception_pdu(ref::fc(f), code));
        for(size_t n : {size_t{1}, size_t{3}, size_t{4}, size_t{100}, size_t{253}}) { Bytes p = ref::exception_pdu(ref::fc(k), code); p.resize(n, static_cast<uint8_t>(code)); b.one(r, p); }
    }
    c.nontrivial();
}
// Sequences of requests of different kinds, each answered from a menu: no answer affects the next request.
void sequences(Ctx& c, int depth)
{
    Bench b{c};
    for(int i = 0; i < depth; ++i)
    {
        const int k = c.choose(8, "kind");
        const Req r = make(k, static_cast<uint32_t>(10 * i), ref::is_single(k) ? 1 : 3);
        Bytes good = ref::response_pdu(r, values_for(k, 3, 1 + i % 2));
        switch(c.choose(6, "answer"))
        {
        case 0: break;
        case 1: good = ref::exception_pdu(ref::fc(k), 2 + i); break;
        case 2: good.clear(); break;
        case 3: good.resize(good.size() - 1); break;
        case 4: good[0] = ref::fc((k + 1) % 8); break;
        case 5: good.resize(200, 0xFF); break;
        }
        c.note("%s answered by %s", ref::name(k), ref::hex(good).c_str());
        b.one(r, good);
    }
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C02";
    auto add = [&](const char* name, std::function<void(Ctx&)> f, const char* bounds) { o.quick.push_back({name, f, 0, bounds}); o.thorough.push_back({name, f, 0, bounds}); };
    add("tiny PDUs", tiny, "all PDUs of 0..2 bytes, 3 quantities, every kind");
    o.quick.push_back({"small PDUs", [](Ctx& c) { small(c, false); }, 0, "3..6 bytes, all or interesting second bytes, alphabet {00,01,7F,80,FF} or {00,01,FF} behind it"});
    o.thorough.push_back({"small PDUs", [](Ctx& c) { small(c, true); }, 0, "3..7 bytes, all second bytes, alphabet {00,01,7F,80,FF} behind it"});
    add("every quantity", quantities, "all legal read quantities, 5 value patterns, neighbouring lengths and byte counts");
    add("shapes", shapes, "10 boundary quantities: all truncations to 253 bytes, all byte counts, all function bytes, each single bit");
    add("write confirmations", writes, "all addresses and all 65536 values or quantities, lengths 0..8");
    add("exceptions", exceptions, "all 256 codes, all kinds, several lengths, with and without trace logging");
    o.quick.push_back({"sequences", [](Ctx& c) { sequences(c, 2); }, 0, "all sequences of 2 requests, 8 kinds x 6 answers each"});
    o.thorough.push_back({"sequences", [](Ctx& c) { sequences(c, 3); }, 0, "all sequences of 3 requests, 8 kinds x 6 answers each"});
    o.rule = "Every PDU is delivered as the answer to a request made through the public API; what the handler is told is compared with an independent decoder written from the Modbus specification.";
    o.assumptions = {"the answer arrives in one read (C04 covers segmentation)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
