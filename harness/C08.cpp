// C08: SingleTypeDatabase against a plain map, over all bounded histories and all range shapes.
#include <climits>
#include <map>
#include <memory>
#include <vector>

#include "mc.hpp"
#include "modbus/server/db/SingleTypeDatabase.h"

using modbus::Address;
using modbus::SingleTypeDatabase;
using mc::Ctx;

namespace
{

template<typename T> struct Model
{
    std::map<uint32_t, T> m;
    bool add(uint32_t a, T v) { return m.emplace(a, v).second; }
    bool has(uint32_t a) const { return m.count(a) != 0; }
    bool range(uint32_t a, unsigned long long n) const
    {
        if(n > 65536ULL || a + n > 65536ULL) return false;
        for(unsigned long long i = 0; i < n; ++i) if(!has(a + static_cast<uint32_t>(i))) return false;
        return true;
    }
};

template<typename T> T val(unsigned v);
template<> bool val<bool>(unsigned v) { return v & 1; }
template<> uint16_t val<uint16_t>(unsigned v) { return static_cast<uint16_t>(v); }
template<typename T> T flip(T v);
template<> bool flip<bool>(bool v) { return !v; }
template<> uint16_t flip<uint16_t>(uint16_t v) { return static_cast<uint16_t>(~v); }

template<typename T> struct Pair
{
    Ctx& c;
    SingleTypeDatabase<T> db;
    Model<T> ref;
    explicit Pair(Ctx& ctx) : c(ctx) {}

    void add(uint32_t a, T v)
    {
        const bool e = ref.add(a, v), r = db.add_value(static_cast<Address>(a), v);
        c.step(); c.checked(); c.observe(r);
        if(e != r) c.fail("add_value(%u) returned %d, expected %d", a, r, e);
    }
    void set(uint32_t a, T v)
    {
        const bool e = ref.has(a), r = db.set_value(static_cast<Address>(a), v);
        if(e) ref.m[a] = v;
        c.step(); c.checked(); c.observe(r);
        if(e != r) c.fail("set_value(%u) returned %d, expected %d", a, r, e);
    }
    void set_values(uint32_t a, const std::vector<T>& v)
    {
        const std::vector<T> in = v;
        const bool e = ref.range(a, v.size()), r = db.set_values(static_cast<Address>(a), in);
        if(e) for(size_t i = 0; i < v.size(); ++i) ref.m[a + static_cast<uint32_t>(i)] = v[i];
        c.step(); c.checked(); c.observe(r);
        if(e != r) c.fail("set_values(%u, %zu values) returned %d, expected %d", a, v.size(), r, e);
        if(in != v) c.fail("set_values changed its argument");
    }
    void get(uint32_t a)
    {
        for(int k = 0; k < 2; ++k)
        {
            T out = val<T>(k ? 0xA5A5 : 0x5A5A), pre = out;
            const bool e = ref.has(a), r = db.get_value(static_cast<Address>(a), out);
            c.step(); c.checked();
            if(e != r) c.fail("get_value(%u) returned %d, expected %d", a, r, e);
            if(e && out != ref.m[a]) c.fail("get_value(%u) gave %u, expected %u", a, unsigned(out), unsigned(ref.m[a]));
            if(!e && out != pre) c.fail("failed get_value(%u) changed its output", a);
            c.observe(r ? unsigned(out) + 1 : 0);
        }
    }
    void get1(uint32_t a)
    {
        T out = val<T>(0x5A5A), pre = out;
        const auto it = ref.m.find(a);
        const bool r = db.get_value(static_cast<Address>(a), out);
        c.step(); c.checked();
        if((it != ref.m.end()) != r) c.fail("get_value(%u) returned %d", a, r);
        if(out != (r ? it->second : pre)) c.fail("get_value(%u) gave %u, expected %u", a, unsigned(out), unsigned(r ? it->second : pre));
    }
    void get_values(uint32_t a, size_t n)
    {
        for(int k = 0; k < 2; ++k)
        {
            std::vector<T> out(n), pre;
            for(size_t i = 0; i < n; ++i) out[i] = val<T>(static_cast<unsigned>(i + static_cast<size_t>(k)) * 3 + 7);
            pre = out;
            const bool e = ref.range(a, n), r = db.get_values(static_cast<Address>(a), out);
            c.step(); c.checked();
            if(e != r) c.fail("get_values(%u, %zu values) returned %d, expected %d", a, n, r, e);
            if(out.size() != n) c.fail("get_values(%u, %zu) resized its output to %zu", a, n, out.size());
            for(size_t i = 0; i < n; ++i)
            {
                if(e && out[i] != ref.m[a + static_cast<uint32_t>(i)]) c.fail("get_values(%u, %zu): address %zu has %u, expected %u", a, n, a + i, unsigned(out[i]), unsigned(ref.m[a + static_cast<uint32_t>(i)]));
                if(!e && out[i] != pre[i]) c.fail("failed get_values(%u, %zu) changed its output", a, n);
            }
        }
    }
    void valid(uint32_t a)
    {
        const bool e = ref.has(a), r = db.is_valid(static_cast<Address>(a));
        c.step(); c.checked(); c.observe(r);
        if(e != r) c.fail("is_valid(%u) returned %d, expected %d", a, r, e);
    }
    void range(uint32_t a, unsigned long long n)
    {
        const bool e = ref.range(a, n), r = db.is_valid_range(static_cast<Address>(a), static_cast<size_t>(n));
        c.step(); c.checked(); c.observe(r);
        if(e != r) c.fail("is_valid_range(%u, %llu) returned %d, expected %d", a, n, r, e);
    }
    // Everything observable in a neighbourhood.
    void sweep(const std::vector<uint32_t>& addrs, size_t maxn)
    {
        for(uint32_t a : addrs)
        {
            valid(a);
            get(a);
            for(size_t n = 1; n <= maxn; ++n) { range(a, n); get_values(a, n); }
        }
    }
};

const unsigned long long BigCounts[] = {65534, 65535, 65536, 65537, 65538, 131072, 131073, 1ULL << 31, (1ULL << 31) + 1, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) + 2, 1ULL << 63, ULLONG_MAX - 1, ULLONG_MAX};

uint32_t wrap(uint32_t a) { return a & 0xFFFF; }

// All histories of `depth` operations over a window of four addresses, from each of six initial layouts.
template<typename T> void histories(Ctx& c, uint32_t base, int depth, int nlayouts)
{
    static const unsigned layouts[] = {0x0, 0x5, 0xF, 0x1, 0x3, 0xB};
    auto p = std::make_unique<Pair<T>>(c);
    std::vector<uint32_t> w;
    for(uint32_t i = 0; i < 4; ++i) w.push_back(wrap(base + i));
    const unsigned layout = layouts[c.choose(nlayouts, "initial layout")];
    for(uint32_t i = 0; i < 4; ++i) if(layout >> i & 1) p->add(w[i], val<T>(i + 1));
    c.note("window %u..%u, initial layout %x", w[0], w[3], layout);
    for(int s = 0; s < depth; ++s)
    {
        // 8 adds, 8 sets, 16+16+16 range operations, 4+4 single queries, copy
        int op = c.choose(73, "operation");
        const unsigned tag = 10u * static_cast<unsigned>(s + 1);
        if(op < 8) { c.note("add %u", w[op >> 1]); p->add(w[op >> 1], val<T>(tag + 2 + (op & 1))); }
        else if((op -= 8) < 8) { c.note("set %u", w[op >> 1]); p->set(w[op >> 1], val<T>(tag + 2 + (op & 1))); }
        else if((op -= 8) < 16)
        {
            std::vector<T> v;
            for(int i = 0; i <= op >> 2; ++i) v.push_back(val<T>(tag + static_cast<unsigned>(i) + static_cast<unsigned>(s)));
            c.note("set_values %u..+%zu", w[op & 3], v.size());
            p->set_values(w[op & 3], v);
        }
        else if((op -= 16) < 16) { c.note("get_values %u..+%d", w[op & 3], (op >> 2) + 1); p->get_values(w[op & 3], static_cast<size_t>(op >> 2) + 1); }
        else if((op -= 16) < 16) { c.note("is_valid_range %u..+%d", w[op & 3], (op >> 2) + 1); p->range(w[op & 3], static_cast<unsigned>(op >> 2) + 1); }
        else if((op -= 16) < 4) { c.note("is_valid %u", w[op]); p->valid(w[op]); }
        else if((op -= 4) < 4) { c.note("get %u", w[op]); p->get(w[op]); }
        else
        {
            c.note("continue on a copy, then spoil the original");
            auto q = std::make_unique<Pair<T>>(c);
            q->db = p->db;
            q->ref = p->ref;
            for(uint32_t i = 0; i < 4; ++i) { p->db.add_value(static_cast<Address>(w[i]), val<T>(77)); p->db.set_value(static_cast<Address>(w[i]), flip(q->ref.has(w[i]) ? q->ref.m[w[i]] : val<T>(0))); }
            p = std::move(q);
        }
        c.state(c.fingerprint());
    }
    c.nontrivial();
    for(uint32_t i = 0; i < 6; ++i)
    {
        const uint32_t a = wrap(base + i + 65535);
        p->get1(a);
        for(size_t n = 1; n <= 5; ++n) p->range(a, n);
    }
    p->get_values(w[0], 4);
}

// Every subset of a ten-address window, added in three orders; every range in and around it.
template<typename T> void subsets(Ctx& c, uint32_t base)
{
    const unsigned hi = static_cast<unsigned>(c.choose(64, "addresses 0..5")), lo = static_cast<unsigned>(c.choose(16, "addresses 6..9"));
    const unsigned set = hi | lo << 6;
    const int order = c.choose(3, "insertion order");
    Pair<T> p(c);
    for(unsigned k = 0; k < 10; ++k)
    {
        const unsigned i = order == 0 ? k : order == 1 ? 9 - k : (k * 3) % 10;
        if(set >> i & 1) p.add(wrap(base + i), val<T>(i * 5 + 1));
    }
    c.note("base %u set %x order %d", base, set, order);
    std::vector<uint32_t> addrs;
    for(uint32_t i = 0; i < 12; ++i) addrs.push_back(wrap(base + i + 65535));
    p.sweep(addrs, 11);
    for(uint32_t a : addrs) for(auto n : BigCounts) p.range(a, n);
    c.state(c.fingerprint());
    // writes over every range: only the valid ones change anything
    for(uint32_t i = 0; i < 10; ++i)
        for(size_t n = 1; n <= 11; ++n)
        {
            std::vector<T> v;
            for(size_t k = 0; k < n; ++k) v.push_back(val<T>(static_cast<unsigned>(i * 16 + n * 3 + k * k)));
            p.set_values(wrap(base + i), v);
            for(uint32_t a : addrs) p.get(a);
        }
    c.nontrivial();
}

// Every insertion order of five addresses, with queries between the insertions.
template<typename T> void orders(Ctx& c, uint32_t base)
{
    Pair<T> p(c);
    std::vector<uint32_t> left, all;
    for(uint32_t i = 0; i < 5; ++i) left.push_back(wrap(base + i));
    all = left;
    while(!left.empty())
    {
        const int i = c.choose(static_cast<int>(left.size()), "next address");
        p.add(left[static_cast<size_t>(i)], val<T>(left.size()));
        p.add(left[static_cast<size_t>(i)], flip(val<T>(left.size())));
        left.erase(left.begin() + i);
        p.sweep(all, 6);
        c.state(c.fingerprint());
    }
    c.nontrivial();
}

// The whole address space present, less one hole.
template<typename T> void full(Ctx& c)
{
    static const uint32_t holes[] = {65536, 0, 1, 2, 124, 125, 126, 255, 256, 1967, 1968, 2000, 32767, 32768, 65409, 65410, 65411, 65533, 65534, 65535};
    const uint32_t hole = holes[c.choose(20, "hole")];
    Pair<T> p(c);
    for(uint32_t a = 0; a < 65536; ++a) if(a != hole) { const T v = val<T>(a ^ (a >> 5)); if(!p.db.add_value(static_cast<Address>(a), v)) c.fail("add_value(%u) failed", a); p.ref.m.emplace_hint(p.ref.m.end(), a, v); }
    c.step(65535);
    c.note("hole at %u", hole);
    for(uint32_t a : {0u, 1u, 3u, 127u, 256u, 32768u, 63536u, 65410u, 65411u, 65534u, 65535u})
    {
        for(unsigned long long n : {1ULL, 2ULL, 124ULL, 125ULL, 126ULL, 2000ULL, 2001ULL, 65536ULL - a - 1, 65536ULL - a, 65537ULL - a}) if(n) { p.range(a, n); p.get_values(a, n); }
        for(auto n : BigCounts) p.range(a, n);
    }
    // A write ending exactly at the last address, one that would wrap, and the whole space.
    for(uint32_t a : {65536u - 123, 65535u, 0u})
        for(size_t n : {size_t{123}, size_t{1}, size_t{124}, size_t{65536}, size_t{65537}})
        {
            std::vector<T> v(n);
            for(size_t k = 0; k < n; ++k) v[k] = val<T>(static_cast<unsigned>(k * 7 + n));
            p.set_values(a, v);
            for(uint32_t q : {0u, 1u, 122u, 65412u, 65413u, 65534u, 65535u}) p.get(q);
        }
    for(uint32_t a = 0; a < 65536; ++a) { T o = val<T>(0); if(p.db.get_value(static_cast<Address>(a), o) != p.ref.has(a) || (p.ref.has(a) && o != p.ref.m[a])) c.fail("address %u: wrong contents after the writes", a); }
    c.checked(65536);
    c.state(c.fingerprint());
    c.nontrivial();
}

// A block of every length, with a hole at every position.
template<typename T> void blocks(Ctx& c, int lengths)
{
    const int i = c.choose(lengths, "length");
    static const size_t more[] = {200, 247, 248, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1968, 1969, 2000, 2001};
    const size_t len = i < lengths - 17 ? static_cast<size_t>(i) + 1 : more[i - (lengths - 17)];
    const uint32_t base = c.choose(2, "place") ? static_cast<uint32_t>(65536 - len) : 1000;
    for(size_t hole = 0; hole <= len; hole += len > 150 ? (hole < 2 || hole + 3 > len ? 1 : len / 9) : 1)
    {
        Pair<T> p(c);
        for(size_t k = 0; k < len; ++k) if(k != hole) p.add(base + static_cast<uint32_t>(k), val<T>(static_cast<unsigned>(k * 11 + 1)));
        std::vector<T> v;
        for(size_t k = 0; k < len; ++k) v.push_back(val<T>(static_cast<unsigned>(k + (k >> 3) + 40000)));
        for(size_t n : {len - 1, len, len + 1}) if(n) { p.range(base, n); p.get_values(base, n); }
        if(hole < len) { p.range(base, hole ? hole : 1); p.range(base, hole + 1); p.range(wrap(base + static_cast<uint32_t>(hole)), 1); }
        p.set_values(base, v);
        p.get_values(base, len);
        if(hole < len) { if(hole) p.get_values(base, hole); if(len - hole - 1) p.get_values(base + static_cast<uint32_t>(hole) + 1, len - hole - 1); }
        v.push_back(val<T>(1));
        p.set_values(base, v);
        p.get_values(base, len);
        if(len > 1) { p.get_values(base + 1, len - 1); p.range(base + 1, len); p.get_values(wrap(base + static_cast<uint32_t>(len) - 1), 1); }
    }
    c.state(c.fingerprint());
    c.nontrivial();
}

// Every address alone and with its successor; every value.
template<typename T> void everywhere(Ctx& c)
{
    const uint32_t hi = static_cast<uint32_t>(c.choose(256, "address high byte")) << 8;
    Pair<T> all(c);
    for(uint32_t lo = 0; lo < 256; ++lo)
    {
        const uint32_t a = hi | lo;
        Pair<T> p(c);
        p.add(a, val<T>(a * 3 + 1));
        for(uint32_t q : {a, wrap(a + 1), wrap(a + 65535), a ^ 0x8000, a ^ 0x100, a ^ 1}) { p.valid(q); p.get(q); p.range(q, 1); p.range(q, 2); p.set(q, val<T>(q + 9)); }
        p.add(wrap(a + 1), val<T>(a));
        for(uint32_t q : {a, wrap(a + 1), wrap(a + 65535)}) { for(size_t n = 1; n <= 3; ++n) { p.range(q, n); p.get_values(q, n); } p.set_values(q, {val<T>(a + 5), val<T>(a + 6)}); p.get(a); p.get(wrap(a + 1)); }
        // every value
        all.set(7, val<T>(a));
        if(lo == 0) all.add(7, val<T>(a)), all.add(8, val<T>(a ^ 0xFFFF));
        all.set(7, val<T>(a));
        all.get(7);
        all.set_values(7, {val<T>(a ^ 0x5555), val<T>(a)});
        all.get_values(7, 2);
        Pair<T> one(c);
        one.add(lo, val<T>(a));
        one.get(lo);
    }
    c.state(c.fingerprint());
    c.nontrivial();
}

template<typename T> void scenarios(std::vector<mc::Scenario>& q, std::vector<mc::Scenario>& t, const std::string& n)
{
    auto both = [&](mc::Scenario s) { q.push_back(s); t.push_back(s); };
    for(uint32_t base : {0u, 65533u})
    {
        q.push_back({n + ": histories at " + std::to_string(base), [base](Ctx& c) { histories<T>(c, base, 3, 3); }, 0, "every history of 3 operations out of 73 over 4 adjacent addresses (at the end of the address space they wrap) from 3 layouts"});
        t.push_back({n + ": histories of 4 at " + std::to_string(base), [base](Ctx& c) { histories<T>(c, base, 4, 6); }, 0, "as quick, 4 operations, 6 layouts"});
    }
    for(uint32_t base : {0u, 1u, 32763u, 65526u, 65530u})
        both({n + ": subsets at " + std::to_string(base), [base](Ctx& c) { subsets<T>(c, base); }, 0, "every subset of 10 adjacent addresses in 3 insertion orders; every range of 1..11 in and around it, 15 counts beyond the address space; every write"});
    for(uint32_t base : {0u, 500u, 65532u})
        both({n + ": insertion orders at " + std::to_string(base), [base](Ctx& c) { orders<T>(c, base); }, 0, "every insertion order of 5 addresses with all queries in between"});
    both({n + ": whole address space", [](Ctx& c) { full<T>(c); }, 0, "all 65536 addresses, less one of 19 holes"});
    q.push_back({n + ": blocks", [](Ctx& c) { blocks<T>(c, 130 + 17); }, 0, "block lengths 1..130 and 17 longer ones, a hole at every position"});
    t.push_back({n + ": more blocks", [](Ctx& c) { blocks<T>(c, 2000 + 17); }, 0, "block lengths 1..2000"});
    both({n + ": every address and value", [](Ctx& c) { everywhere<T>(c); }, 0, "each of 65536 addresses alone and with its successor; each of 65536 values"});
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C08";
    scenarios<uint16_t>(o.quick, o.thorough, "registers");
    scenarios<bool>(o.quick, o.thorough, "bits");
    o.rule = "Each execution drives the real SingleTypeDatabase through one choice sequence and compares every return value, output and finally the whole neighbourhood with a std::map reference.";
    o.assumptions = {"ranges are non-empty", "the library is compiled from the working tree with address and undefined behaviour sanitizers"};
    return mc::main(argc, argv, o);
}
