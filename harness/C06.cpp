// C06: InMemoryDatabase against four plain maps, over all bounded histories.
#include "dbpair.hpp"

using namespace dbp;
using mc::Ctx;

namespace
{

uint32_t wrap(uint32_t a) { return a & 0xFFFF; }

void histories(Ctx& c, uint32_t base, int depth, int layouts)
{
    const uint32_t w[3] = {wrap(base), wrap(base + 1), wrap(base + 2)};
    DbPair p(c);
    const int layout = c.choose(layouts, "layout");
    // 0: mixed holes in each kind; 1: nothing; 2: everything
    static const unsigned present[3][4] = {{0x3, 0x5, 0x7, 0x6}, {0, 0, 0, 0}, {7, 7, 7, 7}};
    for(int k = 0; k < 4; ++k) for(unsigned i = 0; i < 3; ++i) if(present[layout][k] >> i & 1) p.add(k, w[i], 100u * static_cast<unsigned>(k) + i + 1);
    c.note("addresses %u..%u, layout %d", w[0], w[2], layout);
    for(int st = 0; st < depth; ++st)
    {
        const unsigned tag = 1000u * static_cast<unsigned>(st + 1);
        // 12 adds, 36 reads, 12 writes (two values), 18 multiple writes, 12 transactional sets, 3 other transactions
        int op = c.choose(93, "operation");
        if(op < 12) { c.note("add %s %u", kind_name(op % 4), w[op / 4]); p.add(op % 4, w[op / 4], tag + 1 + static_cast<unsigned>(st)); }
        else if((op -= 12) < 36) { const int k = op % 4, i = op / 4 % 3, n = op / 12 + 1; c.note("read %d %s at %u", n, kind_name(k), w[i]); p.read(k, w[i], static_cast<size_t>(n)); }
        else if((op -= 36) < 12) { const int k = op & 1 ? Holding : Coil, i = op / 2 % 3, v = op / 6; c.note("write %s %u", kind_name(k), w[i]); p.write1(k, w[i], tag + static_cast<unsigned>(v)); }
        else if((op -= 12) < 18)
        {
            const int k = op & 1 ? Holding : Coil, i = op / 2 % 3, n = op / 6 + 1;
            std::vector<uint16_t> v;
            for(int j = 0; j < n; ++j) v.push_back(static_cast<uint16_t>(tag + 10u * static_cast<unsigned>(n) + static_cast<unsigned>(j + st)));
            c.note("write %d %ss at %u", n, kind_name(k), w[i]);
            p.writen(k, w[i], v);
        }
        else if((op -= 18) < 12)
        {
            const int k = op % 4, i = op / 4;
            c.note("transaction: set %s %u", kind_name(k), w[i]);
            p.tx([&](IDatabase& d) { p.tx_get(d, k, w[i]); p.tx_set(d, k, w[i], tag + 77); p.tx_get(d, k, w[i]); p.tx_get(d, k ^ 1, w[i]); });
        }
        else if((op -= 12) == 0)
        {
            c.note("transaction: increment everything");
            p.tx([&](IDatabase& d) { for(int k = 0; k < 4; ++k) for(uint32_t a : w) { p.tx_set(d, k, a, p.ref.has(k, a) ? p.ref.m[k][a] + 1u : 1u); p.tx_get(d, k, a); } });
        }
        else if(op == 1)
        {
            c.note("transaction: copy inputs to outputs");
            p.tx([&](IDatabase& d) { for(uint32_t a : w) { if(p.ref.has(Discrete, a)) p.tx_set(d, Coil, a, p.ref.m[Discrete][a]); if(p.ref.has(Input, a)) p.tx_set(d, Holding, a, p.ref.m[Input][a]); } });
        }
        else
        {
            c.note("transaction that throws");
            try { p.db->execute_transaction([&](IDatabase& d) { for(int k = 0; k < 4; ++k) p.tx_get(d, k, w[1]); throw std::runtime_error("user"); }); }
            catch(const std::runtime_error&) {}
        }
        c.state(c.fingerprint());
    }
    c.nontrivial();
    std::vector<uint32_t> a{w, w + 3};
    a.push_back(wrap(base + 3));
    a.push_back(wrap(base + 65535));
    p.tx([&](IDatabase& d) { for(int k = 0; k < 4; ++k) for(uint32_t x : a) p.tx_get(d, k, x); });
    for(int k = 0; k < 4; ++k) for(int i = 0; i < 3; ++i) for(size_t n = 1; n <= 3; ++n) if(p.ref.range(k, w[i], n)) p.read(k, w[i], n);
    for(int k = 0; k < 4; ++k) p.read(k, wrap(base + 2), 3);
}

// All quantities the protocol allows (and the sizes a session may be asked for), at both ends of the space.
void sizes(Ctx& c, int step)
{
    const int k = c.choose(4, "kind");
    const size_t max_read = is_bit(k) ? 2000 : 125, max_write = k == Coil ? 1968 : 123;
    const uint32_t base = c.choose(2, "place") ? static_cast<uint32_t>(65536 - max_read) : 0;
    const int hole = c.choose(6, "hole");
    static const int where[] = {-1, 0, 1, 2, 3, 4}; // none, first, second, middle, last but one, last
    const long h = where[hole] < 0 ? -1 : hole == 1 ? 0 : hole == 2 ? 1 : hole == 3 ? static_cast<long>(max_read / 2) : hole == 4 ? static_cast<long>(max_read) - 2 : static_cast<long>(max_read) - 1;
    DbPair p(c);
    for(size_t i = 0; i < max_read; ++i) if(static_cast<long>(i) != h) p.add(k, base + static_cast<uint32_t>(i), static_cast<unsigned>(i * 7 + (i >> 4)));
    // another kind at the same addresses must not matter
    for(size_t i = 0; i < max_read; i += 3) p.add((k + 1) % 4, base + static_cast<uint32_t>(i), static_cast<unsigned>(i));
    c.note("%s at %u, hole %ld", kind_name(k), base, h);
    for(size_t n = 1; n <= max_read; n = n < 30 || n + 30 > max_read ? n + 1 : n + static_cast<size_t>(step))
    {
        p.read(k, base, n);
        p.read(k, wrap(base + static_cast<uint32_t>(max_read - n)), n);
        if(n < max_read) p.read(k, base + 1, n);
        if(n == max_read) p.read(k, wrap(base + 1), n);
        if((k == Coil || k == Holding) && n <= max_write && (n % 7 == 1 || n > max_write - 3 || n < 18))
        {
            std::vector<uint16_t> v;
            for(size_t i = 0; i < n; ++i) v.push_back(static_cast<uint16_t>(i * 13 + n + (i >> 3)));
            p.writen(k, base, v);
            p.read(k, base, n);
            p.writen(k, wrap(base + static_cast<uint32_t>(max_read - n)), v);
            p.read(k, wrap(base + static_cast<uint32_t>(max_read - n)), n);
            p.writen(k, wrap(base + static_cast<uint32_t>(max_read - n) + 1), v);
        }
    }
    c.state(c.fingerprint());
    for(size_t i = 0; i < max_read; ++i) { p.read(k, base + static_cast<uint32_t>(i), 1); p.read((k + 1) % 4, base + static_cast<uint32_t>(i), 1); p.read((k + 2) % 4, base + static_cast<uint32_t>(i), 1); }
    c.nontrivial();
}

// Every address with every operation, every register value; four kinds at the same address.
void everywhere(Ctx& c)
{
    const uint32_t hi = static_cast<uint32_t>(c.choose(256, "address high byte")) << 8;
    DbPair all(c);
    for(int k = 0; k < 4; ++k) all.add(k, 5, 1);
    for(uint32_t lo = 0; lo < 256; ++lo)
    {
        const uint32_t a = hi | lo;
        {
            DbPair p(c);
            const int k0 = static_cast<int>(lo & 3);
            p.add(k0, a, a + 1);
            for(int k = 0; k < 4; ++k) { p.read(k, a, 1); p.read(k, a, 2); p.tx([&](IDatabase& d) { p.tx_get(d, k, a); p.tx_set(d, k, a, a + 2); p.tx_get(d, k, a); p.tx_set(d, k, wrap(a + 1), 1); }); }
            p.write1(Coil, a, a); p.write1(Holding, a, a);
            p.writen(Coil, a, {1}); p.writen(Holding, a, {7});
            for(int k = 0; k < 4; ++k) { p.add(k, a, 3); p.add(k, a, 4); p.read(k, a, 1); p.add(k, wrap(a + 1), 5); p.read(k, a, 2); p.read(k, wrap(a + 65535), 2); }
            p.writen(Coil, a, {1, 0}); p.writen(Holding, a, {8, 9}); p.writen(Coil, a, {1, 0, 1}); p.writen(Holding, a, {8, 9, 10});
            p.sweep({a, wrap(a + 1), wrap(a + 65535), a ^ 0x100, a ^ 0x8000});
        }
        all.write1(Holding, 5, a); all.read(Holding, 5, 1);
        all.writen(Holding, 5, {static_cast<uint16_t>(a ^ 0xFFFF)}); all.read(Holding, 5, 1);
        all.tx([&](IDatabase& d) { all.tx_set(d, Input, 5, a); all.tx_get(d, Input, 5); all.tx_set(d, Holding, 5, a ^ 0x00FF); all.tx_get(d, Holding, 5); });
        all.read(Input, 5, 1); all.read(Holding, 5, 1);
        DbPair one(c);
        one.add(Input, 9, a); one.add(Holding, 9, a ^ 0xAAAA);
        one.read(Input, 9, 1); one.read(Holding, 9, 1);
    }
    c.state(c.fingerprint());
    c.nontrivial();
}

// A transaction that throws half way: what it had not touched is unchanged, the rest is old or new, and the
// database goes on working.
void throwing(Ctx& c)
{
    DbPair p(c);
    for(int k = 0; k < 4; ++k) for(uint32_t a = 0; a < 2; ++a) p.add(k, a, 10u * static_cast<unsigned>(k) + a);
    for(int round = 0; round < 2; ++round)
    {
        const int n = c.choose(9, "sets before the throw");
        const int kind = c.choose(4, "what is thrown");
        const Ref before = p.ref;
        bool ran = false;
        auto body = [&](IDatabase& d) {
            ran = true;
            for(int i = 0; i < n; ++i) p.tx_set(d, i % 4, static_cast<uint32_t>(i / 4), 1000u + static_cast<unsigned>(100 * round + i) + 1u - (p.ref.m[i % 4][static_cast<uint32_t>(i / 4)] & 1u));
            if(kind == 1) throw std::runtime_error("user");
            if(kind == 2) throw 42;
            if(kind == 3) throw ModbusException{ExceptionType::IllegalDataValue};
        };
        try { p.db->execute_transaction(body); } catch(const std::runtime_error&) {} catch(int) {} catch(const ModbusException&) {}
        if(!ran) c.fail("the transaction did not run");
        c.note("transaction with %d sets, ending %d", n, kind);
        if(kind)
        {
            // the contents now are the reference's from here on, if each is old or new
            for(int k = 0; k < 4; ++k) for(uint32_t a = 0; a < 2; ++a)
            {
                uint16_t got = 0;
                p.db->execute_transaction([&](IDatabase& d) { bool b = false; uint16_t r = 0; const bool ok = k == Coil ? d.get_coil(static_cast<Address>(a), b) : k == Discrete ? d.get_discrete_input(static_cast<Address>(a), b) : k == Holding ? d.get_holding_register(static_cast<Address>(a), r) : d.get_input_register(static_cast<Address>(a), r); if(!ok) c.fail("%s %u is gone after a transaction threw", kind_name(k), a); got = is_bit(k) ? b : r; });
                c.checked();
                if(got != before.m[k].at(a) && got != p.ref.m[k].at(a)) c.fail("%s %u is %u after a transaction threw; it was %u and was set to %u", kind_name(k), a, got, before.m[k].at(a), p.ref.m[k].at(a));
                p.ref.m[k][a] = got;
            }
        }
        p.sweep({0, 1, 2});
        p.write1(Coil, 0, 1); p.write1(Holding, 1, 999); p.add(Coil, 2u + static_cast<unsigned>(round), 1);
        c.state(c.fingerprint());
    }
    p.sweep({0, 1, 2, 3});
    c.nontrivial();
}

// All 65536 addresses of a kind, in either order, next to little or much of another kind.
void full(Ctx& c)
{
    const int k = c.choose(4, "kind"), order = c.choose(3, "order"), other = (k + 1 + c.choose(3, "other kind")) % 4;
    DbPair p(c);
    for(uint32_t i = 0; i < 65536; ++i)
    {
        const uint32_t a = order == 0 ? i : order == 1 ? 65535 - i : (i * 40503u) & 0xFFFF;
        p.add(k, a, a * 7 + (a >> 5));
        if(i >= 65530 || i % 8192 == 0) { p.read(k, a, 1); p.read(other, a, 1); p.tx([&](IDatabase& d) { p.tx_get(d, k, a); p.tx_set(d, k, a, a + 3); p.tx_get(d, k, a ^ 1); p.tx_get(d, other, a); }); }
    }
    const size_t most = is_bit(k) ? 2000 : 125;
    for(uint32_t a = 0; a < 65536; a += static_cast<uint32_t>(most)) p.read(k, a, std::min<size_t>(most, 65536 - a));
    p.read(k, 65535, 2);
    // adding what is there already, and another kind
    for(uint32_t a : {0u, 1u, 255u, 256u, 32767u, 32768u, 65534u, 65535u}) { p.add(k, a, 9); p.read(k, a, 1); p.add(other, a, 4); p.read(other, a, 1); p.read(k, a, 1); }
    if(k == Coil || k == Holding) for(uint32_t a : {0u, 65535u - 122u, 65535u - 121u}) { std::vector<uint16_t> v; for(uint32_t i = 0; i < 123; ++i) v.push_back(static_cast<uint16_t>(i * 3 + a)); p.writen(k, a, v); p.write1(k, a, 1); p.read(k, a, std::min<size_t>(123, 65536 - a)); }
    p.sweep({0, 1, 2, 32768, 65534, 65535});
    c.state(c.fingerprint());
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C06";
    for(uint32_t base : {65533u, 0u, 65534u})
    {
        if(base != 0) o.quick.push_back({"histories at " + std::to_string(base), [base](Ctx& c) { histories(c, base, 3, 1); }, 0, "every history of 3 operations out of 93 (four kinds, 3 addresses) from a layout with different holes in each kind"});
        o.thorough.push_back({"histories of 4 at " + std::to_string(base), [base](Ctx& c) { histories(c, base, 4, base == 65533u ? 3 : 1); }, 0, "every history of 4 operations out of 93"});
    }
    o.quick.push_back({"sizes", [](Ctx& c) { sizes(c, 37); }, 0, "register quantities 1..125, bit quantities 1..2000 (each near both ends, every 37th between), at both ends of the address space, six hole positions"});
    o.thorough.push_back({"all sizes", [](Ctx& c) { sizes(c, 1); }, 0, "all quantities 1..125 / 1..2000"});
    for(auto* v : {&o.quick, &o.thorough})
    {
        v->push_back({"every address and value", everywhere, 0, "each of 65536 addresses; each of 65536 register values"});
        v->push_back({"every address at once", full, 0, "all 65536 addresses of a kind, added in three orders, next to another kind"});
        v->push_back({"throwing transactions", throwing, 0, "0..8 sets before nothing/three kinds of exception, twice in a row"});
    }
    o.rule = "Each execution drives the real InMemoryDatabase through one history and compares every answer and finally all contents with four std::maps.";
    o.assumptions = {"requests ask for at least one value", "IDatabase is used only inside a transaction"};
    return mc::main(argc, argv, o);
}
