// C05: the library's client talks to the library's server serving its in-memory database, over simulated TCP in
// the middle of which the explorer sits. Every outcome is compared with four plain maps per unit.
#include "dbpair.hpp"
#include "simworld.hpp"

namespace
{
using namespace hw;
using dbp::Ref;

enum : unsigned { SPLIT = 1, RACES = 2, CUTS = 4, APP = 8, QUEUE = 16, DIRECT = 32  };

int map_of(int kind) // the map a request works on
{
    switch(kind)
    {
    case ref::ReadCoils: case ref::WriteCoil: case ref::WriteCoils: return dbp::Coil;
    case ref::ReadDiscrete: return dbp::Discrete;
    case ref::ReadInput: return dbp::Input;
    default: return dbp::Holding;
    }
}
// What a plain register map answers (and does).
Out apply(Ref& m, const Req& r)
{
    Out o;
    const int k = map_of(r.kind);
    if(!m.range(k, r.addr, r.count())) { o.type = 'E'; o.code = 2; return o; }
    o.type = 'D';
    if(ref::is_read(r.kind)) { for(uint32_t i = 0; i < r.qty; ++i) { o.data.push_back(r.addr + i); o.data.push_back(m.m[k][r.addr + i]); } return o; }
    for(uint32_t i = 0; i < r.vals.size(); ++i) m.m[k][r.addr + i] = r.vals[i];
    if(ref::is_single(r.kind)) o.data = {r.addr, r.vals[0]}; else o.data = {r.addr, static_cast<uint32_t>(r.vals.size())};
    return o;
}

// Tells us when the server asks the database; otherwise transparent.
struct Watch : modbus::IServerSession
{
    std::shared_ptr<modbus::InMemoryDatabase> db = std::make_shared<modbus::InMemoryDatabase>();
    std::function<void(const Req&)> asked;
    void shutdown() override {}
    static Req rd(int k, uint32_t a, uint32_t n) { Req r; r.kind = k; r.addr = a; r.qty = n; return r; }
    static Req wr(int k, uint32_t a, std::vector<uint16_t> v) { Req r; r.kind = k; r.addr = a; r.vals = std::move(v); return r; }
    template<typename Q> auto go(Req r, const Q& q) { asked(r); return static_cast<modbus::IServerSession&>(*db).on_request(q); }
#define F(N, R) modbus::Expected<modbus::N##Response> on_request(const modbus::N##Request& q) override { return go(R, q); }
    F(ReadCoils, rd(ref::ReadCoils, q.starting_address, q.qty_of_bits))
    F(ReadDiscreteInputs, rd(ref::ReadDiscrete, q.starting_address, q.qty_of_bits))
    F(ReadHoldingRegisters, rd(ref::ReadHolding, q.starting_address, q.qty_of_registers))
    F(ReadInputRegisters, rd(ref::ReadInput, q.starting_address, q.qty_of_registers))
    F(WriteSingleCoil, wr(ref::WriteCoil, q.value.address, {static_cast<uint16_t>(q.value.value)}))
    F(WriteSingleRegister, wr(ref::WriteReg, q.value.address, {q.value.value}))
    F(WriteMultipleCoils, wr(ref::WriteCoils, q.starting_address, std::vector<uint16_t>(q.values.begin(), q.values.end())))
    F(WriteMultipleRegisters, wr(ref::WriteRegs, q.starting_address, q.values))
#undef F
};

struct Unit { unsigned id; std::shared_ptr<Watch> watch; Ref ref; };
struct Sent { Req r; size_t unit; bool applied = false; Out expected; int calls = 0; bool maybe_lost = false; bool bad = false; };

struct Chan
{
    std::shared_ptr<modbus::IClientChannel> chan;
    std::vector<std::shared_ptr<modbus::IClientSession>> sessions; // one per unit
    std::deque<std::shared_ptr<Sent>> open;                        // without an outcome yet, in order
};

struct E2E
{
    mc::Ctx& c;
    World w;
    const unsigned menu;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IServerChannel> server;
    std::vector<Unit> units;
    std::vector<Chan> chans;
    unsigned salt = 1;

    E2E(mc::Ctx& ctx, unsigned m, size_t n_chans, std::vector<unsigned> ids, bool big) : c(ctx), menu(m)
    {
        man = modbus::IModbusManager::create(null_logger(), 1);
        server = man->create_server_tcp_channel("s", modbus::Ipv4Endpoint{"0.0.0.0", 502}, 8, modbus::LoggingLevel::Critical);
        for(unsigned id : ids)
        {
            units.push_back({id, std::make_shared<Watch>(), {}});
            const size_t u = units.size() - 1;
            units.back().watch->asked = [this, u](const Req& r) { on_asked(u, r); };
            if(menu & DIRECT) server->add_session(UnitIdentifier{static_cast<uint8_t>(id)}, units.back().watch->db);
            else server->add_session(UnitIdentifier{static_cast<uint8_t>(id)}, units.back().watch);
            for(int k = 0; k < 4; ++k)
            {
                for(uint32_t a = 0; a < (big ? 2100u : 11u); ++a) add(u, k, a);
                add(u, k, 3000); add(u, k, 3002); add(u, k, 65534); add(u, k, 65535);
            }
        }
        server->start();
        for(size_t i = 0; i < n_chans; ++i)
        {
            Chan x;
            x.chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"10.0.0.1", 502}, "", modbus::LoggingLevel::Critical);
            for(unsigned id : ids) x.sessions.push_back(x.chan->create_session(UnitIdentifier{static_cast<uint8_t>(id)}, 1s));
            chans.push_back(std::move(x));
        }
        w->drain();
    }
    ~E2E() { for(auto& x : chans) { x.sessions.clear(); x.chan.reset(); } server.reset(); man.reset(); }

    bool add(size_t u, int k, uint32_t a)
    {
        const uint16_t v = dbp::DbPair::norm(k, (a * 40503u + static_cast<unsigned>(k) * 7 + static_cast<unsigned>(u) * 977 + 3) >> 1);
        auto& db = *units[u].watch->db;
        const auto ad = static_cast<modbus::Address>(a);
        const bool r = k == dbp::Coil ? db.add_coil(ad, v) : k == dbp::Discrete ? db.add_discrete_input(ad, v) : k == dbp::Holding ? db.add_holding_register(ad, v) : db.add_input_register(ad, v);
        const bool e = units[u].ref.m[k].emplace(a, v).second;
        c.checked();
        if(r != e) c.fail("adding %s %u of unit %u returned %d, expected %d", dbp::kind_name(k), a, units[u].id, r, e);
        return r;
    }
    // The server asks a session: this must be what some channel's oldest open request asks, and not be asked again.
    void on_asked(size_t u, const Req& r)
    {
        c.step(); c.checked();
        for(auto& x : chans)
            for(auto& s : x.open)
            {
                if(s->bad) continue;
                if(s->applied) continue;
                if(s->unit == u && s->r == r)
                {
                    s->applied = true;
                    s->expected = apply(units[u].ref, r);
                    return;
                }
                break; // only the oldest that the server has not seen yet
            }
        c.fail("unit %u was asked to %s %u at %u, which is not what the next request of any client asks for", units[u].id, ref::name(r.kind), r.count(), r.addr);
    }
    void request(size_t ch, size_t u, const Req& r)
    {
        auto s = std::make_shared<Sent>();
        s->r = r; s->unit = u;
        s->bad = !ref::valid(r);
        c.note("client %zu, unit %u: %s, %u at %u", ch, units[u].id, ref::name(r.kind), r.count(), r.addr);
        c.step();
        if(menu & DIRECT)
        {
            if(!s->bad) { s->applied = true; s->expected = apply(units[u].ref, r); }
        }
        chans[ch].open.push_back(s);
        send(*chans[ch].sessions[u], r, nullptr, [this, ch, s](const Out& o) {
            c.checked();
            c.note("    outcome: %s", o.str().c_str());
            c.observe(static_cast<uint64_t>(o.type) << 32 | o.code);
            for(auto v : o.data) c.observe(v);
            if(++s->calls > 1) c.fail("%s at %u: a second outcome", ref::name(s->r.kind), s->r.addr);
            auto& open = chans[ch].open;
            auto it = std::find(open.begin(), open.end(), s);
            if(it != open.end()) open.erase(it);
            if(s->bad) { if(o.type != 'Q') c.fail("a request out of limits gives: %s", o.str().c_str()); return; }
            if(o.type == 'D' || o.type == 'E')
            {
                if(!s->applied) c.fail("%s %u at %u: %s, though the server has not been asked", ref::name(s->r.kind), s->r.count(), s->r.addr, o.str().c_str());
                if(o != s->expected) c.fail("%s %u at %u: %s, expected %s", ref::name(s->r.kind), s->r.count(), s->r.addr, o.str().c_str(), s->expected.str().c_str());
                return;
            }
            if((o.type == 'C' || o.type == 'T') && s->maybe_lost) return;
            c.fail("%s %u at %u: %s without any failure", ref::name(s->r.kind), s->r.count(), s->r.addr, o.str().c_str());
        });
    }
    // ---- the network ----
    bool join_up() // resolutions and connections
    {
        bool any = false;
        while(!w->resolves.empty()) { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); any = true; }
        for(auto& wk : std::vector<std::weak_ptr<sim::Socket>>(w->sockets))
        {
            auto s = wk.lock();
            if(!s || !s->connecting) continue;
            auto k = w->incoming(502);
            if(!k) c.fail("nobody listens");
            auto cli = w->complete_connect(s, {});
            links.push_back({cli, k});
            any = true;
        }
        return any;
    }
    struct Link { std::shared_ptr<sim::Conn> cli, srv; size_t up = 0, down = 0; bool cut = false; };
    std::vector<Link> links; // every connection ever made
    size_t carry(Link& l, bool up, size_t n)
    {
        auto& from = up ? *l.cli : *l.srv;
        auto& to = up ? *l.srv : *l.cli;
        size_t& at = up ? l.up : l.down;
        n = std::min(n, from.tx.size() - at);
        if(n == 0) return 0;
        Bytes b(from.tx.begin() + static_cast<long>(at), from.tx.begin() + static_cast<long>(at + n));
        at += n;
        c.note("  network: %zu bytes %s", n, up ? "to the server" : "to the client");
        c.step();
        to.deliver(b);
        return n;
    }
    size_t pending(const Link& l, bool up) const { return l.cut ? 0 : up ? l.cli->tx.size() - l.up : l.srv->tx.size() - l.down; }
    void closes(Link& l) // one side closed: the other one sees the end of the stream
    {
        if(l.cut) return;
        if(l.cli->local_closed && pending(l, true) == 0 && !l.srv->rx_eof && l.srv->alive()) { l.srv->peer_eof(); }
        if(l.srv->local_closed && pending(l, false) == 0 && !l.cli->rx_eof && l.cli->alive()) { l.cli->peer_eof(); }
    }
    void cut(Link& l)
    {
        c.note("  network: the connection breaks");
        l.cut = true;
        const auto ec = sim::sys_ec(std::errc::connection_reset);
        for(auto& x : chans) for(auto& s : x.open) s->maybe_lost = true;
        l.cli->peer_reset(ec);
        l.srv->peer_reset(ec);
    }
    void one() { auto r = w->ready(); w->run_one(r.front()); c.step(); }
    void settle()
    {
        for(int i = 0; i < 100000; ++i)
        {
            w->flush_deferred();
            if(w->has_ready())
            {
                auto r = w->ready();
                size_t k = 0;
                if((menu & RACES) && r.size() > 1 && c.can_deviate()) k = static_cast<size_t>(c.deviate(static_cast<int>(r.size()), "which queue"));
                w->run_one(r[k]);
                c.step();
                continue;
            }
            if(join_up()) continue;
            bool any = false;
            for(size_t li = 0; li < links.size() && !any; ++li)
                for(int dir = 0; dir < 2 && !any; ++dir)
                {
                    auto& l = links[li];
                    const size_t n = pending(l, dir == 0);
                    if(n == 0) continue;
                    any = true;
                    size_t k = n;
                    if((menu & SPLIT) && c.can_deviate())
                    {
                        // every first piece of the bytes under way, or (with CUTS) a break after it
                        const size_t opts = n <= 24 ? n : 24;
                        const int extra = (menu & CUTS) ? static_cast<int>(opts) + 1 : 0;
                        const int d = c.deviate(static_cast<int>(opts) + extra, "piece");
                        if(d > 0 && d < static_cast<int>(opts)) k = n <= 24 ? static_cast<size_t>(d) : static_cast<size_t>(d < 12 ? d : static_cast<int>(n) - (24 - d));
                        if(d >= static_cast<int>(opts))
                        {
                            const size_t z = static_cast<size_t>(d) - opts;
                            carry(l, dir == 0, z);
                            if(c.choose(2, "seen before the break")) while(w->has_ready()) one();
                            cut(l);
                            break;
                        }
                    }
                    carry(l, dir == 0, k);
                }
            if(any) continue;
            for(auto& l : links) closes(l);
            if(!w->has_ready()) return;
        }
        c.fail("the traffic never settles");
    }
    void app(size_t u, int what)
    {
        auto& un = units[u];
        auto& db = *un.watch->db;
        c.step();
        switch(what)
        {
        case 0: // a transaction that moves a value from one map to another
            c.note("server application: transaction on unit %u", un.id);
            db.execute_transaction([&](modbus::IDatabase& d) {
                uint16_t v = 0;
                c.checked(3);
                if(!d.get_holding_register(1, v) || v != un.ref.m[dbp::Holding][1]) c.fail("the transaction sees %u in holding register 1, expected %u", v, un.ref.m[dbp::Holding][1]);
                if(!d.set_input_register(2, static_cast<uint16_t>(v + 1))) c.fail("the transaction cannot set input register 2");
                if(!d.set_discrete_input(3, true) || !d.set_coil(0, !un.ref.m[dbp::Coil][0])) c.fail("the transaction cannot set bits");
            });
            un.ref.m[dbp::Input][2] = static_cast<uint16_t>(un.ref.m[dbp::Holding][1] + 1);
            un.ref.m[dbp::Discrete][3] = 1;
            un.ref.m[dbp::Coil][0] = !un.ref.m[dbp::Coil][0];
            break;
        default: c.note("server application: adds addresses 11 and 3001 to unit %u", un.id); for(int k = 0; k < 4; ++k) { add(u, k, 11); add(u, k, 3001); }
        }
    }
    // Reads everything back through client `ch`, one request at a time.
    void sweep(size_t ch)
    {
        for(size_t u = 0; u < units.size(); ++u)
            for(int k : {ref::ReadCoils, ref::ReadDiscrete, ref::ReadHolding, ref::ReadInput})
            {
                request(ch, u, rd(k, 0, 11)); settle();
                request(ch, u, rd(k, 3000, 1)); settle();
                request(ch, u, rd(k, 3002, 1)); settle();
                request(ch, u, rd(k, 65534, 2)); settle();
                done(ch);
            }
    }
    void done(size_t ch) { c.checked(); if(!chans[ch].open.empty()) c.fail("%zu requests of client %zu never get an outcome", chans[ch].open.size(), ch); }
    void finish()
    {
        settle();
        if(menu & CUTS) { w->advance(2s); settle(); }
        for(size_t i = 0; i < chans.size(); ++i) done(i);
        c.devs = c.dev_bound; // no more deviations
        sweep(0);
    }

    static Req rd(int k, uint32_t a, uint32_t n) { return Watch::rd(k, a, n); }
    Req wr(int k, uint32_t a, uint32_t n)
    {
        std::vector<uint16_t> v;
        ++salt;
        for(uint32_t i = 0; i < n; ++i) { const uint32_t x = (i + 1) * 0x9E37u + salt * 0x3D7u; v.push_back(static_cast<uint16_t>(ref::is_bits(k) ? (x >> 4 & 1) ^ (salt & 1) : x)); }
        return Watch::wr(k, a, v);
    }
    // Different clients ask for different addresses, so that the server's question tells whose request it is.
    std::vector<Req> ops(bool few, uint32_t shift)
    {
        std::vector<Req> r;
        for(int k = 0; k < ref::Kinds; ++k)
        {
            auto mk = [&](uint32_t a, uint32_t n) { return ref::is_read(k) ? rd(k, a, n) : wr(k, a, ref::is_single(k) ? 1 : n); };
            r.push_back(mk(1 + shift, 3));
            if(few && !ref::is_multi(k) && k != ref::ReadHolding) continue;
            r.push_back(mk(9 + shift, 3));
            if(few) continue;
            r.push_back(mk(0, 11)); r.push_back(mk(65534, 2)); r.push_back(mk(65535, 2)); r.push_back(mk(3001, 1)); r.push_back(mk(3000, 3));
            if(!ref::is_single(k)) r.push_back(mk(5, 0));
        }
        return r;
    }
};

// Every operation of the menu, in every order, each settled before the next.
void history(mc::Ctx& c, unsigned menu, std::vector<unsigned> ids, size_t chans, bool few, int depth)
{
    E2E s(c, menu, chans, ids, false);
    for(int i = 0; i < depth; ++i)
    {
        const size_t ch = chans > 1 ? static_cast<size_t>(c.choose(static_cast<int>(chans), "client")) : 0;
        auto ops = s.ops(few, static_cast<uint32_t>(ch));
        const int n_app = (menu & APP) ? 2 : 0;
        const int n = static_cast<int>(ops.size());
        const int pick = c.choose(n + n_app, "operation");
        const size_t u = ids.size() > 1 ? static_cast<size_t>(c.choose(static_cast<int>(ids.size()), "unit")) : 0;
        if(pick >= n) { s.app(u, pick - n); continue; }
        s.request(ch, u, ops[static_cast<size_t>(pick)]);
        if((menu & QUEUE) && i + 1 < depth && c.choose(2, "queue the next behind it")) continue;
        if((menu & QUEUE) && i + 1 < depth && c.choose(2, "only start it")) { s.w->drain(); s.join_up(); s.w->drain(); continue; }
        s.settle();
        if(!(menu & (CUTS | QUEUE))) s.done(ch);
    }
    c.nontrivial();
    s.finish();
}
// Every quantity of every kind, on a large map.
void quantities(mc::Ctx& c, bool all)
{
    E2E s(c, 0, 1, {7}, true);
    const int k = c.choose(ref::Kinds, "kind");
    const uint32_t max = ref::max_qty(k);
    std::vector<uint32_t> qs;
    if(all) for(uint32_t q = 0; q <= max + 1; ++q) qs.push_back(q);
    else for(uint32_t q : {0u, 1u, 2u, 7u, 8u, 9u, 15u, 16u, 17u, 63u, 64u, 65u, 121u, 122u, 123u, 124u, 125u, 126u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u, 1967u, 1968u, 1969u, 1992u, 1999u, 2000u, 2001u}) if(q <= max + 1) qs.push_back(q);
    if(ref::is_single(k)) qs = {1};
    const uint32_t q = qs[static_cast<size_t>(c.choose(static_cast<int>(qs.size()), "quantity"))];
    const uint32_t a = c.choose(2, "address") ? 2100 - std::min(q, 2100u) : 0;
    const Req r = ref::is_read(k) ? E2E::rd(k, a, q) : s.wr(k, a, q);
    s.request(0, 0, r);
    s.settle();
    s.done(0);
    if(!ref::is_read(k)) // read it back with some around it
    {
        const int rk = map_of(k) == dbp::Coil ? ref::ReadCoils : ref::ReadHolding;
        for(uint32_t at = 0; at < 2100; at += ref::max_qty(rk)) { s.request(0, 0, E2E::rd(rk, at, std::min(ref::max_qty(rk), 2100 - at))); s.settle(); }
        s.done(0);
    }
    c.nontrivial();
}
// Every value of a register and of a coil survives.
void values(mc::Ctx& c)
{
    E2E s(c, 0, 1, {7}, false);
    const uint32_t hi = static_cast<uint32_t>(c.choose(256, "high byte"));
    for(uint32_t lo = 0; lo < 256; ++lo)
    {
        const auto v = static_cast<uint16_t>(hi << 8 | lo);
        if(lo & 1) s.request(0, 0, Watch::wr(ref::WriteReg, 3, {v}));
        else s.request(0, 0, Watch::wr(ref::WriteRegs, 2, {static_cast<uint16_t>(~v), v, static_cast<uint16_t>(v + 1)}));
        s.settle();
        s.request(0, 0, E2E::rd(ref::ReadHolding, 2, 3));
        s.settle();
        s.request(0, 0, Watch::wr(ref::WriteCoils, 0, [&] { std::vector<uint16_t> b; for(int i = 0; i < 11; ++i) b.push_back(v >> i & 1); return b; }()));
        s.settle();
        s.request(0, 0, E2E::rd(ref::ReadCoils, 0, 11));
        s.settle();
    }
    s.done(0);
    c.nontrivial();
}
// Every unit identifier has its own map.
void all_units(mc::Ctx& c)
{
    const unsigned a = static_cast<unsigned>(c.choose(256, "unit"));
    const unsigned b = (a + 1 + static_cast<unsigned>(c.choose(3, "other unit")) * 127) & 0xFF;
    E2E s(c, 0, 1, {a, b}, false);
    for(size_t u = 0; u < 2; ++u) { s.request(0, u, s.wr(ref::WriteRegs, 1, 3)); s.request(0, u, s.wr(ref::WriteCoils, 2, 9)); s.request(0, 1 - u, E2E::rd(ref::ReadHolding, 0, 11)); }
    s.finish();
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C05";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -1 : t == 1 ? 0 : 1;
        auto add = [&](const char* name, int dev, unsigned menu, std::vector<unsigned> ids, size_t chans, bool few, int depth) {
            const int dd = std::max(1, depth + d);
            v.push_back({name, [=](mc::Ctx& c) { history(c, menu, ids, chans, few, dd); }, dev, std::to_string(dd) + " operations, " + std::to_string(ids.size()) + " units, " + std::to_string(chans) + " clients" + (dev ? ", at most " + std::to_string(dev) + " deviations of the network or the schedule" : "")});
        };
        add("histories, database attached directly", 0, DIRECT | APP, {1}, 1, false, 2);
        add("histories, one client", 0, APP, {1}, 1, true, 3);
        add("histories, two units", 0, APP, {1, 255}, 1, true, 2);
        add("pipelined, two clients", 0, QUEUE | APP, {1, 2}, 2, true, 2);
        add("races, two clients", 2, QUEUE | RACES, {1, 2}, 2, true, 2);
        add("split traffic", 2, SPLIT, {1}, 1, true, 1);
        add("split traffic, queued", 1, SPLIT | QUEUE | RACES, {1, 2}, 2, true, 2);
        add("broken connections", 1, SPLIT | CUTS, {1}, 1, true, 2);
        add("broken connections, queued", 2, SPLIT | CUTS | QUEUE, {1}, 1, true, 1);
        if(t) v.push_back({"quantities", [=](mc::Ctx& c) { quantities(c, t == 2); }, 0, t == 2 ? "every quantity from 0 to one more than allowed" : "32 quantities"});
        if(t) v.push_back({"values", values, 0, "every register value"});
        v.push_back({"unit identifiers", all_units, 0, "every unit identifier next to three others"});
    }
    o.rule = "Client and server channels of the real library in one process, joined byte for byte by the explorer: every sequence of the stated number of operations (all request kinds at addresses inside, across the end of and outside the map, and out of limits; transactions and additions by the server's application) on each unit and client; split scenarios cut the bytes under way at every place into pieces, broken-connection scenarios reset the connection after every byte of every transfer. Reference: four plain maps per unit, applied when the server asks its session, which must be exactly once per request and in order; each outcome is compared, and finally everything is read back.";
    o.assumptions = {"asio, exe4cpp and ser4cpp are stand-ins written from their documentation", "TCP delivers bytes in order"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
