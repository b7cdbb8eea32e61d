// C23: channels use the endpoint and the adapter they were given. Client: resolution of exactly that name and
// port, every resolved address tried in order from the adapter, the first that accepts is used. Server: listens
// on exactly its address and port.
#include "simserver.hpp"

namespace
{
using namespace hw;

enum : unsigned { ADAPTERS = 1, FAMILIES = 2, SILENT = 4, FLIP = 8, DROP = 16, FEW = 32 };
const char* const Adapters[] = {"", "10.0.0.9", "fe80::9", "eth0", "10.0.0.300"};
bool usable(const std::string& a) { return a.empty() || a == "10.0.0.9" || a == "fe80::9"; }
bool v4(const std::string& h) { return h.find(':') == std::string::npos; }

// One client channel next to what it should be doing.
struct Chan
{
    std::string host, adapter;
    unsigned port = 0;
    std::shared_ptr<modbus::IClientChannel> chan;
    std::shared_ptr<modbus::IClientSession> session;
    // reference
    enum { Idle, Resolving, Connecting, Connected } state = Idle;
    std::vector<sim::Endpoint> addrs;
    size_t at = 0;                       // the address being tried
    std::shared_ptr<sim::Conn> conn;
    bool transmitted = false;
    struct R { int calls = 0; Out out; time_p at{}; };
    std::vector<std::shared_ptr<R>> rs;
    size_t expected_done = 0;            // requests that must have an outcome
};

struct EpSim
{
    mc::Ctx& c;
    World w;
    const unsigned menu;
    std::unique_ptr<modbus::IModbusManager> man;
    std::vector<Chan> chans;
    size_t accounted = 0; // connections

    EpSim(mc::Ctx& ctx, unsigned m) : c(ctx), menu(m) { man = modbus::IModbusManager::create(null_logger(), 1); }
    ~EpSim() { for(auto& x : chans) { x.session.reset(); x.chan.reset(); } man.reset(); }
    void add(const std::string& host, unsigned port, const std::string& adapter)
    {
        Chan x;
        x.host = host; x.port = port; x.adapter = adapter;
        x.chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{host, port}, adapter, modbus::LoggingLevel::Critical);
        x.session = x.chan->create_session(UnitIdentifier{1}, 300ms);
        c.note("a channel to %s:%u%s%s", host.c_str(), port, adapter.empty() ? "" : " from ", adapter.c_str());
        chans.push_back(std::move(x));
        w->drain();
        check();
    }
    // ---- reference ----
    bool local_ok(const Chan& x, const sim::Endpoint& e) const
    {
        if(sim::world().open_fails) return false;
        if(x.adapter.empty()) return true;
        return usable(x.adapter) && v4(x.adapter) == e.v4 && !sim::world().bind_fails;
    }
    // The address to try now, skipping those that no socket can be made for.
    void skip(Chan& x)
    {
        while(x.at < x.addrs.size() && !local_ok(x, x.addrs[x.at])) { c.note("    (%s cannot be tried)", x.addrs[x.at].host.c_str()); ++x.at; }
        if(x.at < x.addrs.size()) x.state = Chan::Connecting;
        else failed(x);
    }
    void failed(Chan& x)
    {
        x.state = Chan::Idle;
        for(size_t i = x.expected_done; i < x.rs.size(); ++i) expect(x, i, 'C');
    }
    std::vector<std::pair<std::shared_ptr<Chan::R>, char>> expected;
    void expect(Chan& x, size_t i, char type) { expected.emplace_back(x.rs[i], type); x.expected_done = i + 1; }

    void send(Chan& x)
    {
        auto r = std::make_shared<Chan::R>();
        x.rs.push_back(r);
        Req q;
        q.kind = ref::ReadHolding;
        q.addr = 100 + static_cast<uint32_t>(x.rs.size()) - 1;
        q.qty = 1;
        c.note("request %zu to %s", x.rs.size() - 1, x.host.c_str());
        hw::send(*x.session, q, nullptr, [this, r](const Out& o) { c.note("    outcome: %s", o.str().c_str()); ++r->calls; r->out = o; r->at = w->now; });
        if(x.state == Chan::Idle) x.state = Chan::Resolving;
        settle();
    }
    Chan* by_host(const std::string& h) { for(auto& x : chans) if(x.host == h) return &x; return nullptr; }
    std::shared_ptr<sim::Socket> connecting(const Chan& x)
    {
        if(x.state != Chan::Connecting) return nullptr;
        for(auto& k : w->sockets) if(auto s = k.lock()) if(s->connecting && s->connecting->to.host == x.addrs[x.at].host && s->connecting->to.port == x.port) return s;
        return nullptr;
    }
    void settle() { c.step(static_cast<uint64_t>(w->drain())); check(); }
    // The library is doing exactly what the reference says.
    void check()
    {
        size_t resolving = 0, trying = 0;
        for(auto& x : chans)
        {
            if(x.state == Chan::Resolving)
            {
                ++resolving;
                size_t n = 0;
                for(auto& q : w->resolves) if(q.host == x.host && q.service == std::to_string(x.port)) ++n;
                c.checked();
                if(n != 1) c.fail("the channel to %s:%u does not resolve that endpoint (%zu such resolutions)", x.host.c_str(), x.port, n);
            }
            if(x.state == Chan::Connecting)
            {
                ++trying;
                c.checked();
                auto s = connecting(x);
                if(!s) c.fail("the channel to %s:%u does not try %s, address %zu of %zu", x.host.c_str(), x.port, x.addrs[x.at].host.c_str(), x.at + 1, x.addrs.size());
                check_local(x, *s);
            }
            if(x.state == Chan::Connected)
            {
                c.checked();
                if(!x.conn->alive()) c.fail("the channel to %s closed its connection", x.host.c_str());
                // every outstanding request leaves on it
                ref::Frame f;
                size_t at = 0, n = 0;
                uint32_t last = 0;
                while(ref::next_frame(x.conn->tx, at, f)) { at = f.end; ++n; last = ref::get16(f.pdu, 1); }
                if(x.expected_done < x.rs.size() && (n == 0 || last != 100 + x.expected_done)) c.fail("request %zu does not leave on the connection to %s", x.expected_done, x.host.c_str());
            }
            for(size_t i = 0; i < x.rs.size(); ++i)
            {
                c.checked();
                if(i < x.expected_done && x.rs[i]->calls != 1) c.fail("request %zu to %s: %d outcomes", i, x.host.c_str(), x.rs[i]->calls);
                if(i >= x.expected_done && x.rs[i]->calls) c.fail("request %zu to %s: %s, though it is not decided yet", i, x.host.c_str(), x.rs[i]->out.str().c_str());
            }
        }
        for(auto& e : expected) if(e.first->out.type != e.second) c.fail("a request got %s, expected '%c'", e.first->out.str().c_str(), e.second);
        c.checked(2);
        if(w->resolves.size() != resolving) c.fail("%zu name resolutions under way, expected %zu", w->resolves.size(), resolving);
        size_t n = 0;
        for(auto& k : w->sockets) if(auto s = k.lock()) if(s->connecting) ++n;
        if(n != trying) c.fail("%zu connection attempts under way, expected %zu", n, trying);
        size_t alive = 0, want = 0;
        for(auto& k : w->conns) if(k->alive()) ++alive;
        for(auto& x : chans) if(x.state == Chan::Connected) ++want;
        for(auto& x : chans) { c.observe(static_cast<uint64_t>(x.state) * 64 + x.at); c.observe(x.expected_done); }
        if(alive != want) c.fail("%zu connections are open, expected %zu", alive, want);
        c.state();
    }
    void check_local(const Chan& x, const sim::Socket& s)
    {
        c.checked();
        if(x.adapter.empty() ? s.bound : (!s.bound || s.local.host != x.adapter || s.local.port != 0))
            c.fail("the connection to %s is made from %s:%u, the adapter is '%s'", x.host.c_str(), s.bound ? s.local.host.c_str() : "anywhere", s.local.port, x.adapter.c_str());
    }
    // ---- the environment ----
    using Act = std::pair<std::string, std::function<void()>>;
    void resolve(Chan& x, std::error_code ec, std::vector<sim::Endpoint> a)
    {
        std::string t;
        for(auto& e : a) t += " " + e.host;
        c.note("%s resolves to:%s", x.host.c_str(), ec ? " error" : t.c_str());
        for(size_t i = 0; i < w->resolves.size(); ++i)
        {
            if(w->resolves[i].host != x.host) continue;
            auto op = std::move(w->resolves[i]);
            w->resolves.erase(w->resolves.begin() + static_cast<long>(i));
            x.addrs.clear();
            for(auto& e : a) if(e.v4 || !op.v4only) x.addrs.push_back(e);
            if(x.addrs.empty() && !ec) ec = asio::error::host_not_found;
            x.at = 0;
            if(ec) failed(x); else skip(x);
            op.done(ec, a);
            break;
        }
        settle();
    }
    void actions(std::vector<Act>& v, Chan& x, size_t xi)
    {
        const auto p = static_cast<unsigned short>(x.port);
        const std::string net = "10." + std::to_string(xi) + ".0.";
        if(x.rs.size() < max_requests) v.emplace_back("send", [this, &x] { send(x); });
        if(x.state == Chan::Resolving)
        {
            const sim::Endpoint a{net + "1", p, true}, b{net + "2", p, true}, d{net + "3", p, true}, e{"fe80::" + std::to_string(xi + 1), p, false};
            std::vector<std::vector<sim::Endpoint>> lists{{a}, {a, b}, {b, a, d}};
            if(menu & FAMILIES) { lists.push_back({e}); lists.push_back({e, a}); lists.push_back({a, e, b}); }
            if(menu & FEW) lists.resize(2);
            for(auto& l : lists) v.emplace_back("", [this, &x, l] { resolve(x, {}, l); });
            v.emplace_back("", [this, &x] { resolve(x, unresolved, {}); });
        }
        if(x.state == Chan::Connecting)
        {
            v.emplace_back("", [this, &x] {
                c.note("%s accepts", x.addrs[x.at].host.c_str());
                auto s = connecting(x);
                x.conn = w->complete_connect(s, {});
                x.state = Chan::Connected;
                settle();
            });
            v.emplace_back("", [this, &x] {
                c.note("%s refuses", x.addrs[x.at].host.c_str());
                auto s = connecting(x);
                ++x.at;
                skip(x);
                w->complete_connect(s, refusal);
                settle();
            });
        }
        if(x.state == Chan::Connected)
        {
            if(x.expected_done < x.rs.size()) v.emplace_back("", [this, &x] { answer(x); });
            if(menu & DROP) v.emplace_back("", [this, &x] {
                c.note("the connection to %s breaks", x.host.c_str());
                failed(x);
                x.conn->peer_reset(reset);
                settle();
            });
        }
    }
    void answer(Chan& x)
    {
        c.note("the response to request %zu to %s", x.expected_done, x.host.c_str());
        ref::Frame f;
        size_t at = 0;
        while(ref::next_frame(x.conn->tx, at, f)) at = f.end;
        expect(x, x.expected_done, 'D');
        x.conn->deliver(ref::frame(f.tid, f.unit, {3, 2, 1, 2}));
        settle();
    }
    void time()
    {
        c.note("300 ms pass");
        // One request at a time is outstanding on a channel, whose time began when its turn came: pass the
        // deadlines one by one.
        const auto until = w->now + 300ms;
        for(;;)
        {
            auto t = w->next_timer();
            if(!t || t->at > until) break;
            w->now = t->at;
            for(size_t i = 0; i < chans.size(); ++i) before.push_back(count(chans[i]));
            w->fire_due();
            w->drain();
            for(size_t i = 0; i < chans.size(); ++i)
            {
                auto& x = chans[i];
                if(count(x) == before[i]) continue;
                if(count(x) != before[i] + 1) c.fail("several requests time out at once");
                expect(x, x.expected_done, 'T');
            }
            before.clear();
            check();
        }
        w->now = until;
    }
    std::vector<size_t> before;
    static size_t count(const Chan& x) { size_t n = 0; for(auto& r : x.rs) n += r->calls > 0; return n; }
    size_t max_requests = 3;
    asio::error_code refusal = asio::error::connection_refused, reset = asio::error::connection_reset, unresolved = asio::error::host_not_found;
    // A cycle of `len` events, repeated: each the i-th of those possible at the time.
    void explore_cycle(int len, int repeats)
    {
        max_requests = 1 << 20;
        std::vector<size_t> cycle;
        for(int i = 0; i < len; ++i) cycle.push_back(static_cast<size_t>(c.choose(6, "event of the cycle")));
        for(int k = 0; k < repeats; ++k)
            for(size_t i : cycle)
            {
                // a connection is only made for a request
                if(chans[0].state != Chan::Resolving && chans[0].state != Chan::Connecting && chans[0].state != Chan::Connected) send(chans[0]);
                std::vector<Act> v;
                actions(v, chans[0], 0);
                if(!v.empty()) v[i % v.size()].second();
            }
        explore(0);
    }
    void explore(int depth)
    {
        for(int i = 0; i < depth; ++i)
        {
            std::vector<Act> v;
            for(size_t k = 0; k < chans.size(); ++k) actions(v, chans[k], k);
            if(menu & SILENT) for(auto& x : chans) if(x.expected_done < x.rs.size()) { v.emplace_back("", [this] { time(); }); break; }
            if(menu & FLIP)
            {
                v.emplace_back("", [this] { w->bind_fails = !w->bind_fails; c.note("the adapter %s", w->bind_fails ? "goes away" : "comes back"); });
                v.emplace_back("", [this] { w->open_fails = !w->open_fails; c.note("sockets %s", w->open_fails ? "run out" : "are there again"); });
            }
            if(v.empty()) break;
            v[static_cast<size_t>(c.choose(static_cast<int>(v.size()), "what happens"))].second();
        }
        c.nontrivial();
        // All is well again: every channel reaches its endpoint, if its adapter allows.
        c.note("-- all is well again");
        w->bind_fails = w->open_fails = false;
        for(auto& x : chans)
        {
            if(x.state == Chan::Resolving) resolve(x, {}, {sim::Endpoint{"10.9.9.9", static_cast<unsigned short>(x.port), true}});
            for(int i = 0; i < 4 && x.state == Chan::Connecting; ++i) { x.conn = w->complete_connect(connecting(x), {}); x.state = Chan::Connected; settle(); }
            while(x.state == Chan::Connected && x.expected_done < x.rs.size()) answer(x);
            send(x);
            if(x.state == Chan::Resolving) resolve(x, {}, {sim::Endpoint{"10.9.9.9", static_cast<unsigned short>(x.port), true}});
            if(x.state == Chan::Connecting) { x.conn = w->complete_connect(connecting(x), {}); x.state = Chan::Connected; settle(); }
            if(x.state == Chan::Connected) answer(x);
            c.checked();
            const bool can = x.adapter.empty() || (usable(x.adapter) && (v4(x.adapter) || (x.conn && x.conn->alive())));
            if(x.rs.back()->out.type != (can ? 'D' : 'C')) c.fail("with everything well, a request to %s gets %s", x.host.c_str(), x.rs.back()->out.str().c_str());
        }
    }
};

void client_cycles(mc::Ctx& c, int len, int repeats)
{
    EpSim s{c, ADAPTERS | DROP | FEW};
    s.add(c.choose(2, "host") ? "10.0.0.1" : "plc.example", c.choose(2, "port") ? 503 : 502, Adapters[c.choose(5, "adapter")]);
    s.explore_cycle(len, repeats);
}
void client(mc::Ctx& c, unsigned menu, int n, int depth)
{
    EpSim s{c, menu};
    const unsigned ports[] = {502, 1, 65535};
    const char* hosts[] = {"plc.example", "10.0.0.1"};
    const char* host = n == 1 ? hosts[c.choose(2, "host")] : hosts[0];
    const unsigned port = n == 1 ? ports[c.choose(3, "port")] : 502;
    s.add(host, port, (menu & ADAPTERS) ? Adapters[c.choose(5, "adapter")] : "");
    if(n > 1) s.add(c.choose(2, "second host") ? "rtu.example" : "rtu2.example", c.choose(2, "second port") ? 502 : 503, (menu & ADAPTERS) ? Adapters[c.choose(3, "second adapter")] : "");
    s.explore(depth);
}

// Every error the system may give for an attempt, a connection or a resolution.
void client_errors(mc::Ctx& c, int depth)
{
    EpSim s{c, FEW | DROP | ADAPTERS};
    const auto& e = system_errors();
    static const asio::error_code names[]{asio::error::host_not_found, asio::error::host_not_found_try_again, asio::error::no_recovery, asio::error::no_data};
    const int i = c.choose(static_cast<int>(e.size()), "error");
    s.refusal = e[static_cast<size_t>(i)];
    s.reset = e[static_cast<size_t>(i * 7 + 3) % e.size()];
    s.unresolved = names[i % 4];
    c.note("attempts fail with '%s'", s.refusal.message().c_str());
    s.add("plc.example", 502, Adapters[c.choose(2, "adapter")]);
    s.explore(depth);
}
// Names with many addresses, of which a later one accepts, or none; then once more.
void client_addresses(mc::Ctx& c)
{
    static const int sizes[]{1, 2, 3, 4, 5, 8, 9, 16, 33, 64, 100, 257};
    EpSim s{c, DROP};
    const int n = sizes[c.choose(12, "addresses")], mix = c.choose(4, "families"), where = c.choose(4, "which accepts"), error = c.choose(3, "error");
    s.refusal = system_errors()[static_cast<size_t>(error) * 2];
    s.max_requests = 10;
    s.add("plc.example", 502, Adapters[c.choose(5, "adapter")]);
    auto& x = s.chans[0];
    const int good = where == 0 ? n - 1 : where == 1 ? n / 2 : where == 2 ? 0 : -1;
    for(int round = 0; round < 3; ++round)
    {
        std::vector<sim::Endpoint> a;
        for(int i = 0; i < n; ++i)
        {
            const bool v4 = mix == 0 || (mix == 1 && i % 2) || (mix == 2 && i == n - 1);
            a.push_back({v4 ? "10.7." + std::to_string(i / 250) + "." + std::to_string(i % 250 + 1) : "fe80::" + std::to_string(i + 1), 502, v4});
        }
        s.send(x);
        if(x.state == Chan::Resolving) s.resolve(x, {}, a);
        while(x.state == Chan::Connecting)
        {
            const bool accept = good >= 0 && x.addrs[x.at].host == a[static_cast<size_t>(good)].host;
            std::vector<EpSim::Act> v;
            s.actions(v, x, 0);
            // (send, accept, refuse)
            v[v.size() - (accept ? 2 : 1)].second();
        }
        if(x.state == Chan::Connected) { s.answer(x); std::vector<EpSim::Act> v; s.actions(v, x, 0); v.back().second(); }
    }
    s.explore(0);
}

// ---- servers ----
struct Listen { std::string host; unsigned port; std::shared_ptr<modbus::IServerChannel> chan; std::shared_ptr<RecSession> session; bool started = false; };
void servers(mc::Ctx& c, int depth)
{
    World w;
    auto man = modbus::IModbusManager::create(null_logger(), 1);
    std::vector<Listen> ls;
    struct End { std::vector<Listen>& l; std::unique_ptr<modbus::IModbusManager>& m; ~End() { l.clear(); m.reset(); } } end{ls, man};
    const std::pair<const char*, unsigned> eps[] = {{"0.0.0.0", 502}, {"127.0.0.1", 503}, {"192.168.0.7", 503}, {"127.0.0.1", 65535}};
    int asked = 0;
    auto any = [](const std::string& h) { return h == "0.0.0.0"; };
    auto check = [&] {
        w->drain();
        size_t open = 0;
        for(auto* a : w->acceptors) if(a->open) ++open;
        c.checked(1 + ls.size());
        if(open != ls.size()) c.fail("%zu sockets listen, expected %zu", open, ls.size());
        for(auto& l : ls)
        {
            bool ok = false;
            for(auto* a : w->acceptors) if(a->open && a->at.host == l.host && a->at.port == l.port) ok = true;
            c.observe(l.port * 2 + l.started);
            if(!ok) c.fail("the server for %s:%u does not listen there", l.host.c_str(), l.port);
        }
        c.state();
    };
    for(int i = 0; i < depth; ++i)
    {
        std::vector<std::function<void()>> v;
        for(auto& e : eps)
            v.push_back([&, e] {
                bool taken = false;
                for(auto& l : ls) if(l.port == e.second && (l.host == e.first || any(l.host) || any(e.first))) taken = true;
                if(ls.size() >= 4) return;
                w->listen_fails = c.choose(2, "the address can be used") == 1;
                const bool expected = !taken && !w->listen_fails;
                c.note("a server for %s:%u%s", e.first, e.second, expected ? "" : ", which cannot be used");
                Listen l{e.first, e.second, nullptr, nullptr};
                bool threw = false;
                try { l.chan = man->create_server_tcp_channel("s", modbus::Ipv4Endpoint{e.first, e.second}, 4, modbus::LoggingLevel::Critical); }
                catch(const std::exception&) { threw = true; }
                w->listen_fails = false;
                c.checked(); c.step();
                if(threw == expected) c.fail("creating it %s", threw ? "throws" : "succeeds");
                if(!expected) return;
                l.session = std::make_shared<RecSession>();
                l.session->on_call = [&asked] { ++asked; };
                l.chan->add_session(UnitIdentifier{1}, l.session);
                ls.push_back(std::move(l));
            });
        for(size_t k = 0; k < ls.size(); ++k)
        {
            auto& l = ls[k];
            if(!l.started) v.push_back([&c, &l] { c.note("%s:%u starts", l.host.c_str(), l.port); l.chan->start(); l.started = true; });
            if(l.started) v.push_back([&, k] { c.note("%s:%u shuts down", ls[k].host.c_str(), ls[k].port); ls[k].chan->shutdown(); w->drain(); ls.erase(ls.begin() + static_cast<long>(k)); });
            v.push_back([&, k] {
                auto& l = ls[k];
                const std::string to = any(l.host) ? "172.16.0.1" : l.host;
                c.note("a client connects to %s:%u", to.c_str(), l.port);
                auto conn = w->incoming(to, static_cast<unsigned short>(l.port));
                if(!conn) c.fail("nothing listens at %s:%u", to.c_str(), l.port);
                w->drain();
                const int before = asked;
                const auto mine = l.session->asked.size();
                conn->deliver(ref::frame(77, 1, {3, 0, 9, 0, 1}));
                w->drain();
                c.step(); c.checked(2);
                if(static_cast<int>(l.session->asked.size() - mine) != (l.started ? 1 : 0) || asked - before != (l.started ? 1 : 0)) c.fail("a request to the %s server at %s:%u was handled %zu times there, %d times in all", l.started ? "started" : "unstarted", l.host.c_str(), l.port, l.session->asked.size() - mine, asked - before);
                if(conn->tx.empty() == l.started) c.fail("the %s server %s", l.started ? "started" : "unstarted", l.started ? "does not answer" : "answers");
                if(l.started) conn->peer_eof(); // before the start it waits
                w->drain();
            });
        }
        v[static_cast<size_t>(c.choose(static_cast<int>(v.size()), "what happens"))]();
        check();
    }
    c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C23";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -2 : t == 1 ? 1 : 2;
        auto add = [&](const char* name, unsigned menu, int n, int depth) {
            v.push_back({name, [=](mc::Ctx& c) { client(c, menu, n, depth + d); }, 0, std::to_string(depth + d) + " events, " + std::to_string(n) + " channel(s)"});
        };
        add("addresses", FAMILIES | ADAPTERS, 1, 7);
        add("adapters that come and go", ADAPTERS | FLIP | FEW | FAMILIES, 1, 6);
        add("silence", SILENT | ADAPTERS | DROP | FEW, 1, 7);
        add("reconnection", DROP | FAMILIES, 1, 8);
        add("two channels", FEW | ADAPTERS | DROP, 2, 5);
        v.push_back({"every error", [=](mc::Ctx& c) { client_errors(c, 4 + d); }, 0, "28 errors, " + std::to_string(4 + d) + " events"});
        v.push_back({"many addresses", client_addresses, 0, "1 to 257 addresses, one or none of which accepts, three times"});
        const int len = t == 2 ? 4 : t ? 3 : 2, times = t == 2 ? 50 : t ? 20 : 6;
        v.push_back({"cycles", [=](mc::Ctx& c) { client_cycles(c, 1 + c.choose(len, "length"), times); }, 0, "every cycle of up to " + std::to_string(len) + " events, repeated " + std::to_string(times) + " times"});
        v.push_back({"servers", [=](mc::Ctx& c) { servers(c, 4 + d); }, 0, std::to_string(4 + d) + " events, up to 4 servers"});
    }
    o.rule = "Client: every sequence of the stated number of events - requests, name resolutions (failure, one to three addresses in several orders, both families), each attempt accepted, refused or left silent, responses, broken connections, the adapter or sockets becoming unusable and usable - for every combination of host, port and adapter (none, usable of either family, not an address). A reference state machine says which resolution and which attempt must be under way, from which local address, and what each request gets. Server: every sequence of creating servers on equal, overlapping and different endpoints (with or without the system refusing), starting, shutting down and clients connecting.";
    o.assumptions = {"asio and exe4cpp are stand-ins written from their documentation", "ports are 1 to 65535"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
