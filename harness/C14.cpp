// C14: shutting down quiesces: no callbacks, no traffic, nothing leaked.
#include "shutsim.hpp"

using namespace hw;

namespace
{
// A session that counts how often it is told to shut down, also when the application has let go of it.
struct Kept : RecSession
{
    std::shared_ptr<int> told = std::make_shared<int>(0);
    void shutdown() override { ++*told; }
};
// A manager with several channels of both sorts, each in some state, shut down as a whole.
void many(mc::Ctx& c, int max)
{
    const int nc = c.choose(max + 1, "client channels"), ns = c.choose(max + 1, "servers");
    World w;
    auto man = modbus::IModbusManager::create(null_logger(), 1);
    struct Cl { std::shared_ptr<modbus::IClientChannel> chan; std::shared_ptr<modbus::IClientSession> s; std::shared_ptr<modbus::IScheduledRequest> poll; int calls = 0; std::shared_ptr<sim::Conn> k; };
    struct Sv { int state = 0; std::shared_ptr<modbus::IServerChannel> chan; std::vector<std::shared_ptr<Kept>> ss; std::vector<std::shared_ptr<int>> told; std::vector<std::shared_ptr<sim::Conn>> ks; };
    std::deque<Cl> cs;
    std::deque<Sv> sv;
    struct End { std::deque<Cl>& a; std::deque<Sv>& b; std::unique_ptr<modbus::IModbusManager>& m; ~End() { a.clear(); b.clear(); m.reset(); } } end{cs, sv, man};
    for(int i = 0; i < nc; ++i)
    {
        const int state = c.choose(4, "client state"); // idle, resolving, connecting, connected
        cs.emplace_back();
        auto& x = cs.back();
        x.chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"10.0.0.1", 502}, "", modbus::LoggingLevel::Critical);
        x.s = x.chan->create_session(UnitIdentifier{1}, 1h);
        Req q;
        q.kind = ref::ReadHolding;
        q.qty = 1;
        if(state)
        {
            hw::send(*x.s, q, nullptr, [&x](const Out&) { ++x.calls; });
            x.poll = hw::schedule(*x.s, q, nullptr, 1h, [&x](const Out&) { ++x.calls; });
        }
        w->drain();
        // (only this channel's are under way: of those before it, the first keeps waiting)
        if(state >= 2) { auto op = std::move(w->resolves.back()); w->resolves.pop_back(); op.done({}, {sim::Endpoint{"10.0.0.1", 502, true}}); w->drain(); }
        if(state >= 3)
        {
            std::shared_ptr<sim::Socket> mine;
            for(auto& k : w->sockets) if(auto p = k.lock()) if(p->connecting) mine = p;
            x.k = w->complete_connect(mine, {});
            w->drain();
        }
        c.note("client %d: %s", i, state == 0 ? "idle" : state == 1 ? "resolving" : state == 2 ? "connecting" : "connected");
    }
    for(int i = 0; i < ns; ++i)
    {
        const int state = c.choose(4, "server state"); // not started, started, one client, two clients and half a request
        sv.emplace_back();
        auto& x = sv.back();
        x.state = state;
        const auto port = static_cast<unsigned short>(600 + i);
        x.chan = man->create_server_tcp_channel("s", modbus::Ipv4Endpoint{"0.0.0.0", port}, 4, modbus::LoggingLevel::Critical);
        for(int n = 0; n <= state; ++n) { x.ss.push_back(std::make_shared<Kept>()); x.told.push_back(x.ss.back()->told); x.chan->add_session(UnitIdentifier{static_cast<uint8_t>(n)}, x.ss.back()); }
        if(state) x.chan->start();
        w->drain();
        for(int n = 2; n <= state; ++n) { x.ks.push_back(w->incoming(port)); w->drain(); x.ks.back()->deliver(ref::frame(1, 0, {3, 0, 0, 0, 1})); w->drain(); }
        if(state == 3) x.ks.back()->deliver({0, 2, 0, 0, 0});
        w->drain();
        c.note("server %d: %s", i, state == 0 ? "not started" : state == 1 ? "started" : state == 2 ? "one client" : "two clients");
    }
    for(auto& x : cs) if(x.calls) c.fail("an outcome although nothing has happened");
    c.state();
    if(nc + ns) c.nontrivial();
    std::vector<std::weak_ptr<RecSession>> left;
    for(auto& x : sv) for(auto& s : x.ss) left.push_back(s);
    if(ns && c.choose(2, "sessions")) { c.note("the application lets go of its sessions"); for(auto& x : sv) x.ss.clear(); }
    const int how = c.choose(3, "how"); // shutdown, shutdown then destroyed, destroyed
    c.note("%s", how == 2 ? "the manager is destroyed" : how == 1 ? "the manager is shut down and destroyed" : "the manager is shut down");
    std::vector<size_t> tx;
    for(auto& k : w->conns) tx.push_back(k->tx.size());
    // the name resolutions finish while the threads are waited for
    w->before_join = [&] { w->drain(); while(!w->resolves.empty()) { auto op = std::move(w->resolves.back()); w->resolves.pop_back(); op.done(asio::error::operation_aborted, {}); w->drain(); } };
    if(how < 2) man->shutdown();
    if(how > 0) man.reset();
    w->before_join = nullptr;
    w->drain();
    c.step();
    c.checked(6);
    if(w->pool_hang) c.fail("the shutdown would never end: %s", w->hang_why.c_str());
    if(w->join_time > 10s) c.fail("the shutdown takes %ld ms", ms(w->join_time));
    if(!w->open_sockets().empty()) c.fail("%zu sockets are still open", w->open_sockets().size());
    if(!w->timers.empty()) c.fail("%zu timers are still running", w->timers.size());
    for(auto* x : w->acceptors) if(x->open && sv[x->at.port - 600].state) c.fail("port %u still listens", x->at.port);
    for(size_t i = 0; i < w->conns.size(); ++i) if(w->conns[i]->tx.size() != tx[i]) c.fail("connection %zu is still sent to", i);
    for(size_t i = 0; i < sv.size(); ++i) for(size_t n = 0; n < sv[i].told.size(); ++n) { c.checked(); if(*sv[i].told[n] != 1) c.fail("session %zu of server %zu is told %d times to shut down", n, i, *sv[i].told[n]); }
    for(size_t i = 0; i < sv.size(); ++i) for(auto& k : sv[i].ks) if(!k->local_closed) c.fail("a connection of server %zu is not closed", i);
    cs.clear();
    sv.clear();
    man.reset();
    c.checked(2);
    for(auto& s : left) if(!s.expired()) c.fail("a session of a server is left");
    if(w->live_executors) c.fail("%ld channels are left after everything was released", w->live_executors);
    for(auto& s : w->sockets) if(s.lock()) c.fail("a socket is left after everything was released");
    for(auto* x : w->acceptors) if(x->open) c.fail("port %u still listens after everything was released", x->at.port);
}
// A server with sessions for many units, and clients with many scheduled requests: all are told, all are released.
void sets(mc::Ctx& c)
{
    static const int sizes[]{0, 1, 2, 3, 17, 128, 255, 256};
    const int n = sizes[c.choose(8, "units")], m = sizes[c.choose(7, "scheduled requests")];
    const int first = c.choose(3, "first unit") * (n < 256 ? 1 : 0), stage = c.choose(2, "stage"), how = c.choose(4, "how");
    World w;
    auto man = modbus::IModbusManager::create(null_logger(), 1);
    auto server = man->create_server_tcp_channel("s", modbus::Ipv4Endpoint{"0.0.0.0", 502}, 4, modbus::LoggingLevel::Critical);
    std::vector<std::shared_ptr<Kept>> ss;
    std::vector<std::shared_ptr<int>> told;
    std::vector<std::weak_ptr<Kept>> ws;
    for(int i = 0; i < n; ++i)
    {
        const int unit = first == 2 ? 255 - i : first + i <= 255 ? first + i : 0;
        ss.push_back(std::make_shared<Kept>());
        told.push_back(ss.back()->told);
        ws.push_back(ss.back());
        server->add_session(UnitIdentifier{static_cast<uint8_t>(unit)}, ss.back());
    }
    server->start();
    auto client = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"10.0.0.1", 502}, "", modbus::LoggingLevel::Critical);
    auto token = std::make_shared<int>(0);
    auto s = client->create_session(UnitIdentifier{1}, 1h);
    std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
    struct End { std::shared_ptr<modbus::IServerChannel>& a; std::shared_ptr<modbus::IClientChannel>& b; std::shared_ptr<modbus::IClientSession>& s; std::vector<std::shared_ptr<modbus::IScheduledRequest>>& p; std::unique_ptr<modbus::IModbusManager>& m; ~End() { p.clear(); s.reset(); b.reset(); a.reset(); m.reset(); } } end{server, client, s, polls, man};
    int calls = 0;
    for(int i = 0; i < m; ++i)
    {
        Req q;
        q.kind = i % 4; q.addr = static_cast<uint32_t>(i); q.qty = 1;
        polls.push_back(hw::schedule(*s, q, nullptr, 1h, [&calls, token](const Out&) { ++calls; }));
    }
    w->drain();
    std::shared_ptr<sim::Conn> k;
    if(stage && m)
    {
        w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}});
        w->drain();
        k = w->complete_connect(w->pending_connect(), {});
        w->drain();
        size_t at = 0;
        ref::Frame f;
        while(ref::next_frame(k->tx, at, f)) { at = f.end; k->deliver(ref::frame(f.tid, 1, f.pdu[0] <= 2 ? Bytes{f.pdu[0], 1, 1} : Bytes{f.pdu[0], 2, 0, 1})); w->drain(); c.step(); }
        if(calls != m) c.fail("%d scheduled requests, %d outcomes", m, calls);
    }
    const int before = calls;
    c.note("%d sessions, %d scheduled requests", n, m);
    w->before_join = [&] { w->drain(); while(!w->resolves.empty()) { w->complete_resolve(asio::error::operation_aborted); w->drain(); } };
    if(how == 0) { server->shutdown(); client->shutdown(); w->drain(); }
    else if(how == 1) man->shutdown();
    else if(how == 2) man.reset();
    else { polls.clear(); s.reset(); ss.clear(); client.reset(); server.reset(); w->drain(); man.reset(); }
    w->drain();
    c.checked(5);
    if(!w->timers.empty()) c.fail("%d scheduled requests: %zu timers are left", m, w->timers.size());
    if(!w->open_sockets().empty()) c.fail("%zu sockets are left open", w->open_sockets().size());
    if(calls != before) c.fail("%d scheduled requests: %d outcomes at the shutdown", m, calls - before);
    for(int i = 0; i < n; ++i) if(*told[static_cast<size_t>(i)] != 1) c.fail("%d sessions: session %d was told %d times", n, i, *told[static_cast<size_t>(i)]);
    w->before_join = nullptr;
    polls.clear();
    s.reset();
    client.reset();
    server.reset();
    if(how == 0) { w->before_join = [&] { w->drain(); while(!w->resolves.empty()) { w->complete_resolve(asio::error::operation_aborted); w->drain(); } }; man.reset(); w->before_join = nullptr; }
    man.reset();
    ss.clear();
    c.checked(3);
    for(auto& x : ws) if(!x.expired()) c.fail("%d sessions: one is left", n);
    if(token.use_count() > 1) c.fail("%d scheduled requests: %ld handlers are left", m, token.use_count() - 1);
    if(w->live_executors) c.fail("%ld channels are left after everything was released", w->live_executors);
    c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    constexpr unsigned Kill = K_CHAN | K_MAN | K_DESTROY;
    constexpr unsigned All = Kill | K_DROP | K_INHANDLER | D_POLL | D_INVALID | D_SLOW | D_NET | D_TIME | D_FOLLOW | D_GOOD | D_RESET | D_AGAIN | D_LATE;
    mc::Options o;
    o.property = "C14";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -2 : t == 1 ? 0 : 1;
        auto client = [&](const char* name, int dev, unsigned menu, int reqs, int depth) {
            v.push_back({name, [=](mc::Ctx& c) { ShutClient s{c, menu, reqs}; s.explore(depth + d); }, dev, std::to_string(depth + d) + " actions, at most " + std::to_string(reqs) + " requests"});
        };
        auto server = [&](const char* name, int dev, unsigned menu, unsigned kill, size_t clients, int depth) {
            v.push_back({name, [=](mc::Ctx& c) {
                ShutServer s{c, menu, kill, 2, clients + 1};
                for(size_t i = 0; i < clients; ++i) { s.connect((menu & B_SLOWCONNECT) && i == 0); s.settle_k(); }
                s.explore_k(depth + d);
            }, dev, std::to_string(depth + d) + " actions, " + std::to_string(clients) + " connections to start with"});
        };
        client("client", 0, All, 3, 6);
        client("client, polling", 0, Kill | D_POLL | D_GOOD | D_TIME | D_RESET, 2, 9);
        client("client, requests", 0, Kill | D_GOOD | D_SLOW | D_RESET | D_FOLLOW, 3, 9);
        client("client, a race", 1, All, 3, 4);
        client("client, polling, a race", 1, Kill | D_POLL | D_GOOD | D_TIME, 2, 6);
        client("client, requests, a race", 1, Kill | D_GOOD | D_SLOW | D_INVALID, 3, 7);
        if(t) client("client, two races", 2, Kill | D_GOOD | D_POLL | D_INVALID | D_AGAIN, 3, 3);
        server("server", 0, B_CONNECT | B_REQ | B_HALF | B_EOF | B_ATTACH, Kill | K_DROP | D_AGAIN, 1, 6);
        server("server, slow clients", 0, B_CONNECT | B_REQ | B_PIPE | B_SLOWCONNECT | B_WERR, Kill, 2, 5);
        server("server, a race", 1, B_CONNECT | B_REQ | B_EOF | B_ACCEPTFAIL, Kill | D_AGAIN, 1, 4);
        server("server, slow clients, a race", 1, B_CONNECT | B_PIPE | B_SLOWCONNECT | B_RESET, Kill, 1, 4);
        const int len = t == 2 ? 3 : t ? 2 : 1, times = t == 2 ? 60 : t ? 30 : 8;
        v.push_back({"client, cycles", [=](mc::Ctx& c) { ShutClient s{c, Kill | K_DROP | D_POLL | D_INVALID | D_NET | D_TIME | D_GOOD | D_RESET | D_AGAIN, 1000}; s.explore_cycle(1 + c.choose(len, "length"), times, 2); }, 0, "every cycle of up to " + std::to_string(len) + " actions, repeated " + std::to_string(times) + " times, then 2 actions"});
        v.push_back({"server, cycles", [=](mc::Ctx& c) {
            ShutServer s{c, B_CONNECT | B_REQ | B_HALF | B_EOF | B_RESET | B_ATTACH | B_ACCEPTFAIL | B_PIPE | B_SLOWCONNECT | B_WERR, Kill | K_DROP | D_AGAIN, 3, 1000};
            s.play_cycle(1 + c.choose(len, "length"), times);
            s.menu = 0;
            s.explore_k(2);
        }, 0, "every cycle of up to " + std::to_string(len) + " actions, repeated " + std::to_string(times) + " times, then 2 of the application's actions"});
        v.push_back({"several channels", [=](mc::Ctx& c) { many(c, t == 2 ? 4 : t ? 3 : 2); }, 0, std::string{"0 to "} + (t == 2 ? "4" : t ? "3" : "2") + " client channels and servers, each in every state"});
        v.push_back({"many sessions and polls", sets, 0, "0 to 256 sessions of a server, 0 to 255 scheduled requests of a client, ended in four ways"});
        if(t) server("server, two races", 2, B_CONNECT | B_REQ | B_ATTACH, Kill, 1, 3);
    }
    o.rule = "Explored: every sequence of the stated number of actions (application: requests, scheduled requests, shutting down the channel or the manager, destroying the manager, dropping references, also from within a handler and repeatedly; network: name resolution, connecting, responses, slow sockets, resets; passing of time), each followed by every queued handler, with the world going on while the manager waits for its threads; then everything left is destroyed, the application's references first or last. Monitored: once everything queued at a shutdown call has run, no handler or session is called and no request starts being transmitted; once nothing is queued, no socket, listener, connection attempt or timer is left and nothing is sent; no handler runs after the manager's shutdown returned; the manager's destruction ends, within 10 s of virtual time (all timeouts and periods are an hour); sessions of the server are told exactly once; nothing is left alive; another channel of the same manager works.";
    o.assumptions = {"a name resolution in progress cannot be cancelled; joining waits for it", "timers the application started itself (C22) are its own to cancel", "after the manager's shutdown returned, the objects obtained from it are only released or shut down again", "the sockets and the clock are simulated after asio's reactor on Linux; one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
