// C20: the public API used from several application threads while the library's threads and the network go on.
//
// Application threads, two pool threads and the network are threads of the controlled scheduler; every schedule
// within the preemption bound is run, and every memory access of the library is checked for data races. A handler
// runs with the clock of its strand, so that only what the library synchronises is ordered.
#include <array>
#include <map>
#include <set>

#include "sched.hpp"
#include "simserver.hpp"

using mc::Ctx;
using namespace hw;

// ---- what the stand-ins ask of a threaded world ----
namespace
{
thread_local int depth = 0;

struct Pool
{
    bool closing = false, joined = false, finished = false;
    int app_left = 0;
    int busy = 0;
    std::map<const sim::Strand*, int> roles;
    std::vector<std::shared_ptr<sim::Strand>> kept;
    void reset() { *this = Pool{}; }
};
Pool* pool() { static Pool* p = new Pool; return p; }
char pool_sync;

bool ready() { return sim::world().has_ready() || !sim::world().deferred.empty(); }
}

extern "C" __attribute__((no_sanitize("thread"))) void sim_enter() { if(sched::managed() && depth++ == 0) { sched::point(); sched::ignore_begin(); } }
extern "C" __attribute__((no_sanitize("thread"))) void sim_leave() { if(sched::managed() && --depth == 0) sched::ignore_end(); }
extern "C" void sim_hb_release(const void* p) { sched::release(p); }
extern "C" void sim_hb_acquire(const void* p) { sched::acquire(p); }
extern "C" void sim_notify() {}
extern "C" void sim_run_pool(const void*, unsigned) {}
extern "C" void sim_join_pool(const void*)
{
    if(!sched::managed()) { sim::world().join_pool(asio::error::operation_aborted); return; }
    pool()->closing = true;
    sched::wait_until([] { return pool()->busy == 0 && !ready() && sim::world().outstanding() == 0; });
    pool()->joined = true;
    sched::acquire(&pool_sync);
}

namespace
{

constexpr auto Long = 60s;

struct Shared;
// One request sent by the program.
struct Sent
{
    uint32_t addr = 0;
    int chan = 0;          // index in Shared::chans
    bool valid = true;
    int outcomes = 0;
    Out got;
};
struct Chan
{
    std::shared_ptr<modbus::IClientChannel> c;
    bool shutdown_called = false;
    int in_handler = 0;
};

struct Shared
{
    Ctx& c;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::deque<Chan> chans;
    std::shared_ptr<modbus::IClientSession> s1, s2, other; // two sessions of channel 0, one of channel 1
    std::shared_ptr<modbus::IScheduledRequest> sched;
    int polls = 0, scheduled = 0, starts = 0, stops = 0, sets = 0;
    dur last_set{};
    bool session_down = false, man_down = false, early_timer = false;
    std::deque<Sent> sent;
    struct Tm { int runs = 0; bool cancelled = false; };
    std::deque<Tm> timers;
    std::deque<std::shared_ptr<modbus::IClientSession>> made;
    uint32_t next_addr = 100;
    struct { std::vector<size_t> v; size_t& operator[](int id) { if(v.size() <= static_cast<size_t>(id)) v.resize(static_cast<size_t>(id) + 8); return v[static_cast<size_t>(id)]; } } answered; // connection -> bytes of its requests dealt with
    std::set<std::pair<int, unsigned>> tids;
    // server side
    std::shared_ptr<modbus::IServerChannel> server;
    std::vector<std::pair<std::shared_ptr<RecSession>, int>> own; // sessions given to the server, with their units
    bool server_down = false;
    int server_starts = 0, in_session = 0;
    std::shared_ptr<sim::Conn> peer;
    struct NewServer { std::shared_ptr<modbus::IServerChannel> channel; std::shared_ptr<RecSession> session; unsigned short port; };
    std::vector<NewServer> new_servers;
    std::shared_ptr<RecSession> make_session()
    {
        auto r = std::make_shared<RecSession>();
        r->on_call = [this] { enter(in_session); };
        return r;
    }
    // A new client of the server is answered by one of these sessions.
    void ask_one_of(unsigned short port, int unit, const std::set<RecSession*>& who)
    {
        auto k = w->incoming(port);
        if(!k) c.fail("the server on port %d does not listen", port);
        settle();
        std::map<RecSession*, size_t> before;
        for(auto* r : who) before[r] = r->asked.size();
        Req q;
        q.kind = ref::ReadHolding; q.addr = 9; q.qty = 1;
        k->deliver(ref::frame(77, static_cast<uint32_t>(unit), ref::request_pdu(q)));
        settle();
        int calls = 0;
        for(auto* r : who) calls += static_cast<int>(r->asked.size() - before[r]);
        ref::Frame f;
        c.checked();
        if(calls != 1 || !ref::next_frame(k->tx, 0, f) || f.tid != 77) c.fail("afterwards unit %d of the server on port %d does not answer (its sessions were asked %d times)", unit, port, calls);
    }
    void ask(unsigned short port, int unit, RecSession* r) { ask_one_of(port, unit, {r}); }

    explicit Shared(Ctx& x) : c(x) {}

    void enter(int& flag)
    {
        { sched::Ignore ig; if(flag++) sched::fail("two handlers of one channel run at the same time"); }
        if(sched::managed()) sched::point();
        { sched::Ignore ig; --flag; }
    }
    void send(const std::shared_ptr<modbus::IClientSession>& s, int chan, bool valid = true)
    {
        Sent* r;
        Req q;
        {
            sched::Ignore ig;
            if(!s) return;
            sent.emplace_back();
            r = &sent.back();
            r->addr = next_addr++;
            r->chan = chan;
            r->valid = valid;
            q.kind = ref::ReadHolding;
            q.addr = r->addr;
            q.qty = valid ? 1 : 0;
        }
        hw::send(*s, q, nullptr, [this, r](const Out& o) {
            { sched::Ignore ig; ++r->outcomes; r->got = o; }
            enter(chans[static_cast<size_t>(r->chan)].in_handler);
        });
    }
    std::shared_ptr<modbus::IScheduledRequest> poll(const std::shared_ptr<modbus::IClientSession>& s)
    {
        Req q;
        q.kind = ref::ReadHolding;
        q.addr = 7;
        q.qty = 1;
        return hw::schedule(*s, q, nullptr, 10s, [this](const Out&) { { sched::Ignore ig; ++polls; } enter(chans[0].in_handler); });
    }
    // ---- the network ----
    // A request of the code that is complete on the wire and not yet answered.
    bool next_request(std::shared_ptr<sim::Conn>& conn, ref::Frame& f)
    {
        for(auto& k : w->conns)
        {
            if(k->accepted || !k->alive()) continue;
            if(!ref::next_frame(k->tx, answered[k->id], f)) continue;
            conn = k;
            return true;
        }
        return false;
    }
    bool network_can_act()
    {
        if(!w->resolves.empty() || w->connects()) return true;
        if(peer_requests > 0 && peer && peer->alive() && !peer->sock.expired()) return true;
        if(peer2_requests > 0 && peer2 && peer2->alive() && !peer2->sock.expired()) return true;
        for(auto& k : w->conns) if(!k->accepted && k->tx.size() > answered[k->id] && k->alive()) return true; // whole frames: nothing cuts them here
        return false;
    }
    void network_acts()
    {
        c.step();
        if(!w->resolves.empty()) { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); return; }
        if(auto s = w->pending_connect()) { w->complete_connect(s, {}); return; }
        if(peer_requests > 0 && peer && peer->alive() && peer->sock.lock())
        {
            --peer_requests;
            Req q;
            q.kind = ref::ReadHolding; q.addr = 40; q.qty = 1;
            ++peer_sent;
            peer->deliver(ref::frame(static_cast<uint32_t>(peer_sent), 1, ref::request_pdu(q)));
            return;
        }
        if(peer2_requests > 0 && peer2 && peer2->alive() && peer2->sock.lock())
        {
            --peer2_requests;
            Req q;
            q.kind = ref::ReadCoils; q.addr = 50; q.qty = 9;
            ++peer2_sent;
            peer2->deliver(ref::frame(static_cast<uint32_t>(peer2_sent), 1, ref::request_pdu(q)));
            return;
        }
        std::shared_ptr<sim::Conn> k; ref::Frame f;
        if(!next_request(k, f)) sched::fail("the code put an incomplete request on the wire");
        answered[k->id] = f.end;
        const auto v = ref::decode_request(f.pdu);
        if(v.what != ref::Verdict::Request) sched::fail("the code put on the wire what is no request: %s", ref::hex(f.pdu).c_str());
        if(!tids.insert({k->id, f.tid}).second) sched::fail("transaction identifier %u is used twice on one connection", f.tid);
        if(v.req.addr >= 100 && !on_wire.insert(v.req.addr).second) sched::fail("the request for address %u was sent twice", v.req.addr);
        k->deliver(ref::frame(f.tid, f.unit, ref::response_pdu(v.req, {value(v.req.addr)})));
    }
    static uint16_t value(uint32_t addr) { return static_cast<uint16_t>(addr ^ 0x5555); }
    std::set<uint32_t> on_wire;
    int peer_requests = 0, peer_sent = 0, peer2_requests = 0, peer2_sent = 0, in_session2 = 0;
    std::shared_ptr<sim::Conn> peer2;

    // ---- one thread at a time again ----
    void settle()
    {
        do { w->drain(); if(!network_can_act()) break; network_acts(); } while(true);
    }
    void pass(dur d)
    {
        const auto end = w->now + d;
        settle();
        for(int i = 0; i < 200; ++i)
        {
            auto t = w->next_timer();
            if(!t || t->at > end) break;
            if(t->at > w->now) w->now = t->at;
            w->fire_due();
            settle();
        }
        w->now = end;
    }
};

enum Op
{
    SendFirst, SendSecond, SendOther, CreateSession, SendInvalid, Schedule, Start, Stop, Query, SetFrequency,
    TimerStart, TimerCancel, SessionShutdown, ChannelShutdown, CreateChannel, CreateServer, ManagerShutdown, ClientOps,
    ServerStart = 20, ServerShutdown, AddSession, ReplaceSession,
};
const char* op_name(int o)
{
    switch(o)
    {
    case SendFirst: return "send on session 1";
    case SendSecond: return "send on session 2";
    case SendOther: return "send on another channel";
    case CreateSession: return "create a session and send on it";
    case SendInvalid: return "send an invalid request";
    case Schedule: return "schedule a request";
    case Start: return "start the scheduled request";
    case Stop: return "stop the scheduled request";
    case Query: return "ask the scheduled request's state and period";
    case SetFrequency: return "set the scheduled request's period";
    case TimerStart: return "start a timer";
    case TimerCancel: return "start a timer and cancel it";
    case SessionShutdown: return "shut down session 1";
    case ChannelShutdown: return "shut down the channel";
    case CreateChannel: return "create a channel, a session and send";
    case CreateServer: return "create and start a server";
    case ManagerShutdown: return "shut down the manager";
    case ServerStart: return "start the server";
    case ServerShutdown: return "shut down the server";
    case AddSession: return "add a server session";
    case ReplaceSession: return "replace the server session";
    default: return "?";
    }
}
bool uses_sched(int o) { return o >= Start && o <= SetFrequency; }
bool is_server(int o) { return o >= ServerStart; }

void perform(Shared& s, int o, int thread)
{
    using modbus::Ipv4Endpoint;
    using modbus::LoggingLevel;
    switch(o)
    {
    case SendFirst: s.send(s.s1, 0); break;
    case SendSecond: s.send(s.s2, 0); break;
    case SendOther: s.send(s.other, 1); break;
    case SendInvalid: s.send(s.s1, 0, false); break;
    case CreateSession:
    {
        auto n = s.chans[0].c->create_session(UnitIdentifier{static_cast<uint8_t>(10 + thread)}, Long);
        {
            sched::Ignore ig;
            if(!n && !s.chans[0].shutdown_called && !s.man_down) sched::fail("an open channel created no session");
            if(n) s.made.push_back(n);
        }
        s.send(n, 0);
        break;
    }
    case Schedule:
    {
        auto r = s.poll(s.s1);
        sched::Ignore ig;
        ++s.scheduled;
        break;
    }
    case Start: { sched::Ignore ig; ++s.starts; } s.sched->start(); break;
    case Stop: { sched::Ignore ig; ++s.stops; } s.sched->stop(); break;
    case Query:
    {
        s.sched->is_running();
        const auto f = s.sched->get_frequency();
        sched::Ignore ig;
        if(f != 10s && f != 20s && f != 21s) sched::fail("the period read, %ld ms, was never set", ms(f));
        break;
    }
    case SetFrequency: { sched::Ignore ig; ++s.sets; s.last_set = thread ? 21s : 20s; } s.sched->set_frequency(thread ? 21s : 20s); break;
    case TimerStart:
    case TimerCancel:
    {
        Shared::Tm* t;
        { sched::Ignore ig; s.timers.emplace_back(); t = &s.timers.back(); t->cancelled = o == TimerCancel; }
        sim::time_p now;
        { sched::Ignore ig; now = s.w->now; }
        auto tm = s.s1->start(modbus::duration_t{5s}, [&s, t] { { sched::Ignore ig; ++t->runs; } s.enter(s.chans[0].in_handler); });
        const auto at = tm->expires_at();
        if(at < now + 5s) sched::fail("a timer's expiry lies %ld ms after its start, not 5 s", ms(at - now));
        if(o == TimerCancel) tm->cancel();
        break;
    }
    case SessionShutdown: { sched::Ignore ig; s.session_down = true; } s.s1->shutdown(); break;
    case ChannelShutdown: { sched::Ignore ig; s.chans[0].shutdown_called = true; } s.chans[0].c->shutdown(); break;
    case CreateChannel:
    {
        auto ch = s.man->create_client_tcp_channel("n", Ipv4Endpoint{"10.0.0.1", 502}, "", LoggingLevel::Critical);
        auto n = ch->create_session(UnitIdentifier{1}, Long);
        int k;
        { sched::Ignore ig; k = static_cast<int>(s.chans.size()); s.chans.push_back({}); s.chans.back().c = ch; s.made.push_back(n); }
        s.send(n, k);
        break;
    }
    case CreateServer:
    {
        auto sv = s.man->create_server_tcp_channel("n", Ipv4Endpoint{"0.0.0.0", 700 + thread}, 2, LoggingLevel::Critical);
        auto se = std::make_shared<RecSession>();
        sv->add_session(UnitIdentifier{1}, se);
        sv->start();
        sched::Ignore ig;
        s.new_servers.push_back({sv, se, static_cast<unsigned short>(700 + thread)});
        break;
    }
    case ManagerShutdown: { sched::Ignore ig; s.man_down = true; } s.man->shutdown(); break;
    case ServerStart: { sched::Ignore ig; ++s.server_starts; } s.server->start(); break;
    case ServerShutdown: { sched::Ignore ig; s.server_down = true; } s.server->shutdown(); break;
    case AddSession:
    case ReplaceSession:
    {
        auto se = s.make_session();
        { sched::Ignore ig; s.own.push_back({se, o == AddSession ? 2 : 1}); }
        s.server->add_session(UnitIdentifier{static_cast<uint8_t>(o == AddSession ? 2 : 1)}, se);
        break;
    }
    default: break;
    }
}

__attribute__((noinline)) void run_as(int role, sim::Strand* st, std::function<void()>* g)
{
    sched::Role as{role};
    sched::acquire(st);
    (*g)();
    delete g;
    sched::release(st);
    sched::release(&pool_sync);
}

struct Fixture { bool connected = true; bool started = true; int requests = 0; int timers = 0; bool both = false; };

void program(Ctx& c, const std::vector<std::vector<int>>& threads, Fixture fx)
{
    bool server = fx.both, sched_req = false, other = false;
    for(auto& t : threads) for(int o : t) { server |= is_server(o); sched_req |= uses_sched(o); other |= o == SendOther; }
    sched::begin(c);
    sched::rmw_points(false);
    sched::delay_bounded(true);
    pool()->reset();
    Shared s{c};
    for(size_t t = 0; t < threads.size(); ++t) for(int o : threads[t]) c.note("thread %zu: %s", t, op_name(o));
    s.man = modbus::IModbusManager::create(null_logger(), 2);
    if(server)
    {
        s.server = s.man->create_server_tcp_channel("s", modbus::Ipv4Endpoint{"0.0.0.0", 502}, 2, modbus::LoggingLevel::Critical);
        auto se = s.make_session();
        s.own.push_back({se, 1});
        s.server->add_session(UnitIdentifier{1}, se);
        if(fx.started)
        {
            s.server->start();
            s.w->drain();
            s.peer = s.w->incoming(502);
            s.w->drain();
        }
        s.w->drain();
    }
    if(fx.both)
    {
        // a second server with a client of its own
        auto sv = s.man->create_server_tcp_channel("t", modbus::Ipv4Endpoint{"0.0.0.0", 503}, 2, modbus::LoggingLevel::Critical);
        auto se = std::make_shared<RecSession>();
        se->on_call = [&s] { s.enter(s.in_session2); };
        sv->add_session(UnitIdentifier{1}, se);
        sv->start();
        s.w->drain();
        s.peer2 = s.w->incoming(503);
        s.w->drain();
        s.new_servers.push_back({sv, se, 503});
    }
    if(!server || fx.both)
    {
        for(int i = 0; i < (other ? 2 : 1); ++i)
        {
            s.chans.push_back({});
            s.chans.back().c = s.man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"10.0.0.1", 502}, "", modbus::LoggingLevel::Critical);
        }
        s.s1 = s.chans[0].c->create_session(UnitIdentifier{1}, Long);
        s.s2 = s.chans[0].c->create_session(UnitIdentifier{2}, Long);
        if(other) s.other = s.chans[1].c->create_session(UnitIdentifier{1}, Long);
        if(sched_req) s.sched = s.poll(s.s1);
        s.settle();
        if(fx.connected && !sched_req) { s.send(s.s1, 0); s.settle(); }
    }
    s.polls = 0;
    if(s.peer) s.peer_requests = fx.requests;
    if(s.peer2) s.peer2_requests = fx.requests;

    Pool& p = *pool();
    p.app_left = static_cast<int>(threads.size());
    int budget = 8, timer_budget = fx.timers;
    auto can_act = [&] { return (p.closing || budget > 0) && s.network_can_act(); };
    auto can_fire = [&] { return !s.w->timers.empty() && (timer_budget > 0 || (p.closing && p.busy == 0 && !ready() && !s.network_can_act())); };
    auto quiet = [&] { return p.joined || p.finished || (p.app_left == 0 && p.busy == 0 && !ready() && !can_act()); };
    std::vector<std::function<void()>> f;
    for(size_t t = 0; t < threads.size(); ++t)
        f.push_back([&, t] {
            for(int o : threads[t]) { sched::point(); perform(s, o, static_cast<int>(t)); }
            sched::Ignore ig;
            --p.app_left;
        });
    for(int id = 0; id < 2; ++id)
        f.push_back([&, id] {
            for(;;)
            {
                sched::point();
                // of idle threads, which one takes a handler makes no difference
                sched::wait_until([&, id] { return quiet() || (s.w->has_ready() && p.busy >= id); });
                sim::Strand* st = nullptr;
                std::function<void()>* g = nullptr;
                int role = 0;
                {
                    sched::Ignore ig;
                    if(quiet()) { p.finished = true; return; }
                    if(!s.w->has_ready()) continue;
                    auto r = s.w->ready();
                    auto chosen = r[r.size() > 1 ? static_cast<size_t>(c.choose(static_cast<int>(r.size()), "strand")) : 0];
                    st = chosen.get();
                    g = new std::function<void()>(std::move(st->q.front()));
                    st->q.pop_front();
                    st->running = true;
                    ++p.busy;
                    auto& known = p.roles[st];
                    if(!known) { known = sched::make_role(); p.kept.push_back(chosen); }
                    role = known;
                    c.step();
                }
                run_as(role, st, g);
                sched::Ignore ig;
                st->running = false;
                --p.busy;
            }
        });
    f.push_back([&] {
        for(;;)
        {
            sched::point();
            sched::wait_until([&] { return quiet() || can_act() || can_fire(); });
            sched::Ignore ig;
            if(quiet()) { p.finished = true; return; }
            if(can_act()) { --budget; s.network_acts(); }
            else if(can_fire())
            {
                if(!p.closing || p.busy || ready()) { --timer_budget; s.early_timer = true; }
                auto t = s.w->next_timer();
                if(t->at > s.w->now) s.w->now = t->at;
                c.step();
                s.w->fire(t);
            }
        }
    });
    sched::run(c, f, static_cast<int>(threads.size()));

    // Afterwards, with nothing concurrent any more.
    if(!p.joined)
    {
        s.settle();
        if(s.man_down) c.fail("the manager was shut down, but its threads were not joined");
        s.pass(25s);
    }
    bool dropped = s.man_down;
    for(auto& r : s.sent)
    {
        const bool may_drop = dropped || s.chans[static_cast<size_t>(r.chan)].shutdown_called;
        c.checked();
        c.observe(static_cast<uint64_t>(r.outcomes) * 1000 + static_cast<uint64_t>(r.got.type));
        if(r.outcomes > 1 || (r.outcomes == 0 && !may_drop)) c.fail("the request for address %u got %d outcomes", r.addr, r.outcomes);
        if(r.outcomes == 0) continue;
        const bool fine = r.valid ? (r.got.type == 'D' && r.got.data == std::vector<uint32_t>{r.addr, Shared::value(r.addr)}) || (s.early_timer && r.got.type == 'T') : r.got.type == 'Q';
        if(!fine) c.fail("the request for address %u got the outcome '%c'", r.addr, r.got.type);
    }
    for(auto& t : s.timers)
    {
        c.checked();
        c.observe(static_cast<uint64_t>(t.runs));
        if(t.runs > 1 || (t.runs == 0 && !t.cancelled && !dropped)) c.fail("a timer%s ran %d times", t.cancelled ? " that was cancelled" : "", t.runs);
    }
    if((!server || fx.both) && !dropped)
    {
        if(s.sched && !s.chans[0].shutdown_called)
        {
            const bool running = s.sched->is_running();
            const auto f0 = s.sched->get_frequency();
            const int before = s.polls;
            s.pass(25s);
            const bool polls = s.polls > before;
            c.checked(3);
            c.observe(running);
            c.observe(static_cast<uint64_t>(ms(f0)));
            if(!s.scheduled && running != polls) c.fail("the scheduled request says it is %srunning but it %s", running ? "" : "not ", polls ? "polls" : "does not poll");
            const bool stopped = s.stops || s.session_down;
            if(!s.starts && running == stopped) c.fail("the scheduled request is %srunning although it was %sstopped", running ? "" : "not ", stopped ? "" : "not ");
            if(s.starts && !stopped && !running) c.fail("the scheduled request is not running although it was only started");
            if(s.sets == 0 ? f0 != 10s : s.sets == 1 ? f0 != s.last_set : f0 != 20s && f0 != 21s) c.fail("the period is %ld ms after it was set %d times", ms(f0), s.sets);
        }
        if(s.scheduled && !s.chans[0].shutdown_called && !s.session_down && s.polls < s.scheduled) c.fail("%d requests were scheduled and %d polls answered", s.scheduled, s.polls);
        // every session that is left is in working order
        std::vector<std::pair<std::shared_ptr<modbus::IClientSession>, int>> all{{s.s1, 0}, {s.s2, 0}};
        if(s.other) all.push_back({s.other, 1});
        const size_t from = s.sent.size();
        for(auto& a : all) if(!s.chans[static_cast<size_t>(a.second)].shutdown_called) s.send(a.first, a.second);
        for(auto& m : s.made) if(!s.chans[0].shutdown_called) s.send(m, 0);
        s.pass(1s);
        for(size_t i = from; i < s.sent.size(); ++i)
        {
            c.checked();
            if(s.sent[i].outcomes != 1 || s.sent[i].got.type != 'D') c.fail("afterwards a request gets %d outcomes, the last '%c'", s.sent[i].outcomes, s.sent[i].got.type);
        }
        for(auto& n : s.new_servers) s.ask(n.port, 1, n.session.get());
    }
    if(server && !dropped)
    {
        if(s.peer)
        {
            // answered one by one, in order
            size_t at = 0; int n = 0; ref::Frame fr;
            while(ref::next_frame(s.peer->tx, at, fr)) { at = fr.end; ++n; if(static_cast<int>(fr.tid) != n) c.fail("response %d carries transaction %u", n, fr.tid); }
            c.checked();
            c.observe(static_cast<uint64_t>(n));
            if(n > s.peer_sent || (n < s.peer_sent && !s.server_down)) c.fail("%d requests were answered %d times", s.peer_sent, n);
        }
        if(s.peer2)
        {
            size_t at = 0; int n = 0; ref::Frame fr;
            while(ref::next_frame(s.peer2->tx, at, fr)) { at = fr.end; ++n; if(static_cast<int>(fr.tid) != n) c.fail("response %d of the second server carries transaction %u", n, fr.tid); }
            c.checked();
            if(n != s.peer2_sent) c.fail("%d requests to the second server were answered %d times", s.peer2_sent, n);
        }
        auto* a = s.w->acceptor(502);
        const bool listens = a && !a->ops.empty();
        c.checked();
        if(s.server_down) { if(listens) c.fail("the server accepts connections after its shutdown"); }
        else
        {
            if(fx.started || s.server_starts) for(int u = 1; u <= 2; ++u)
            {
                // the session registered last answers; of several concurrent calls, any one
                std::set<RecSession*> candidates;
                int adds = 0;
                for(size_t i = 0; i < s.own.size(); ++i) if(s.own[i].second == u) { if(i) ++adds; candidates.insert(s.own[i].first.get()); }
                if(candidates.empty()) continue;
                if(u == 1 && adds) candidates.erase(s.own[0].first.get());
                s.ask_one_of(502, u, candidates);
            }
            for(auto& n : s.new_servers) s.ask(n.port, 1, n.session.get());
        }
    }
    c.state(c.fingerprint());
    if(sched::switches() > f.size()) c.nontrivial();
    for(auto& n : s.new_servers) n.channel->shutdown();
    s.new_servers.clear();
    s.s1.reset(); s.s2.reset(); s.other.reset(); s.sched.reset(); s.made.clear();
    s.server.reset();
    for(auto& ch : s.chans) ch.c.reset();
    s.man.reset();
    if(s.w->pool_hang) c.fail("in the end: %s", s.w->hang_why.c_str());
}

bool excluded(const std::vector<std::vector<int>>& t)
{
    bool down = false, creates = false;
    for(auto& x : t) for(int o : x) { down |= o == ManagerShutdown; creates |= o == CreateChannel || o == CreateServer; }
    return down && creates; // the manager is not asked for channels while it is being shut down
}

void any_program(Ctx& c, const std::vector<int>& shape, const std::vector<int>& menu, Fixture fx, bool symmetric)
{
    std::vector<std::vector<int>> t;
    int low = 0;
    for(int n : shape)
    {
        std::vector<int> ops;
        for(int i = 0; i < n; ++i)
        {
            const int k = low + c.choose(static_cast<int>(menu.size()) - low, "operation");
            ops.push_back(menu[static_cast<size_t>(k)]);
            if(symmetric) low = k;
        }
        t.push_back(ops);
    }
    bool server = false;
    for(int o : menu) server |= is_server(o);
    if(server && !fx.both) { bool any = false; for(auto& x : t) for(int o : x) any |= is_server(o); if(!any) return; }
    if(excluded(t)) return;
    program(c, t, fx);
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C20";
    o.hang_seconds = 60;
    auto add = [](std::vector<mc::Scenario>& v, const std::string& name, std::vector<int> shape, std::vector<int> menu, Fixture fx, bool sym, int pre) {
        v.push_back({name, [=](Ctx& c) { any_program(c, shape, menu, fx, sym); }, pre, "every choice of operations out of " + std::to_string(menu.size()) + ", every schedule of the application threads, two pool threads and the network with at most " + std::to_string(pre) + " preemptions"});
    };
    std::vector<int> client, server{ServerStart, ServerShutdown, AddSession, ReplaceSession, CreateServer, ManagerShutdown};
    for(int i = 0; i < ClientOps; ++i) client.push_back(i);
    Fixture fresh; fresh.connected = false;
    Fixture timed; timed.timers = 1;
    Fixture unstarted; unstarted.started = false;
    Fixture traffic; traffic.requests = 2;
    Fixture both; both.both = true; both.requests = 1;
    Fixture both2 = both; both2.requests = 2;
    const std::vector<int> shared{SendFirst, CreateSession, Start, Stop, SetFrequency, TimerCancel, ChannelShutdown, ManagerShutdown};
    const std::vector<int> few{SendFirst, CreateSession, ChannelShutdown, ManagerShutdown};
    const std::vector<int> polling{Start, Stop, SetFrequency, ChannelShutdown};
    const std::vector<int> timing{SendFirst, Schedule, Start, Stop, SetFrequency, TimerStart, TimerCancel, ChannelShutdown, ManagerShutdown};
    for(int tier = 0; tier < 3; ++tier)
    {
        auto& v = tier == 0 ? o.smoke : tier == 1 ? o.quick : o.thorough;
        const int d = tier; // 0, 1, 2
        add(v, "client, two threads", {1, 1}, client, {}, true, d);
        add(v, "client, two threads, connecting", {1, 1}, {SendFirst, SendSecond, CreateSession, ChannelShutdown, ManagerShutdown}, fresh, true, d ? d + 1 : 0);
        add(v, "client, two threads, a timer expires", {1, 1}, timing, timed, true, d ? d + 1 : 0);
        add(v, "server, two threads, with traffic", {1, 1}, server, traffic, true, d ? d + 1 : 0);
        add(v, "server, two threads, not started", {1, 1}, server, unstarted, true, d ? d + 1 : 0);
        add(v, "two servers and a client", {1}, {SendFirst, CreateSession, SendInvalid, TimerCancel, ChannelShutdown, CreateChannel, AddSession, ReplaceSession, ServerStart, ServerShutdown, CreateServer}, tier == 2 ? both2 : both, true, d + (d > 0));
        if(tier == 1) add(v, "client, two threads, more preemptions", {1, 1}, shared, {}, true, 2);
        if(tier == 2)
        {
            add(v, "client, two threads, more preemptions", {1, 1}, shared, {}, true, 3);
            add(v, "client, two calls each", {2, 1}, few, {}, false, 2);
            add(v, "scheduled request, two calls each", {2, 2}, polling, {}, false, 1);
            add(v, "client, three threads", {1, 1, 1}, few, {}, true, 2);
            add(v, "server, three threads", {1, 1, 1}, {ServerStart, ServerShutdown, AddSession, ReplaceSession, ManagerShutdown}, traffic, true, 2);
        }
    }
    o.rule = "Each execution runs the real library on real threads (application threads, two pool threads, the network) under one schedule; every access is checked for data races with vector clocks in which handlers of one strand, and nothing else, are ordered; afterwards every call's effect is checked.";
    o.assumptions = {"asio's own objects and exe4cpp behave as their documentation says (stand-ins)", "no channel is asked of a manager while it is being shut down", "one ITimer object, which has a single owner, is used by one thread at a time", "sequentially consistent interleavings: with no data race, C++ guarantees nothing else is observable"};
    return mc::main(argc, argv, o);
}
