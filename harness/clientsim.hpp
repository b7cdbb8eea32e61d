// One client channel with two sessions in the simulated world: the environment (application calls, name
// resolution, connection attempts, peer, clock) is a menu of actions the explorer picks from, and monitors
// compare everything the library does with what C09-C14 promise. Queued handlers run first by default; an
// environment action while handlers are still queued costs a deviation.
#ifndef HARNESS_CLIENTSIM_HPP
#define HARNESS_CLIENTSIM_HPP

#include "simworld.hpp"

namespace hw
{

enum : unsigned { M09 = 1, M10 = 2, M11 = 4, M12 = 8 };
enum : unsigned {
    A_SEND = 1, A_SEND2 = 2, A_FOLLOW = 4, A_INVALID = 8,          // requests: session 1, session 2 with a longer timeout, one whose handler sends another, one outside the limits
    A_GOOD = 16, A_EXC = 32, A_BAD = 64,                           // matching responses: normal, exception, malformed
    A_TID = 128, A_UNIT = 256, A_STALE = 512, A_EARLY = 1024,      // frames that answer nothing: wrong transaction, wrong unit, to a finished request, to a request not yet sent
    A_HALF = 2048, A_DOUBLE = 1 << 12,                             // half a response (and later its rest); the same response twice in one go
    A_NETFAIL = 1 << 13, A_EOF = 1 << 14, A_RESET = 1 << 15,       // resolve and connect errors; end of stream; reset
    A_SLOW = 1 << 16,                                              // connections whose socket takes 5 bytes and then nothing until the window opens
    A_TIME = 1 << 17, A_TICK = 1 << 18,                            // to the next timer; 100 ms
    A_TWO = 1 << 19,                                               // names that resolve to two addresses, the first of which refuses
    A_LOCAL = 1 << 21,                                             // the local adapter goes away (no socket can be opened or bound) and comes back
    A_FORGET = 1 << 22,                                            // the application lets go of its sessions and makes new ones; it lets go of the channel
    A_GARBAGE = 1 << 20,                                           // a byte sequence that leaves a frame half received
};

struct ClientSim
{
    mc::Ctx& c;
    unsigned monitors, menu;
    int max_requests;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IClientChannel> chan;
    std::shared_ptr<modbus::IClientSession> s1, s2;

    struct R
    {
        int id = 0, unit = 0;
        Req q;
        dur timeout{};
        int calls = 0;
        Out out;
        bool follow = false, settled = false, valid = true;
        time_p called{}, done_at{}, cur_from{time_p::max()}, cur_to{time_p::max()};
        long called_seq = 0, called_quiet = 0;
        int tid = -1;
        sim::Conn* conn = nullptr;
        bool whole = false, answered = false;
        bool prov = false; // too little of it has left to tell for sure that it is this one
        long tx_quiet = -1, whole_seq = 0;
        bool done() const { return calls > 0; }
    };
    struct F { sim::Conn* conn; int tid, unit; char type; unsigned value; time_p at; long seq, quiet; bool taken = false; };
    struct Fail { long seq, quiet; long reported = -1; };
    struct Wire { sim::Conn* conn; size_t pos = 0, seen = 0; int who = -1, tid = -1; std::vector<bool> done_at_start; long start_quiet = 0; Bytes half; bool desync = false, guessed = false; };
    std::deque<R> rs;
    std::vector<F> fs;
    std::vector<Fail> fails;
    std::deque<Wire> wires;
    long seq = 0, quiet_count = 0, last_quiet_seq = 0;
    int last_tid = -1;
    bool in_call = false;
    asio::error_code resolve_error = asio::error::host_not_found, connect_error = asio::error::connection_refused, reset_error = asio::error::connection_reset;
    long local_seq = 0;
    bool local_fails() const { return w->bind_fails || w->open_fails; }

    ClientSim(mc::Ctx& ctx, unsigned mon, unsigned m, int max_req) : c(ctx), monitors(mon), menu(m), max_requests(max_req)
    {
        w->defer_aborts = true;
        man = modbus::IModbusManager::create(null_logger(), 1);
        chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"plc", 502}, "", modbus::LoggingLevel::Critical);
        s1 = chan->create_session(UnitIdentifier{1}, 300ms);
        s2 = chan->create_session(UnitIdentifier{2}, 1s);
        quiescent();
    }
    ~ClientSim() { s1.reset(); s2.reset(); chan.reset(); man.reset(); }

    template<typename... A> void must(unsigned who, bool cond, const char* fmt, A... a)
    {
        if(!(monitors & who)) return;
        c.checked();
        if(!cond) c.fail(fmt, a...);
    }

    // ---- the application ----
    void send(int unit, dur timeout, bool follow, bool valid = true)
    {
        rs.emplace_back();
        R& r = rs.back();
        r.id = static_cast<int>(rs.size()) - 1;
        r.unit = unit;
        r.q.kind = ref::ReadHolding;
        r.q.addr = 100 + static_cast<uint32_t>(r.id);
        r.q.qty = valid ? 1 : 126;
        r.valid = valid;
        r.timeout = timeout;
        r.follow = follow;
        r.called = w->now;
        r.called_seq = ++seq;
        r.called_quiet = quiet_count;
        bool prev_done = true;
        for(auto& x : rs) if(x.id < r.id && x.valid && !x.done()) prev_done = false;
        if(prev_done) r.cur_from = w->now;
        const int id = r.id;
        const bool outer = in_call;
        in_call = true;
        hw::send(unit == 1 ? *s1 : *s2, r.q, &timeout, [this, id](const Out& o) { outcome(id, o); });
        in_call = outer;
    }
    void outcome(int id, const Out& o)
    {
        R& r = rs[static_cast<size_t>(id)];
        ++seq;
        c.note("    request %d: %s", id, o.str().c_str());
        c.observe(static_cast<uint64_t>(id) * 256 + static_cast<unsigned char>(o.type));
        c.observe(static_cast<uint64_t>(ms(w->now - r.called)));
        must(M09, !in_call, "request %d: its handler ran inside a call that sends a request", id);
        ++r.calls;
        must(M09, r.calls == 1, "request %d: handler called %d times: %s, then %s", id, r.calls, r.out.str().c_str(), o.str().c_str());
        if(r.calls > 1) return;
        scan();
        r.out = o;
        r.done_at = w->now;
        explain(r);
        for(auto& x : rs) // the next in line may go
            if(x.valid && !x.done()) { if(x.cur_from == time_p::max()) x.cur_from = w->now; break; }
        if(r.follow)
        {
            const bool outer = in_call;
            in_call = false;
            send(r.unit, r.timeout, false);
            in_call = outer;
        }
    }
    // Is there a cause for this outcome?
    void explain(R& r)
    {
        const Out& o = r.out;
        if(!r.valid) { must(M09, o.type == 'Q', "request %d is outside the limits but got %s", r.id, o.str().c_str()); return; }
        switch(o.type)
        {
        case 'D': case 'E': case 'M':
        {
            const F* hit = nullptr;
            int tid = r.tid;
            sim::Conn* conn = r.conn;
            if(tid < 0) // it is outstanding, but its bytes are still waiting behind those of the request before it
                for(auto& x : wires) if(x.seen > x.pos && x.conn->alive()) { tid = (x.conn->tx.size() >= x.pos + 2 ? x.conn->tx[x.pos] << 8 | x.conn->tx[x.pos + 1] : x.tid) + 1; conn = x.conn; }
            const char* why = "no such frame was received";
            for(auto& f : fs)
            {
                if(f.type != o.type || (o.type == 'D' && (o.data.size() != 2 || o.data[1] != f.value))) continue;
                if(f.tid != tid || f.unit != r.unit) { why = "that frame carries another transaction or unit identifier"; continue; }
                if(tid < 0) { why = "the request was never transmitted"; continue; }
                if(f.conn != conn) { why = "that frame came over another connection than the request went out on"; continue; }
                if(f.quiet < quiet_of_tx(r)) { why = "that frame arrived before the request was transmitted"; continue; }
                hit = &f;
                break;
            }
            must(o.type == 'D' ? M10 | M12 | M11 : M10, hit != nullptr, "request %d (transaction %d, unit %d) got %s: %s", r.id, r.tid, r.unit, o.str().c_str(), why);
            r.answered = true;
            break;
        }
        case 'T':
            must(M11 | M09, w->now >= r.cur_from + r.timeout, "request %d got a timeout %ld ms after its turn came, its timeout is %ld ms", r.id, ms(w->now - r.cur_from), ms(r.timeout));
            for(auto& f : fs)
                must(M11, !(f.taken && f.conn == r.conn && f.tid == r.tid && f.unit == r.unit && r.tid >= 0 && r.whole && (f.type == 'D' || f.type == 'E' || f.type == 'M') && f.at < r.cur_from + r.timeout && f.seq > r.whole_seq),
                     "request %d got a timeout although its response arrived %ld ms before the deadline", r.id, ms(r.cur_from + r.timeout - f.at));
            break;
        case 'C':
        {
            bool cause = false;
            for(auto& f : fails)
                if(f.quiet >= r.called_quiet && (f.reported < 0 || f.reported > r.called_seq)) { cause = true; if(f.reported < 0) f.reported = seq; }
            if(local_seq > r.called_seq || local_fails()) cause = true;
            must(M12 | M09, cause, "request %d got a connection error, but no connection failed since it was sent", r.id);
            break;
        }
        default: must(M09, false, "request %d got %s", r.id, o.str().c_str());
        }
    }
    // The number of quiescent points before this request's first byte left.
    long quiet_of_tx(const R& r) const { return r.tx_quiet < 0 ? quiet_count : r.tx_quiet; }

    // ---- the wire ----
    Wire& wire(sim::Conn* k)
    {
        for(auto& x : wires) if(x.conn == k) return x;
        wires.push_back({});
        wires.back().conn = k;
        return wires.back();
    }
    void scan()
    {
        // a frame has arrived once the code has taken it from the socket
        for(auto& f : fs) if(!f.taken && f.conn->rx.empty()) { f.taken = true; f.at = w->now; }
        for(auto& k : w->conns)
        {
            Wire& x = wire(k.get());
            while(x.seen < k->tx.size() || x.seen > x.pos)
            {
                if(x.seen == x.pos)
                {
                    x.who = -1;
                    x.guessed = false;
                    x.done_at_start.assign(rs.size(), false);
                    for(auto& r : rs) if(r.done()) x.done_at_start[static_cast<size_t>(r.id)] = true;
                    x.start_quiet = quiet_count;
                }
                x.seen = k->tx.size();
                const size_t have = x.seen - x.pos;
                const uint8_t* b = k->tx.data() + x.pos;
                if(have < 10)
                {
                    R* h = x.who < 0 && !x.guessed ? head() : nullptr;
                    x.guessed = true;
                    x.tid = have >= 2 ? b[0] << 8 | b[1] : last_tid + 1;
                    if(h && h->tid < 0) { h->prov = true; h->conn = k.get(); h->tx_quiet = x.start_quiet; }
                    for(auto& y : rs) if(y.prov && y.conn == k.get()) y.tid = x.tid;
                    break;
                }
                if(x.who < 0)
                {
                    const int id = static_cast<int>(b[8] << 8 | b[9]) - 100;
                    must(M10 | M09, id >= 0 && id < static_cast<int>(rs.size()), "what leaves on connection %d is not a request: %s", k->id, ref::hex(Bytes(b, b + std::min<size_t>(have, 24))).c_str());
                    if(id < 0 || id >= static_cast<int>(rs.size())) return;
                    R& r = rs[static_cast<size_t>(id)];
                    c.note("    request %d leaves on connection %d", id, k->id);
                    must(M10, r.valid, "request %d is outside the limits but is transmitted", id);
                    for(auto& y : rs) if(y.prov && y.conn == k.get()) { y.prov = false; y.tid = -1; y.conn = nullptr; y.tx_quiet = -1; }
                    must(M10 | M12, r.tid < 0, "request %d is transmitted twice", id);
                    x.who = id;
                    r.conn = k.get();
                    r.tid = b[0] << 8 | b[1];
                    r.tx_quiet = x.start_quiet;
                    must(M10, r.tid > last_tid, "request %d carries transaction identifier %d after %d", id, r.tid, last_tid);
                    last_tid = r.tid;
                    for(auto& y : rs)
                    {
                        const bool was_done = x.done_at_start.size() > static_cast<size_t>(y.id) && x.done_at_start[static_cast<size_t>(y.id)];
                        if(y.id < id && y.valid) must(M10, was_done, "request %d is transmitted while request %d, sent before it, still awaits its outcome", id, y.id);
                        if(y.id > id) must(M10, y.tid < 0, "request %d is transmitted after request %d, which was sent later", id, y.id);
                    }
                    if(x.done_at_start.size() > static_cast<size_t>(id) && x.done_at_start[static_cast<size_t>(id)]) must(M12, r.out.type != 'C', "request %d is transmitted although it already got a connection error", id);
                }
                const R& r = rs[static_cast<size_t>(x.who)];
                const Bytes want = ref::frame(static_cast<uint32_t>(r.tid), static_cast<uint32_t>(r.unit), ref::request_pdu(r.q));
                const size_t n = std::min(have, want.size());
                must(M10, std::equal(b, b + n, want.begin()), "request %d leaves as %s, expected %s", r.id, ref::hex(Bytes(b, b + n)).c_str(), ref::hex(want).c_str());
                if(have < want.size()) break;
                rs[static_cast<size_t>(x.who)].whole = true;
                rs[static_cast<size_t>(x.who)].whole_seq = seq;
                x.pos += want.size();
                x.who = -1;
                if(x.pos < x.seen) x.seen = x.pos; // look at the next frame
                if(x.pos == k->tx.size()) break;
            }
        }
    }
    std::shared_ptr<sim::Conn> conn()
    {
        for(auto& k : w->conns) if(k->alive()) return k;
        return nullptr;
    }
    R* head() { for(auto& r : rs) if(r.valid && !r.done()) return &r; return nullptr; }
    R* outstanding(sim::Conn* k)
    {
        R* h = head();
        return h && h->conn == k && h->whole ? h : nullptr;
    }

    // ---- monitors at points where nothing is queued ----
    void quiescent()
    {
        scan();
        ++seq;
        ++quiet_count;
        last_quiet_seq = seq;
        auto k = conn();
        int alive = 0;
        for(auto& x : w->conns) if(x->alive()) ++alive;
        const bool trying = !w->resolves.empty() || w->pending_connect();
        must(M12, alive + (trying ? 1 : 0) <= 1, "there are %d connections and %d attempts at once", alive, trying ? 1 : 0);
        for(auto& s : w->open_sockets()) must(M12, !s->conn || s->conn->alive(), "connection %d has failed but its socket stays open", s->conn ? s->conn->id : 0);
        for(auto& r : rs)
        {
            if(!r.valid) { must(M09, r.done(), "request %d is outside the limits but its handler was not told", r.id); r.settled = true; continue; }
            if(!r.done())
            {
                for(auto& f : fails) must(M12 | M09, !(r.settled && f.seq > r.called_seq && f.quiet >= r.called_quiet + 1), "request %d was not told that the connection failed", r.id);
            }
        }
        if(R* h = head())
        {
            if(h->cur_to == time_p::max()) h->cur_to = w->now;
            must(M12 | M09, k || trying, "request %d is outstanding but there is no connection and none is being opened", h->id);
            if(k && k->window == SIZE_MAX) must(M10 | M12 | M09, h->whole && h->conn == k.get(), "request %d is outstanding and there is a connection, but the request was not transmitted on it", h->id);
            must(M11 | M09, w->now < h->cur_to + h->timeout, "request %d has no outcome %ld ms after its turn came, its timeout is %ld ms", h->id, ms(w->now - h->cur_to), ms(h->timeout));
            must(M11 | M09, w->timers.size() >= 1, "request %d is outstanding with no timer running", h->id);
        }
        for(auto& r : rs) r.settled = true;
        // frames that had to be taken
        if(k)
            for(auto& f : fs)
                if(f.conn == k.get() && f.quiet + 1 == quiet_count && (f.type == 'D' || f.type == 'E' || f.type == 'M') && !wire(k.get()).desync)
                    for(auto& r : rs)
                        if(r.conn == f.conn && r.tid == f.tid && r.unit == f.unit && r.whole && f.seq > r.whole_seq)
                            must(M11 | M09, r.done(), "request %d was answered but its handler was not called", r.id);
        c.observe(static_cast<uint64_t>(quiet_count));
        c.state();
    }
    void run_one()
    {
        w->run_one(w->ready().front());
        c.step();
        scan();
    }
    void drain()
    {
        for(Aborts aborts; aborts.more(w, c, false);) run_one();
        quiescent();
    }

    // ---- the peer ----
    Bytes response(int tid, int unit, char type, sim::Conn* k)
    {
        const unsigned v = 0x100 + static_cast<unsigned>(fs.size());
        fs.push_back({k, tid, unit, type, v, w->now, ++seq, quiet_count});
        Bytes pdu;
        if(type == 'D') pdu = {3, 2, static_cast<uint8_t>(v >> 8), static_cast<uint8_t>(v)};
        else if(type == 'E') pdu = ref::exception_pdu(3, 2);
        else pdu = {3, 2, 1};
        return ref::frame(static_cast<uint32_t>(tid), static_cast<uint32_t>(unit), pdu);
    }
    void fail_event() { fails.push_back({++seq, quiet_count}); }

    // ---- one environment action ----
    using Act = std::pair<std::string, std::function<void()>>;
    std::vector<Act> actions(bool quiet)
    {
        std::vector<Act> a;
        auto on = [&](unsigned m) { return (menu & m) != 0; };
        auto k = conn();
        if(static_cast<int>(rs.size()) < max_requests)
        {
            if(on(A_SEND)) a.emplace_back("send on session 1", [this] { send(1, 300ms, false); });
            if(on(A_SEND2)) a.emplace_back("send on session 2", [this] { send(2, 1s, false); });
            if(on(A_FOLLOW)) a.emplace_back("send, sending another when told", [this] { send(1, 300ms, true); });
            if(on(A_INVALID)) a.emplace_back("send outside the limits", [this] { send(1, 300ms, false, false); });
        }
        if(!w->resolves.empty())
        {
            a.emplace_back("the name resolves", [this] { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); });
            if(on(A_TWO)) a.emplace_back("the name resolves to two addresses", [this] { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}, sim::Endpoint{"10.0.0.2", 502, true}}); });
            if(on(A_NETFAIL)) a.emplace_back("the name does not resolve", [this] { fail_event(); w->complete_resolve(resolve_error); });
        }
        if(auto s = w->pending_connect())
        {
            a.emplace_back("connected", [this, s] { w->complete_connect(s, {}); });
            if(on(A_SLOW)) a.emplace_back("connected, slowly", [this, s] { w->initial_window = 5; w->complete_connect(s, {}); w->initial_window = SIZE_MAX; });
            if(on(A_NETFAIL)) a.emplace_back("connection refused", [this, s] {
                const bool last = s->connecting->to.host != "10.0.0.1" || !two;
                if(last) fail_event();
                w->complete_connect(s, connect_error);
            });
        }
        if(k)
        {
            Wire& x = wire(k.get());
            R* h = outstanding(k.get());
            if(h && x.half.empty() && !x.desync)
            {
                const int tid = h->tid, unit = h->unit;
                if(on(A_GOOD)) a.emplace_back("response", [this, k, tid, unit] { k->deliver(response(tid, unit, 'D', k.get())); });
                if(on(A_EXC)) a.emplace_back("exception response", [this, k, tid, unit] { k->deliver(response(tid, unit, 'E', k.get())); });
                if(on(A_BAD)) a.emplace_back("malformed response", [this, k, tid, unit] { k->deliver(response(tid, unit, 'M', k.get())); });
                if(on(A_TID)) a.emplace_back("response with another transaction", [this, k, tid, unit] { k->deliver(response((tid + 256) & 0xFFFF, unit, 'D', k.get())); });
                if(on(A_UNIT)) a.emplace_back("response with another unit", [this, k, tid, unit] { k->deliver(response(tid, 3 - unit, 'D', k.get())); });
                if(on(A_DOUBLE)) a.emplace_back("response, twice", [this, k, tid, unit] { Bytes b = response(tid, unit, 'D', k.get()); const Bytes d = response(tid, unit, 'D', k.get()); b.insert(b.end(), d.begin(), d.end()); k->deliver(b); });
                if(on(A_HALF)) a.emplace_back("half a response", [this, k, tid, unit] {
                    const Bytes b = response(tid, unit, 'D', k.get());
                    fs.back().type = 'h'; // not complete yet
                    Wire& y = wire(k.get());
                    y.half.assign(b.begin() + 8, b.end());
                    k->deliver(Bytes(b.begin(), b.begin() + 8));
                });
            }
            if(!x.half.empty()) a.emplace_back("its other half", [this, k] {
                Wire& y = wire(k.get());
                for(auto& f : fs) if(f.type == 'h' && f.conn == k.get()) { f.type = 'D'; f.taken = false; f.at = w->now; f.seq = ++seq; f.quiet = quiet_count; }
                const Bytes b = std::move(y.half);
                y.half.clear();
                k->deliver(b);
            });
            if(x.half.empty() && !x.desync)
            {
                if(on(A_STALE)) for(auto& r : rs) if(r.conn == k.get() && r.whole && r.done() && !r.answered)
                {
                    const int tid = r.tid, unit = r.unit;
                    a.emplace_back("late response to request " + std::to_string(r.id), [this, k, tid, unit] { k->deliver(response(tid, unit, 'D', k.get())); });
                    break;
                }
                if(on(A_EARLY)) if(h || !rs.empty())
                {
                    R* next = nullptr;
                    for(auto& r : rs) if(r.valid && !r.done() && &r != h) { next = &r; break; }
                    const int tid = last_tid + 1, unit = next ? next->unit : 1;
                    a.emplace_back("response to a request not yet sent", [this, k, tid, unit] { k->deliver(response(tid, unit, 'D', k.get())); });
                }
                if(on(A_GARBAGE)) a.emplace_back("half a frame of garbage", [this, k] { wire(k.get()).desync = true; k->deliver({0x12, 0x34, 0, 0, 0, 40, 7, 3, 9}); });
            }
            if(on(A_EOF)) a.emplace_back("the peer ends the stream", [this, k] { fail_event(); k->peer_eof(); });
            if(on(A_RESET)) a.emplace_back("the peer resets", [this, k] { fail_event(); k->peer_reset(reset_error); });
            if(auto s = k->sock.lock(); on(A_RESET) && on(A_SLOW) && s && !s->writes.empty())
                a.emplace_back("what is being written fails", [this, k] { fail_event(); k->tx_err = reset_error; k->poke(); });
            if(k->window != SIZE_MAX)
            {
                a.emplace_back("the socket takes everything", [this, k] { k->open_window(SIZE_MAX); });
                if(k->window == 0) a.emplace_back("the socket takes 4 bytes", [this, k] { k->open_window(4); });
            }
        }
        if(on(A_FORGET) && chan)
        {
            a.emplace_back("the application makes its sessions anew", [this] { s1 = chan->create_session(UnitIdentifier{1}, 300ms); s2 = chan->create_session(UnitIdentifier{2}, 1s); });
            a.emplace_back("the application lets go of the channel", [this] { chan.reset(); });
        }
        if(on(A_LOCAL))
        {
            if(!local_fails())
            {
                a.emplace_back("no socket can be bound", [this] { w->bind_fails = true; });
                a.emplace_back("no socket can be opened", [this] { w->open_fails = true; });
            }
            else a.emplace_back("sockets work again", [this] { local_seq = ++seq; w->bind_fails = w->open_fails = false; });
        }
        if(auto t = w->next_timer())
        {
            if(on(A_TIME)) a.emplace_back("time passes to the next timer", [this, t] { if(t->at > w->now) w->now = t->at; w->fire_due(); });
            if(on(A_TICK) && quiet) a.emplace_back("100 ms pass", [this] { const auto target = w->now + 100ms; w->now = target; w->fire_due(); });
        }
        return a;
    }
    bool two = false;
    void act()
    {
        if(!w->has_ready())
        {
            auto a = actions(true);
            if(a.empty()) return;
            auto& x = a[static_cast<size_t>(c.choose(static_cast<int>(a.size()), "action"))];
            perform(x);
        }
        // handlers first, unless a deviation puts an environment action before one of them; what was aborted
        // reports at once, unless a deviation lets a handler run before
        Aborts aborts;
        while(aborts.more(w, c))
        {
            if(c.can_deviate())
            {
                auto a = actions(false);
                const int i = c.deviate(static_cast<int>(a.size()) + 1, "before the next handler");
                if(i > 0) { perform(a[static_cast<size_t>(i - 1)]); continue; }
            }
            run_one();
            aborts.ran();
        }
        quiescent();
    }
    void perform(Act& x)
    {
        c.note("%s", x.first.c_str());
        ++seq;
        if(x.first == "the name resolves to two addresses") two = true;
        if(x.first == "the name resolves") two = false;
        x.second();
        scan();
        c.step();
    }
    void explore(int depth)
    {
        for(int i = 0; i < depth; ++i) act();
        if(!rs.empty()) c.nontrivial();
        finish();
    }
    // A cycle of `len` actions, repeated: what does not apply at the time is left out.
    void explore_cycle(int len, int repeats)
    {
        std::vector<std::string> names;
        auto on = [&](unsigned m, const char* n) { if(menu & m) names.emplace_back(n); };
        on(A_SEND, "send on session 1"); on(A_SEND2, "send on session 2"); on(A_FOLLOW, "send, sending another when told"); on(A_INVALID, "send outside the limits");
        on(A_GOOD, "response"); on(A_EXC, "exception response"); on(A_BAD, "malformed response"); on(A_TID, "response with another transaction"); on(A_UNIT, "response with another unit");
        on(A_DOUBLE, "response, twice"); on(A_HALF, "half a response"); on(A_STALE, "late response"); on(A_EARLY, "response to a request not yet sent");
        on(A_NETFAIL, "the name does not resolve"); on(A_NETFAIL, "connection refused"); on(A_EOF, "the peer ends the stream"); on(A_RESET, "the peer resets");
        on(A_FORGET, "the application makes its sessions anew"); on(A_SLOW, "connected, slowly"); on(A_TIME, "time passes to the next timer"); on(A_GARBAGE, "half a frame of garbage");
        std::vector<std::string> cycle;
        for(int i = 0; i < len; ++i) cycle.push_back(names[static_cast<size_t>(c.choose(static_cast<int>(names.size()), "action of the cycle"))]);
        for(int k = 0; k < repeats; ++k)
            for(auto& n : cycle)
            {
                auto go = [&](const std::string& name) {
                    auto a = actions(true);
                    for(auto& x : a) if(x.first.compare(0, n == "late response" && name == n ? name.size() : std::string::npos, name) == 0) { perform(x); drain(); return true; }
                    return false;
                };
                // what the network does anyway, unless the cycle says otherwise
                if(n != "the name does not resolve" && n != "time passes to the next timer" && n.compare(0, 4, "send") != 0) go("the name resolves");
                if(n != "connection refused" && n != "connected, slowly" && n != "time passes to the next timer" && n.compare(0, 4, "send") != 0) go("connected");
                go(n);
                go("its other half");
            }
        if(!rs.empty()) c.nontrivial();
        finish();
    }
    // Lets a healthy network answer everything.
    void heal(bool respond)
    {
        for(size_t i = 0; i < 50 + 4 * rs.size(); ++i)
        {
            drain();
            if(!w->resolves.empty()) { two = false; w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); continue; }
            if(auto s = w->pending_connect()) { w->complete_connect(s, {}); continue; }
            auto k = conn();
            if(k && k->window != SIZE_MAX) { k->open_window(SIZE_MAX); continue; }
            if(k && respond) if(R* h = outstanding(k.get())) { k->deliver(response(h->tid, h->unit, 'D', k.get())); continue; }
            return;
        }
        must(M12 | M09, false, "the channel never comes to rest (%zu requests)", rs.size());
    }
    void finish()
    {
        c.note("-- from here on nothing happens but the passing of time");
        // everything still outstanding has its outcome in time, with the environment silent
        for(size_t i = 0; i < 40 + 2 * rs.size() && head(); ++i)
        {
            auto t = w->next_timer();
            must(M09 | M11, t != nullptr, "request %d will never get an outcome", head()->id);
            if(!t) return;
            if(t->at > w->now) w->now = t->at;
            w->fire_due();
            drain();
        }
        for(auto& r : rs) must(M09, r.calls == 1, "request %d: handler called %d times", r.id, r.calls);
        // and the channel still works
        auto k = conn();
        if(k && (!wire(k.get()).half.empty() || wire(k.get()).desync))
        {
            c.note("-- the connection fails");
            fail_event();
            k->peer_reset(asio::error::connection_reset);
            drain();
        }
        c.note("-- a healthy network: one more request");
        if(local_fails()) { local_seq = ++seq; w->bind_fails = w->open_fails = false; }
        heal(false);
        send(2, 1s, false);
        const size_t id = rs.size() - 1;
        heal(true);
        const R& r = rs[id];
        must(M12 | M09 | M10, r.calls == 1 && r.out.type == 'D', "a request on a healthy network got %s", r.calls ? r.out.str().c_str() : "no outcome");
        for(auto& x : rs) must(M09, x.calls == 1, "request %d: handler called %d times", x.id, x.calls);
        // nothing is left behind that could fire later
        const auto n = w->timers.size();
        must(M11, n == 0, "%zu timers are still running with no request outstanding", n);
        w->advance(5s);
        quiescent();
        for(auto& x : rs) must(M09 | M11, x.calls == 1, "request %d: handler called %d times", x.id, x.calls);
    }
};

} // namespace hw

#endif
