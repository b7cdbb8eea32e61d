// One server channel in the simulated world: clients that connect, send whole or partial requests, read slowly,
// disconnect; accept failures; sessions attached at any time. Monitors for C15, C16 and C17. Queued handlers run
// first by default; an environment action while handlers are still queued costs a deviation.
#ifndef HARNESS_SERVERSIM_HPP
#define HARNESS_SERVERSIM_HPP

#include <deque>
#include <map>

#include "simserver.hpp"

namespace hw
{

enum : unsigned { M15 = 16, M16 = 32, M17 = 64, M14S = 128 };
enum : unsigned {
    B_CONNECT = 1, B_SLOWCONNECT = 2, B_ACCEPTFAIL = 4, B_EOF = 8, B_RESET = 16,
    B_REQ = 32, B_REQ2 = 64, B_UNKNOWN = 128, B_PIPE = 256, B_HALF = 512, B_FOREIGN = 1024, B_BADFC = 2048,
    B_ATTACH = 4096, B_EXC = 1 << 13, B_WRITE = 1 << 14, B_BURST = 1 << 15, B_PIECES = 1 << 16, B_SILENT = 1 << 17, B_GONE = 1 << 18,
    B_WERR = 1 << 19, B_BIG = 1 << 20,
};

struct ServerSim
{
    mc::Ctx& c;
    asio::error_code accept_error = asio::error::no_descriptors, reset_error = asio::error::connection_reset, write_error = asio::error::broken_pipe;
    unsigned monitors, menu;
    size_t max_clients;
    Server s;
    World& w;
    size_t limit;

    struct Rq { Req q; unsigned unit = 0; uint32_t tid = 0; long arrived = 0; bool attached = true, decided = false; Bytes answer; };
    struct Cl
    {
        std::shared_ptr<sim::Conn> k;
        int id = 0;
        std::deque<Rq> rqs;     // the requests that have arrived completely, in order
        size_t undecided = 0;   // the first one whose answer is not known yet
        Bytes expect;           // what the ones before it are answered with
        size_t checked = 0;     // so much of what was sent has been compared
        Bytes half;             // still to arrive of half_rq
        Rq half_rq;
        bool failed = false, write_broken = false, accepted = false;
        uint32_t next_tid = 0;
    };
    std::deque<Cl> cls;
    std::deque<size_t> served;  // at the last quiescent point, oldest first
    std::map<uint32_t, std::pair<size_t, size_t>> by_addr; // every request has its own address
    struct Att { std::shared_ptr<RecSession> s; long seq; uint32_t salt; };
    std::map<unsigned, std::vector<Att>> attached;
    long seq = 0;
    uint32_t next_salt = 1;

    ServerSim(mc::Ctx& ctx, unsigned mon, unsigned m, unsigned lim, size_t maxc) : c(ctx), monitors(mon), menu(m), max_clients(maxc), s{ctx, lim}, w(s.w), limit(lim)
    {
        s.w->defer_aborts = true;
        attach(1);
        attach(2);
        s.w->drain();
    }
    template<typename... A> void must(unsigned who, bool cond, const char* fmt, A... a)
    {
        if(!(monitors & who)) return;
        c.checked();
        if(!cond) c.fail(fmt, a...);
    }
    void attach(unsigned unit)
    {
        const uint32_t salt = next_salt++;
        auto r = s.add(unit, salt);
        if((menu & B_EXC) && salt > 2) r->reply = Reply{salt % 2 ? Reply::Exception : Reply::Other, 4};
        attached[unit].push_back({r, ++seq, salt});
        RecSession* p = r.get();
        r->on_call = [this, p, unit] { called(p, unit); };
    }
    // A session is asked: by whom, and is it the one attached?
    void called(RecSession* p, unsigned unit)
    {
        if(over) return;
        ++seq;
        const Req& q = p->asked.back();
        c.note("    the session %u of unit %u is asked", p->salt, unit);
        c.observe(p->salt * 1000 + unit);
        if(dead) c.fail("a session is asked after the channel was shut down");
        auto it = by_addr.find(q.addr);
        if(it == by_addr.end()) { must(M17 | M16 | M15, false, "a session of unit %u was asked for address %u, which no client requested", unit, q.addr); return; }
        Cl& cl = cls[it->second.first];
        Rq& r = cl.rqs[it->second.second];
        must(M17 | M16, !r.decided, "a request is handled twice, or after a later one");
        must(M17, r.unit == unit, "a request for unit %u reached the session of unit %u", r.unit, unit);
        must(M17, r.q == q, "the session was asked for something else than the client sent");
        for(size_t n = cl.undecided; n < it->second.second; ++n)
        {
            // handled before this one, by nobody
            must(M17 | M16, cl.rqs[n].decided || !cl.rqs[n].attached, "client %d: a request was passed over", cl.id);
            cl.rqs[n].decided = true;
        }
        // acceptable: the session in force when the request arrived, or any attached since
        const auto& v = attached[unit];
        size_t i = 0;
        while(i < v.size() && v[i].s.get() != p) ++i;
        bool ok = i < v.size();
        for(size_t n = i + 1; n < v.size(); ++n) if(v[n].seq < r.arrived) ok = false;
        must(M17, ok, "a request for unit %u reached session %u, which had been replaced before the request arrived", unit, p->salt);
        const Bytes pdu = session_pdu(q, p->reply, p->salt);
        if(!pdu.empty()) r.answer = ref::frame(r.tid, r.unit, pdu);
        r.decided = true;
    }
    uint32_t next_addr = 1;
    Rq make(Cl& cl, unsigned unit, int kind = ref::ReadHolding, uint32_t qty = 1)
    {
        Rq r;
        r.q.kind = kind;
        r.q.addr = next_addr++;
        if(ref::is_read(kind)) r.q.qty = qty; else r.q.vals = {static_cast<uint16_t>(r.q.addr * 3)};
        r.unit = unit;
        r.tid = (static_cast<uint32_t>(cl.id * 2000) + cl.next_tid++) & 0xFFFF;
        return r;
    }
    static Bytes bytes(const Rq& r) { return ref::frame(r.tid, r.unit, ref::request_pdu(r.q)); }
    void arrives(Cl& cl, Rq r)
    {
        r.arrived = ++seq;
        r.attached = attached.count(r.unit) != 0;
        if(!r.decided) by_addr[r.q.addr] = {static_cast<size_t>(cl.id), cl.rqs.size()};
        cl.rqs.push_back(std::move(r));
    }
    void send(size_t i, std::vector<Rq> v)
    {
        Bytes b;
        for(auto& r : v) { const Bytes x = bytes(r); b.insert(b.end(), x.begin(), x.end()); arrives(cls[i], std::move(r)); }
        cls[i].k->deliver(b);
    }
    void bad_function(size_t i)
    {
        Rq r = make(cls[i], 1);
        r.decided = true;
        r.answer = ref::frame(r.tid, 1, ref::exception_pdu(0x2B, 1));
        const uint32_t tid = r.tid;
        arrives(cls[i], std::move(r));
        cls[i].k->deliver(ref::frame(tid, 1, {0x2B, 14, 1}));
    }
    void half(size_t i)
    {
        Cl& x = cls[i];
        x.half_rq = make(x, 1);
        const Bytes b = bytes(x.half_rq);
        x.half.assign(b.begin() + 8, b.end());
        x.k->deliver(Bytes(b.begin(), b.begin() + 8));
    }
    void other_half(size_t i)
    {
        Cl& x = cls[i];
        arrives(x, x.half_rq);
        const Bytes b = std::move(x.half);
        x.half.clear();
        x.k->deliver(b);
    }
    void connect(bool slow)
    {
        s.w->initial_window = slow ? 5 : SIZE_MAX;
        auto k = s.w->incoming(502);
        s.w->initial_window = SIZE_MAX;
        if(!k) { must(M15 | M14S, dead, "nobody listens any more"); return; }
        if(menu & B_PIECES) k->max_piece = 7;
        cls.emplace_back();
        cls.back().k = k;
        cls.back().id = static_cast<int>(cls.size()) - 1;
    }
    bool dead = false, dead_tx = false, over = false; // set when a shutdown has been carried out (C14)
    // The client side may still send (the server has not closed it).
    bool usable(const Cl& cl) const { return !cl.k->local_closed && !cl.failed && !cl.k->rx_eof && !cl.k->rx_err; }

    using Act = std::pair<std::string, std::function<void()>>;
    std::vector<Act> actions()
    {
        std::vector<Act> a;
        auto on = [&](unsigned m) { return (menu & m) != 0; };
        if(cls.size() < max_clients)
        {
            if(on(B_CONNECT)) a.emplace_back("a client connects", [this] { connect(false); });
            if(on(B_SLOWCONNECT)) a.emplace_back("a client connects that reads slowly", [this] { connect(true); });
        }
        if(on(B_ACCEPTFAIL) && accept_failures < max_failures) a.emplace_back("accepting fails", [this] {
            ++accept_failures;
            if(auto* x = s.w->acceptor(502)) { x->errors.push_back(accept_error); x->try_accept(); }
        });
        for(size_t i = 0; i < cls.size(); ++i)
        {
            Cl& cl = cls[i];
            if(!usable(cl)) continue;
            const std::string who = "client " + std::to_string(i);
            if(cl.half.empty())
            {
                if(on(B_REQ)) a.emplace_back(who + " reads unit 1", [this, i] { send(i, {make(cls[i], 1)}); });
                if(on(B_REQ2)) a.emplace_back(who + " reads unit 2", [this, i] { send(i, {make(cls[i], 2)}); });
                if(on(B_WRITE)) a.emplace_back(who + " writes unit 1", [this, i] { send(i, {make(cls[i], 1, ref::WriteReg)}); });
                if(on(B_BIG)) a.emplace_back(who + " reads 125 registers", [this, i] { send(i, {make(cls[i], 1, ref::ReadHolding, 125)}); });
                if(on(B_UNKNOWN)) a.emplace_back(who + " reads unit 3", [this, i] { send(i, {make(cls[i], 3)}); });
                if(on(B_BADFC)) a.emplace_back(who + " sends an unknown function", [this, i] { bad_function(i); });
                if(on(B_PIPE)) a.emplace_back(who + " reads unit 1 and unit 2 in one go", [this, i] { auto r = make(cls[i], 1); send(i, {r, make(cls[i], 2, ref::ReadCoils)}); });
                if(on(B_BURST) && bursts < 1) a.emplace_back(who + " sends 400 requests in one go", [this, i] { ++bursts; std::vector<Rq> v; for(unsigned n = 0; n < 400; ++n) v.push_back(make(cls[i], 1 + n % 2)); send(i, std::move(v)); });
                if(on(B_HALF)) a.emplace_back(who + " sends half a request", [this, i] { half(i); });
                if(on(B_FOREIGN)) a.emplace_back(who + " sends a frame of another protocol", [this, i] { cls[i].k->deliver({0, 1, 0, 9, 0, 6, 1, 3, 0, 1, 0, 1}); });
            }
            else a.emplace_back(who + " sends the other half", [this, i] { other_half(i); });
            if(on(B_EOF)) a.emplace_back(who + " ends its stream", [this, i] { cls[i].failed = true; cls[i].k->peer_eof(); });
            if(on(B_RESET)) a.emplace_back(who + " resets", [this, i] { cls[i].failed = true; cls[i].k->peer_reset(reset_error); });
            if(on(B_WERR) && !cl.write_broken) a.emplace_back(who + " can no longer be written to", [this, i] { cls[i].k->tx_err = write_error; cls[i].write_broken = true; cls[i].k->poke(); });
            if(cl.k->window != SIZE_MAX)
            {
                a.emplace_back(who + " takes everything", [this, i] { cls[i].k->open_window(SIZE_MAX); });
                if(cl.k->window == 0) a.emplace_back(who + " takes 9 bytes", [this, i] { cls[i].k->open_window(9); });
            }
        }
        if(on(B_ATTACH) && attaches < max_attaches)
        {
            a.emplace_back("a session is attached for unit 1", [this] { ++attaches; attach(1); });
            a.emplace_back("a session is attached for unit 3", [this] { ++attaches; attach(3); });
        }
        return a;
    }
    int accept_failures = 0, attaches = 0, bursts = 0, max_failures = 2, max_attaches = 2;

    void perform(Act& x)
    {
        c.note("%s", x.first.c_str());
        ++seq;
        x.second();
        c.step();
    }
    void run_one()
    {
        s.w->run_one(s.w->ready().front());
        c.step();
        scan();
    }
    void run_all() { for(Aborts aborts; aborts.more(s.w, c, false);) run_one(); }
    // ---- monitors ----
    void scan()
    {
        for(auto& cl : cls)
        {
            // what the decided requests are answered with, in order
            while(cl.undecided < cl.rqs.size() && cl.rqs[cl.undecided].decided) { auto& m = cl.rqs[cl.undecided++].answer; cl.expect.insert(cl.expect.end(), m.begin(), m.end()); }
            const Bytes& tx = cl.k->tx;
            if(tx.size() > cl.checked)
            {
                const bool prefix = tx.size() <= cl.expect.size() && std::equal(tx.begin() + static_cast<long>(cl.checked), tx.end(), cl.expect.begin() + static_cast<long>(cl.checked));
                if(!prefix)
                {
                    const size_t from = cl.checked;
                    must(M16 | M17 | M15, false, "client %d receives %s after %zu bytes; its requests are answered with %s there", cl.id,
                         ref::hex(Bytes(tx.begin() + static_cast<long>(from), tx.end())).c_str(), from, cl.expect.size() > from ? ref::hex(Bytes(cl.expect.begin() + static_cast<long>(from), cl.expect.end())).c_str() : "nothing");
                }
                if(dead_tx) c.fail("client %d receives a response after the channel was shut down", cl.id);
                cl.checked = tx.size();
                c.observe(static_cast<uint64_t>(cl.id) << 32 | tx.size());
            }
        }
    }
    void quiescent()
    {
        scan();
        c.state();
        if(dead) return;
        // Which connections are served: accepted in order; one that fails leaves; beyond the limit the oldest goes.
        size_t accepted_now = 0, closed_now = 0;
        const size_t before = served.size();
        for(auto& cl : cls)
        {
            if(cl.accepted) continue;
            cl.accepted = cl.k->local_closed || !cl.k->sock.expired();
            must(M15, cl.accepted, "client %d is not accepted", cl.id);
            if(!cl.accepted) continue;
            ++accepted_now;
            served.push_back(static_cast<size_t>(cl.id));
        }
        std::deque<size_t> left;
        int older_open = -1;
        for(size_t i : served)
        {
            Cl& cl = cls[i];
            const bool closed = cl.k->local_closed;
            if(!closed) { left.push_back(i); if(!cl.write_broken) older_open = cl.id; continue; }
            if(cl.failed || cl.write_broken) continue;
            ++closed_now;
            must(M15, older_open < 0, "client %d has been disconnected although client %d, an older connection, is still served", cl.id, older_open);
        }
        must(M15 | M16, before + accepted_now >= limit + closed_now || closed_now == 0, "%zu clients have been disconnected, with %zu connections, %zu new ones and a limit of %zu", closed_now, before, accepted_now, limit);
        served = left;
        must(M15, served.size() <= limit, "%zu connections are being served, the limit is %zu", served.size(), limit);
        for(auto& cl : cls)
        {
            // requests to a unit that had no session when they arrived
            bool all = true;
            for(size_t n = cl.undecided; n < cl.rqs.size(); ++n) if(!cl.rqs[n].attached) cl.rqs[n].decided = true; else if(!cl.rqs[n].decided) all = false;
            scan();
            if((cl.failed || (cl.write_broken && cl.expect.size() > cl.k->tx.size())) && !cl.k->local_closed)
                must(M15 | M16, false, "client %d has disconnected but its connection is not closed", cl.id);
            if(cl.k->local_closed || cl.write_broken) continue;
            // everything it sent is answered
            must(M16 | M17 | M15, all, "client %d has sent a request that was handled by nobody", cl.id);
            if(cl.k->window == SIZE_MAX) must(M16 | M15 | M17, cl.k->tx.size() == cl.expect.size(), "client %d has received %zu bytes of %zu", cl.id, cl.k->tx.size(), cl.expect.size());
            else must(M16, cl.k->window == 0 || cl.k->tx.size() == cl.expect.size(), "client %d takes %zu more bytes but nothing is sent", cl.id, cl.k->window);
        }
    }
    void act()
    {
        auto a = actions();
        if(a.empty()) return;
        perform(a[static_cast<size_t>(c.choose(static_cast<int>(a.size()), "action"))]);
        settle();
    }
    void settle()
    {
        Aborts aborts;
        while(aborts.more(s.w, c))
        {
            if(c.can_deviate())
            {
                auto b = actions();
                const int i = c.deviate(static_cast<int>(b.size()) + 1, "before the next handler");
                if(i > 0) { perform(b[static_cast<size_t>(i - 1)]); continue; }
            }
            run_one();
            aborts.ran();
        }
        quiescent();
    }
    void explore(int depth)
    {
        for(int i = 0; i < depth; ++i) act();
        if(!cls.empty()) c.nontrivial();
        finish();
    }
    // A cycle of `len` actions, repeated; a client's action is that of the oldest or of the newest client that can.
    void explore_cycle(int len, int repeats)
    {
        play_cycle(len, repeats);
        if(!cls.empty()) c.nontrivial();
        finish();
    }
    void play_cycle(int len, int repeats)
    {
        max_failures = max_attaches = 1 << 20;
        std::vector<std::pair<std::string, int>> names; // 0: no client's, 1: the oldest's, 2: the newest's
        auto on = [&](unsigned m, const char* n, bool client = true) { if(menu & m) { if(!client) names.emplace_back(n, 0); else { names.emplace_back(n, 1); names.emplace_back(n, 2); } } };
        on(B_CONNECT, "a client connects", false); on(B_SLOWCONNECT, "a client connects that reads slowly", false); on(B_ACCEPTFAIL, "accepting fails", false); on(B_ATTACH, "a session is attached for unit 1", false);
        on(B_REQ, " reads unit 1"); on(B_REQ2, " reads unit 2"); on(B_WRITE, " writes unit 1"); on(B_BIG, " reads 125 registers"); on(B_UNKNOWN, " reads unit 3"); on(B_BADFC, " sends an unknown function");
        on(B_PIPE, " reads unit 1 and unit 2 in one go"); on(B_HALF, " sends half a request"); on(B_HALF, " sends the other half"); on(B_FOREIGN, " sends a frame of another protocol"); on(B_EOF, " ends its stream"); on(B_RESET, " resets");
        on(B_WERR, " can no longer be written to"); on(B_SLOWCONNECT, " takes everything"); on(B_SLOWCONNECT, " takes 9 bytes");
        std::vector<std::pair<std::string, int>> cycle;
        for(int i = 0; i < len; ++i) cycle.push_back(names[static_cast<size_t>(c.choose(static_cast<int>(names.size()), "action of the cycle"))]);
        for(int k = 0; k < repeats; ++k)
            for(auto& n : cycle)
            {
                auto a = actions();
                Act* hit = nullptr;
                for(auto& x : a)
                {
                    const bool match = n.second == 0 ? x.first == n.first : x.first.compare(0, 7, "client ") == 0 && x.first.size() > n.first.size() && x.first.compare(x.first.size() - n.first.size(), std::string::npos, n.first) == 0;
                    if(match && (!hit || n.second == 2)) hit = &x;
                }
                if(!hit) continue;
                perform(*hit);
                settle();
            }
    }
    // Everyone reads; two newcomers connect and are served; so is everybody still connected.
    void finish()
    {
        c.note("-- everybody reads");
        for(auto& cl : cls) if(cl.k->window != SIZE_MAX && !cl.k->local_closed) cl.k->open_window(SIZE_MAX);
        run_all();
        quiescent();
        for(int n = 0; n < 2; ++n)
        {
            c.note("-- a newcomer");
            connect(false);
            run_all();
            quiescent();
            must(M15, !cls.back().k->local_closed && !cls.back().k->sock.expired(), "a newcomer is not served");
        }
        for(size_t i = 0; i < cls.size(); ++i)
        {
            Cl& cl = cls[i];
            if(!usable(cl) || cl.k->sock.expired()) continue;
            if(!cl.half.empty()) other_half(i);
            send(i, {make(cl, 2)});
            send(i, {make(cl, 1)});
        }
        run_all();
        quiescent();
    }
};

} // namespace hw

#endif
