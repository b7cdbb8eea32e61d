// C15: the server's connection limit evicts the oldest and never blocks newcomers.
#include "serversim_main.hpp"

using namespace hw;

// Limits of every size: that many connections are served at once, each one more closes the oldest and is served.
static void limits(mc::Ctx& c, bool deep)
{
    static const unsigned all[]{1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 700};
    const unsigned limit = all[c.choose(deep ? 22 : 21, "limit")];
    const int leave = c.choose(4, "which leave first"); // none, the oldest, the youngest, every second
    Server s{c, limit};
    s.add(7);
    s.w->drain();
    std::vector<std::shared_ptr<sim::Conn>> ks;
    auto served = [&](const std::shared_ptr<sim::Conn>& k, const char* who) {
        c.checked();
        c.step();
        if(!k || k->local_closed) c.fail("limit %u: %s connection is closed", limit, who);
        k->tx.clear();
        k->tx_marks.clear();
        k->deliver(ref::frame(9, 7, {3, 0, 1, 0, 1}));
        s.w->drain();
        if(k->tx.size() != 11) c.fail("limit %u: a request on %s connection is not answered", limit, who);
    };
    auto open = [&] { size_t n = 0; for(auto& k : ks) n += !k->local_closed; return n; };
    for(unsigned i = 0; i < limit; ++i) { ks.push_back(s.connect()); if(!ks.back()) c.fail("limit %u: connection %u is not accepted", limit, i); }
    for(auto& k : ks) served(k, "one of as many as allowed:");
    std::vector<std::shared_ptr<sim::Conn>> in; // those expected to be there, oldest first
    for(unsigned i = 0; i < limit; ++i)
    {
        const bool out = leave == 0 ? false : leave == 1 ? i == 0 : leave == 2 ? i + 1 == limit : i % 2 == 0;
        if(out) { ks[i]->peer_eof(); s.w->drain(); } else in.push_back(ks[i]);
    }
    // twice as many newcomers
    for(unsigned i = 0; i < limit * 2 + 3; ++i)
    {
        ks.push_back(s.connect());
        if(!ks.back()) c.fail("limit %u: a newcomer is not accepted", limit);
        in.push_back(ks.back());
        if(in.size() > limit) { if(!in.front()->local_closed) c.fail("limit %u: %zu connections have been made and the oldest is still there", limit, in.size()); in.erase(in.begin()); }
        if(limit < 40 || i % 16 == 0 || i + 3 > limit * 2) { served(in.back(), "the newest"); served(in.front(), "the oldest"); if(open() != in.size()) c.fail("limit %u: %zu connections are open, expected %zu", limit, open(), in.size()); }
    }
    for(auto& k : in) served(k, "one of those left:");
    c.checked();
    if(open() != in.size()) c.fail("limit %u: %zu connections are open, expected %zu", limit, open(), in.size());
    c.nontrivial();
    c.observe(limit);
}

int main(int argc, char** argv)
{
    constexpr unsigned Menu = B_CONNECT | B_EOF | B_RESET | B_REQ | B_ACCEPTFAIL;
    mc::Options o;
    o.property = "C15";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -2 : t == 1 ? 0 : 1;
        auto add = [&](const char* name, int dev, unsigned menu, unsigned limit, size_t clients, size_t maxc, int depth) {
            v.push_back({name, [=](mc::Ctx& c) { serve(c, M15, menu, limit, clients, maxc, depth + d); }, dev, std::to_string(depth + d) + " actions, limit " + std::to_string(limit) + ", " + std::to_string(clients) + " connections to start with, at most " + std::to_string(maxc)});
        };
        add("limit 1", 0, Menu, 1, 0, 5, 9);
        add("limit 2", 0, Menu, 2, 0, 5, 8);
        add("limit 3", 0, Menu, 3, 2, 5, 7);
        add("limit 2, slow and broken clients", 0, Menu | B_SLOWCONNECT | B_WERR | B_PIPE, 2, 2, 4, 5);
        add("limit 1, a race", 1, Menu, 1, 1, 4, 5);
        add("limit 2, a race", 1, Menu, 2, 2, 4, 5);
        add("limit 3, a race", 1, Menu | B_PIPE | B_WERR, 3, 3, 5, 3);
        if(t) add("limit 1, two races", 2, Menu, 1, 1, 4, 3);
        if(t) add("limit 2, two races", 2, Menu, 2, 2, 4, 3);
        v.push_back({"limits of every size", [=](mc::Ctx& c) { limits(c, t == 2); }, 0, "21 limits of 1 to 300 (thorough: 700), filled, left by some, and refilled twice over"});
        v.push_back({"every error", [=](mc::Ctx& c) { serve_errors(c, M15, B_CONNECT | B_EOF | B_RESET | B_REQ | B_ACCEPTFAIL | B_WERR, 2, 2, 4 + d); }, 0, "28 errors, " + std::to_string(4 + d) + " actions"});
        for(unsigned limit : {1u, 3u, 12u})
            v.push_back({"cycles, limit " + std::to_string(limit), [=](mc::Ctx& c) { serve_cycles(c, M15, B_CONNECT | B_EOF | B_RESET | B_REQ | B_ACCEPTFAIL | B_SLOWCONNECT | B_WERR, limit, limit == 1 ? 1 : 2, t == 2 ? 3 : t ? 1 + c.choose(2, "length") : 1, t == 2 ? 60 : t ? 40 : 20); }, 0, t == 2 ? "every cycle of 3 actions, repeated 60 times" : "every cycle of 1 or 2 actions, repeated 40 times"});
    }
    o.rule = std::string{"Explored: "} + server_menu_text() + ". Monitored at every point where nothing is queued: never more connections than the limit; every client that connected has been accepted; a connection closed by the server had failed, or there were more connections than the limit and no older one is still served; failed connections are closed; every request of a served connection is answered.";
    o.assumptions = {"the acceptor, sockets and clock are simulated after asio's reactor on Linux; one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
