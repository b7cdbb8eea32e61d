// C16: the server's responses reach the right client intact and in request order.
#include "serversim_main.hpp"

using namespace hw;

int main(int argc, char** argv)
{
    constexpr unsigned Menu = B_REQ | B_PIPE | B_HALF | B_EOF;
    mc::Options o;
    o.property = "C16";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -2 : t == 1 ? 0 : 1;
        auto add = [&](const char* name, int dev, unsigned menu, size_t clients, int depth) {
            v.push_back({name, [=](mc::Ctx& c) { serve(c, M16, menu, 4, clients, clients + 1, depth + d); }, dev, std::to_string(depth + d) + " actions, " + std::to_string(clients) + " connections to start with"});
        };
        add("two clients", 0, Menu | B_UNKNOWN | B_BADFC | B_FOREIGN | B_WRITE, 2, 4);
        add("two clients, one slow", 0, Menu | B_SLOWCONNECT | B_BIG, 2, 5);
        add("one slow client", 0, Menu | B_SLOWCONNECT | B_BIG | B_RESET | B_WERR, 1, 5);
        add("one client, short writes", 0, Menu | B_PIECES | B_BIG, 1, 6);
        add("three clients", 0, B_REQ | B_PIPE | B_RESET, 3, 5);
        add("two clients, a race", 1, Menu, 2, 4);
        add("two clients, one slow, a race", 1, B_REQ | B_PIPE | B_SLOWCONNECT | B_EOF | B_RESET, 2, 4);
        add("one client, short writes, a race", 1, Menu | B_PIECES | B_BIG | B_WERR, 1, 3);
        if(t) add("two clients, one slow, two races", 2, B_REQ | B_PIPE | B_SLOWCONNECT | B_EOF, 2, 2);
        if(t) add("one client, short writes, two races", 2, B_REQ | B_PIPE | B_PIECES | B_WERR, 1, 3);
        add("a burst", 0, B_REQ | B_BURST | B_SLOWCONNECT | B_RESET, 1, 4);
        if(t == 2) add("a burst, a race", 1, B_REQ | B_BURST | B_SLOWCONNECT | B_RESET, 1, 3);
        v.push_back({"every error", [=](mc::Ctx& c) { serve_errors(c, M16, B_CONNECT | B_EOF | B_RESET | B_REQ | B_ACCEPTFAIL | B_WERR, 2, 2, 4 + d); }, 0, "28 errors, " + std::to_string(4 + d) + " actions"});
        for(unsigned limit : {1u, 3u, 12u})
            v.push_back({"cycles, limit " + std::to_string(limit), [=](mc::Ctx& c) { serve_cycles(c, M16, B_CONNECT | B_REQ | B_PIPE | B_HALF | B_EOF | B_BIG | B_SLOWCONNECT, limit, limit == 1 ? 1 : 2, t == 2 ? 3 : t ? 1 + c.choose(2, "length") : 1, t == 2 ? 60 : t ? 40 : 20); }, 0, t == 2 ? "every cycle of 3 actions, repeated 60 times" : "every cycle of 1 or 2 actions, repeated 40 times"});
    }
    o.rule = std::string{"Explored: "} + server_menu_text() + ". Monitored: after every handler, what each client has received is a prefix of the answers to its own requests in order (from a reference encoder, with the values of the session that was asked), and whenever nothing is queued and the client's socket has room it has received all of them; no client is disconnected for what another does.";
    o.assumptions = {"the acceptor, sockets and clock are simulated after asio's reactor on Linux (a write that cannot be taken at once is done later from the caller's buffer as it is then); one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
