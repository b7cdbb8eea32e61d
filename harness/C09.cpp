// C09: every client request gets exactly one outcome.
#include "clientsim_main.hpp"

using namespace hw;

int main(int argc, char** argv)
{
    constexpr unsigned Menu = A_SEND | A_SEND2 | A_GOOD | A_NETFAIL | A_EOF | A_TIME;
    mc::Options o;
    o.property = "C09";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -1 : t == 1 ? 1 : 2;
        auto add = [&](const char* name, int dev, std::string bounds, std::function<void(mc::Ctx&)> f) { v.push_back({name, std::move(f), dev, std::move(bounds)}); };
        const auto n = [](int x) { return std::to_string(x) + " actions"; };
        add("new channel", 0, n(7 + d), [=](mc::Ctx& c) { fresh(c, M09, 7 + d, Menu | A_INVALID, 4); });
        add("new channel, races", 1, n(5 + d), [=](mc::Ctx& c) { fresh(c, M09, 5 + d, Menu | A_FOLLOW | A_INVALID, 3); });
        add("new channel, local failures", 0, n(7 + d), [=](mc::Ctx& c) { fresh(c, M09, 7 + d, A_SEND | A_GOOD | A_NETFAIL | A_EOF | A_TIME | A_LOCAL | A_TWO, 4); });
        add("busy, every answer", 1, n(3 + d), [=](mc::Ctx& c) { busy(c, M09, 3 + d, Menu | A_EXC | A_BAD | A_TID | A_UNIT | A_STALE | A_EARLY | A_HALF | A_DOUBLE | A_RESET | A_SLOW | A_GARBAGE, 2, 5); });
        add("busy", 0, n(5 + d), [=](mc::Ctx& c) { busy(c, M09, 5 + d, Menu | A_EXC | A_BAD | A_RESET | A_FOLLOW, 2, 6); });
        add("busy, races", 2, n(3 + d), [=](mc::Ctx& c) { busy(c, M09, 3 + d, Menu | A_RESET | A_FOLLOW, 2, 5); });
        add("resolving, races", 2, n(3 + d), [=](mc::Ctx& c) { connecting(c, M09, 3 + d, Menu | A_TWO | A_FOLLOW, false, 4); });
        add("connecting, races", 2, n(3 + d), [=](mc::Ctx& c) { connecting(c, M09, 3 + d, Menu | A_SLOW | A_RESET | A_FOLLOW, true, 4); });
        add("every error, new channel", 0, n(5 + d) + ", 28 errors", [=](mc::Ctx& c) { every_error(c, M09, 5 + d, A_SEND | A_GOOD | A_NETFAIL | A_RESET | A_TWO, 0); });
        add("every error, busy", 0, n(3 + d) + ", 28 errors", [=](mc::Ctx& c) { every_error(c, M09, 3 + d, A_SEND | A_GOOD | A_NETFAIL | A_RESET | A_SLOW | A_TIME, 1); });
        add("forgetful applications", 0, n(6 + d), [=](mc::Ctx& c) { fresh(c, M09, 6 + d, A_SEND | A_SEND2 | A_GOOD | A_EOF | A_TIME | A_FORGET | A_NETFAIL, 4); });
        add("forgetful applications, races", 1, n(3 + d), [=](mc::Ctx& c) { busy(c, M09, 3 + d, A_SEND | A_SEND2 | A_GOOD | A_EOF | A_TIME | A_FORGET, 2, 5); });
        add("cycles", 0, std::string{"every cycle of "} + (t == 2 ? "3" : "1 to 3") + " actions, repeated " + (t == 2 ? "100" : t ? "24" : "6") + " times", [=](mc::Ctx& c) { cycles(c, M09, t == 2 ? 3 : t ? 1 + c.choose(3, "length") : 1 + c.choose(2, "length"), t == 2 ? 100 : t ? 24 : 6, Menu | A_INVALID | A_FOLLOW | A_EXC | A_BAD | A_RESET | A_STALE | A_FORGET); });
        add("crowds", 0, "every cycle of 2 actions, repeated 300 times", [=](mc::Ctx& c) { cycles(c, M09, t ? 2 : 1, t ? 150 : 20, A_SEND | A_SEND2 | A_GOOD | A_TIME | A_EOF); });
    }
    o.rule = std::string{"Explored: "} + menu_text() + ". Monitored: each handler is called exactly once, not inside a call that sends a request, by the deadline, and with an outcome that something caused";
    o.assumptions = {"the socket, resolver and clock are simulated after asio's reactor on Linux; one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
