// C12: the client recovers from every connection failure.
#include "clientsim_main.hpp"

using namespace hw;

int main(int argc, char** argv)
{
    constexpr unsigned Menu = A_SEND | A_SEND2 | A_GOOD | A_NETFAIL | A_EOF | A_RESET | A_TIME;
    mc::Options o;
    o.property = "C12";
    for(int t = 0; t < 3; ++t)
    {
        auto& v = t == 0 ? o.smoke : t == 1 ? o.quick : o.thorough;
        const int d = t == 0 ? -1 : t == 1 ? 1 : 2;
        auto add = [&](const char* name, int dev, std::string bounds, std::function<void(mc::Ctx&)> f) { v.push_back({name, std::move(f), dev, std::move(bounds)}); };
        const auto n = [](int x) { return std::to_string(x) + " actions"; };
        add("new channel", 0, n(6 + d), [=](mc::Ctx& c) { fresh(c, M12, 6 + d, Menu, 4); });
        add("new channel, races", 2, n(4 + d), [=](mc::Ctx& c) { fresh(c, M12, 4 + d, Menu, 3); });
        add("new channel, local failures", 0, n(6 + d), [=](mc::Ctx& c) { fresh(c, M12, 6 + d, A_SEND | A_GOOD | A_NETFAIL | A_EOF | A_TIME | A_LOCAL | A_TWO, 4); });
        add("busy", 0, n(4 + d), [=](mc::Ctx& c) { busy(c, M12, 4 + d, Menu | A_SLOW | A_GARBAGE | A_HALF, 2, 6); });
        add("busy, races", 2, n(3 + d), [=](mc::Ctx& c) { busy(c, M12, 3 + d, Menu | A_FOLLOW | A_HALF, 2, 6); });
        add("resolving, races", 1, n(4 + d), [=](mc::Ctx& c) { connecting(c, M12, 4 + d, Menu | A_TWO | A_FOLLOW, false, 4); });
        add("connecting, races", 1, n(4 + d), [=](mc::Ctx& c) { connecting(c, M12, 4 + d, Menu | A_SLOW | A_FOLLOW, true, 4); });
        add("every error, new channel", 0, n(5 + d) + ", 28 errors", [=](mc::Ctx& c) { every_error(c, M12, 5 + d, A_SEND | A_GOOD | A_NETFAIL | A_RESET | A_TWO, 0); });
        add("every error, busy", 0, n(3 + d) + ", 28 errors", [=](mc::Ctx& c) { every_error(c, M12, 3 + d, A_SEND | A_GOOD | A_NETFAIL | A_RESET | A_SLOW | A_TIME, 1); });
        add("cycles", 0, std::string{"every cycle of "} + (t == 2 ? "3" : "1 to 3") + " actions, repeated " + (t == 2 ? "100" : t ? "24" : "6") + " times", [=](mc::Ctx& c) { cycles(c, M12, t == 2 ? 3 : t ? 1 + c.choose(3, "length") : 1 + c.choose(2, "length"), t == 2 ? 100 : t ? 24 : 6, Menu | A_SLOW | A_GARBAGE); });
        add("crowds", 0, "every cycle of 2 actions, repeated 300 times", [=](mc::Ctx& c) { cycles(c, M12, t ? 2 : 1, t ? 150 : 20, A_SEND | A_SEND2 | A_GOOD | A_TIME | A_EOF); });
    }
    o.rule = std::string{"Explored: "} + menu_text() + ". Monitored: requests are never left without a connection or an attempt to make one; requests outstanding or waiting when a connection fails get a connection error at once and are never transmitted later; no error without a failure since the request was sent; answers only from the connection the request went out on; failed sockets are closed; the final request succeeds.";
    o.assumptions = {"the socket, resolver and clock are simulated after asio's reactor on Linux; one thread runs the handlers (C20 covers threads)"};
    o.hang_seconds = 60;
    return mc::main(argc, argv, o);
}
