// The starting points shared by the client checks.
#ifndef HARNESS_CLIENTSIM_MAIN_HPP
#define HARNESS_CLIENTSIM_MAIN_HPP

#include "clientsim.hpp"

namespace hw
{
// A new channel.
inline void fresh(mc::Ctx& c, unsigned mon, int depth, unsigned menu, int req)
{
    ClientSim s{c, mon, menu, req};
    s.explore(depth);
}
// A connection over which one request has been answered, and `n` more sent.
inline void busy(mc::Ctx& c, unsigned mon, int depth, unsigned menu, int n, int req)
{
    ClientSim s{c, mon, menu, req};
    s.send(1, 300ms, false);
    s.heal(true);
    for(int i = 0; i < n; ++i) s.send(1 + i % 2, i % 2 ? dur{1s} : dur{300ms}, (menu & A_FOLLOW) && i == 0);
    s.drain();
    c.note("-- connected, %d requests waiting", n);
    s.explore(depth);
}
// Every error the system may report, in place of the usual ones.
inline void every_error(mc::Ctx& c, unsigned mon, int depth, unsigned menu, int start)
{
    ClientSim s{c, mon, menu, 4};
    const auto e = system_errors()[static_cast<size_t>(c.choose(static_cast<int>(system_errors().size()), "error"))];
    static const asio::error_code names[]{asio::error::host_not_found, asio::error::host_not_found_try_again, asio::error::no_recovery, asio::error::no_data};
    s.resolve_error = names[e.value() % 4];
    s.connect_error = s.reset_error = e;
    c.note("-- the error is '%s'", e.message().c_str());
    if(start == 1) { s.send(1, 300ms, false); s.heal(true); s.send(1, 300ms, false); s.send(2, 1s, false); s.drain(); }
    else { s.send(1, 300ms, false); s.drain(); }
    s.explore(depth);
}
// A cycle of actions, over and over.
inline void cycles(mc::Ctx& c, unsigned mon, int len, int repeats, unsigned menu)
{
    ClientSim s{c, mon, menu, 1000};
    s.explore_cycle(len, repeats);
}
// In the middle of a connection attempt.
inline void connecting(mc::Ctx& c, unsigned mon, int depth, unsigned menu, bool resolved, int req)
{
    ClientSim s{c, mon, menu, req};
    s.send(1, 300ms, (menu & A_FOLLOW) != 0);
    s.drain();
    if(resolved) { s.w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); s.drain(); }
    c.note("-- %s", resolved ? "connecting" : "resolving");
    s.explore(depth);
}
inline const char* menu_text() { return "every sequence of environment actions of the stated length, each followed by every queued handler, then silence until every request has its outcome, then a healthy network and one more request"; }
} // namespace hw

#endif
