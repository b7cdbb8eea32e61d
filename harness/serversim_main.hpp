// The starting points shared by the server checks.
#ifndef HARNESS_SERVERSIM_MAIN_HPP
#define HARNESS_SERVERSIM_MAIN_HPP

#include "serversim.hpp"

namespace hw
{
// `clients` connections, `requests` answered on each.
inline void serve(mc::Ctx& c, unsigned mon, unsigned menu, unsigned limit, size_t clients, size_t max_clients, int depth)
{
    ServerSim s{c, mon, menu, limit, max_clients};
    for(size_t i = 0; i < clients; ++i) { s.connect((menu & B_SLOWCONNECT) && i == 0); while(s.s.w->has_ready()) s.run_one(); s.quiescent(); }
    c.note("-- %zu connections, limit %u", clients, limit);
    s.explore(depth);
}
// A cycle of actions, over and over.
inline void serve_cycles(mc::Ctx& c, unsigned mon, unsigned menu, unsigned limit, size_t clients, int len, int repeats)
{
    ServerSim s{c, mon, menu, limit, 2000};
    for(size_t i = 0; i < clients; ++i) { s.connect(false); while(s.s.w->has_ready()) s.run_one(); s.quiescent(); }
    c.note("-- %zu connections, limit %u", clients, limit);
    s.explore_cycle(len, repeats);
}
// Every error the system may report, in place of the usual ones.
inline void serve_errors(mc::Ctx& c, unsigned mon, unsigned menu, unsigned limit, size_t clients, int depth)
{
    ServerSim s{c, mon, menu, limit, 6};
    s.max_failures = 3;
    const auto e = system_errors()[static_cast<size_t>(c.choose(static_cast<int>(system_errors().size()), "error"))];
    s.accept_error = s.reset_error = s.write_error = e;
    c.note("-- the error is '%s'", e.message().c_str());
    for(size_t i = 0; i < clients; ++i) { s.connect(false); while(s.s.w->has_ready()) s.run_one(); s.quiescent(); }
    s.explore(depth);
}
inline const char* server_menu_text() { return "every sequence of the stated number of environment actions (clients connecting, sending, reading, disconnecting; accept failures; sessions being attached), each followed by every queued handler, then everybody reads everything, two newcomers connect, and every connection still open sends two more requests"; }
} // namespace hw

#endif
