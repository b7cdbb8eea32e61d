// Exhaustive explorer of choice sequences (stateless model checking of the real code).
//
// A scenario is a function run(Ctx&) that drives the code under test and asks the explorer for every
// decision: what operation comes next, what the network answers, which queued handler runs. The explorer
// runs the scenario once per distinct choice sequence (depth-first, by replay), over all cores.
//   choose(n)    a free decision with n options: all of them are explored
//   deviate(n)   option 0 is the default environment answer; other options cost one deviation, of which an
//                execution has at most `deviations` (iterative context bounding)
// An execution that fails is replayed twice in fresh processes before it is reported; so is one that crashes
// (sanitizer, signal) or hangs.
#ifndef MC_MC_HPP
#define MC_MC_HPP

#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc
{

struct Failure
{
    std::string what;
};

class Ctx
{
public:
    int choose(int n, const char* label = "");
    int deviate(int n, const char* label = "");
    bool can_deviate() const;
    // Appends to the human readable trace (kept only when replaying or sampling).
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool tracing() const { return m_tracing; }
    // Folds an observation of this execution into its fingerprint.
    void observe(uint64_t v) { m_obs = (m_obs ^ v) * 0x100000001b3ULL; m_obs ^= m_obs >> 29; }
    void observe(const std::string& s) { for(unsigned char c : s) observe(static_cast<uint64_t>(c) + 257); observe(uint64_t{1} << 32); }
    // Declares that the system is now in the state with this fingerprint (by default states are fingerprints
    // of the whole observation history, taken at every choice).
    void state(uint64_t h);
    void state() { state(m_obs); }
    // One step of the system (an operation, a delivery, a handler).
    void step(uint64_t n = 1) { m_steps += n; }
    // One comparison with the reference model / one monitored condition evaluated.
    void checked(uint64_t n = 1) { m_checked += n; }
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void nontrivial() { m_nontrivial = true; }
    uint64_t fingerprint() const { return m_obs; }

    // engine side
    struct Point { uint16_t n; bool dev; uint32_t label; };
    std::vector<uint16_t> prefix, choices;
    std::vector<Point> points;
    int dev_bound = 0, devs = 0;
    bool m_tracing = false, m_nontrivial = false;
    uint64_t m_obs = 0xcbf29ce484222325ULL, m_steps = 0, m_checked = 0;
    std::string trace;
    int take(int n, bool dev, const char* label);
};

struct Scenario
{
    std::string name;
    std::function<void(Ctx&)> run;
    int deviations = 0;
    std::string bounds; // text for the evidence
};

struct Options
{
    std::string property;
    std::vector<Scenario> quick, thorough, smoke;
    std::string rule;
    std::vector<std::string> assumptions;
    std::string level = "model_checking";
    double hang_seconds = 20;
};

int main(int argc, char** argv, Options o);

} // namespace mc

#endif
