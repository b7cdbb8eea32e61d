#include "mc.hpp"

#include <malloc.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace mc
{
namespace
{

constexpr size_t MaxChoices = 30000;
constexpr size_t QueueSlots = 2048;
constexpr size_t StateSlots = size_t{1} << 24;
constexpr size_t MaxWorkers = 64;
constexpr size_t MaxScenarios = 256;

struct Path { uint32_t scenario, len; uint16_t c[MaxChoices]; };

struct alignas(64) Slot
{
    std::atomic<uint64_t> beat;      // executions begun
    std::atomic<uint64_t> execs, steps, points, checked, nontrivial, maxdepth;
    std::atomic<int> phase;          // 0 idle, 1 running
    Path cur;                        // the execution being run (choices written as they are made)
};

struct Shared
{
    std::atomic<int> lock;
    std::atomic<uint32_t> qhead, qsize;
    std::atomic<int> idle, workers, stop, timed_out, diverged;
    std::atomic<uint64_t> states, obs, truncated;
    std::atomic<uint64_t> sc_execs[MaxScenarios], sc_capped[MaxScenarios];
    std::atomic<int> failed;
    Path fail_path;
    char fail_msg[4096];
    Slot slot[MaxWorkers];
    Path queue[QueueSlots];
    std::atomic<uint64_t> state_table[StateSlots];
    std::atomic<uint64_t> obs_table[StateSlots / 4];
};

Shared* S;
Slot* my_slot;
Options* O;
std::vector<Scenario>* SC;

void lock() { int e = 0; while(!S->lock.compare_exchange_weak(e, 1, std::memory_order_acquire)) { e = 0; sched_yield(); } }
void unlock() { S->lock.store(0, std::memory_order_release); }

bool insert(std::atomic<uint64_t>* table, size_t slots, uint64_t h)
{
    if(h == 0) h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ULL) & (slots - 1);
    for(size_t k = 0; k < 64; ++k, i = (i + 1) & (slots - 1))
    {
        uint64_t v = table[i].load(std::memory_order_relaxed);
        if(v == h) return false;
        if(v == 0)
        {
            uint64_t e = 0;
            if(table[i].compare_exchange_strong(e, h)) return true;
            if(e == h) return false;
        }
    }
    S->truncated++; // table full around here: not counted (the counts are lower bounds)
    return false;
}

double now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t); // not steady_clock, which may be the simulated one
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

uint32_t label_hash(const char* s)
{
    uint32_t h = 2166136261u;
    for(; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 16777619u;
    return h;
}

struct Divergence { std::string what; };

// Runs one execution. Returns "" or the failure.
std::string run_one(const Scenario& sc, Ctx& ctx)
{
    try
    {
        sc.run(ctx);
    }
    catch(const Failure& f)
    {
        return f.what;
    }
    catch(const Divergence&)
    {
        throw;
    }
    catch(const std::exception& e)
    {
        return std::string{"unexpected exception: "} + e.what();
    }
    catch(...)
    {
        return "unexpected exception of unknown type";
    }
    return "";
}

struct Task { uint32_t scenario; std::vector<uint16_t> prefix; };

bool shared_pop(Task& t)
{
    lock();
    if(S->qsize == 0) { unlock(); return false; }
    const Path& p = S->queue[S->qhead];
    t.scenario = p.scenario;
    t.prefix.assign(p.c, p.c + p.len);
    S->qhead = (S->qhead + 1) % QueueSlots;
    S->qsize--;
    unlock();
    return true;
}
bool shared_push(const Task& t)
{
    lock();
    if(S->qsize >= QueueSlots || t.prefix.size() > MaxChoices) { unlock(); return false; }
    Path& p = S->queue[(S->qhead + S->qsize) % QueueSlots];
    p.scenario = t.scenario;
    p.len = static_cast<uint32_t>(t.prefix.size());
    std::copy(t.prefix.begin(), t.prefix.end(), p.c);
    S->qsize++;
    unlock();
    return true;
}

void worker(int id)
{
    my_slot = &S->slot[id];
    std::deque<Task> local;
    bool counted_idle = false;
    for(;;)
    {
        if(S->stop) break;
        Task t;
        if(!local.empty()) { t = std::move(local.back()); local.pop_back(); }
        else if(shared_pop(t)) { if(counted_idle) { S->idle--; counted_idle = false; } }
        else
        {
            if(!counted_idle)
            {
                // Between the failed pop and this count somebody may have pushed: popping again decides.
                S->idle++;
                counted_idle = true;
            }
            if(S->idle == S->workers && S->qsize == 0) break;
            usleep(200);
            continue;
        }
        const Scenario& sc = (*SC)[t.scenario];
        Ctx ctx;
        ctx.prefix = t.prefix;
        ctx.dev_bound = sc.deviations;
        my_slot->cur.scenario = t.scenario;
        my_slot->cur.len = 0;
        my_slot->phase = 1;
        my_slot->beat++;
        std::string err;
        try { err = run_one(sc, ctx); }
        catch(const Divergence& d)
        {
            lock();
            if(!S->diverged) { S->diverged = 1; snprintf(S->fail_msg, sizeof S->fail_msg, "%s: %s", sc.name.c_str(), d.what.c_str()); }
            unlock();
            S->stop = 1;
            break;
        }
        my_slot->phase = 0;
        my_slot->execs++;
        S->sc_execs[t.scenario]++;
        my_slot->steps += ctx.m_steps;
        my_slot->checked += ctx.m_checked;
        my_slot->points += ctx.points.size() - std::min(ctx.points.size(), t.prefix.size());
        if(ctx.m_nontrivial) my_slot->nontrivial++;
        if(ctx.points.size() > my_slot->maxdepth) my_slot->maxdepth = ctx.points.size();
        if(insert(S->obs_table, StateSlots / 4, ctx.m_obs ^ (t.scenario * 0x51ed2701ULL))) S->obs++;
        if(!err.empty())
        {
            lock();
            if(!S->failed)
            {
                S->failed = 1;
                S->fail_path = my_slot->cur;
                snprintf(S->fail_msg, sizeof S->fail_msg, "%s", err.c_str());
            }
            unlock();
            S->stop = 1;
            break;
        }
        // Children: every alternative at every point after the prefix (deepest pushed last, popped first).
        int devs = 0;
        for(size_t i = 0; i < ctx.points.size(); ++i)
        {
            const auto& p = ctx.points[i];
            if(i >= t.prefix.size() && (!p.dev || devs < sc.deviations))
            {
                for(int alt = p.n - 1; alt >= 1; --alt)
                {
                    Task c;
                    c.scenario = t.scenario;
                    c.prefix.assign(ctx.choices.begin(), ctx.choices.begin() + static_cast<long>(i));
                    c.prefix.push_back(static_cast<uint16_t>(alt));
                    local.push_back(std::move(c));
                }
            }
            if(p.dev && ctx.choices[i] != 0) ++devs;
        }
        while(local.size() > 1 && S->qsize < 4 * static_cast<uint32_t>(S->workers.load()))
        {
            if(!shared_push(local.front())) break;
            local.pop_front();
        }
    }
    if(!counted_idle) S->idle++;
}

// Runs one path in a child process. Returns 0 ok, 1 failed (msg), 2 crashed, 3 hung, 4 diverged.
int run_isolated(const Path& p, bool tracing, double limit, std::string& msg, std::string& trace, std::string& err_text)
{
    char dir[] = "/tmp/mcXXXXXX";
    if(!mkdtemp(dir)) { perror("mkdtemp"); exit(2); }
    const std::string d = dir, errf = d + "/err", outf = d + "/out", trf = d + "/trace";
    fflush(nullptr);
    const pid_t pid = fork();
    if(pid == 0)
    {
        int fd = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        my_slot = &S->slot[MaxWorkers - 1];
        Ctx ctx;
        ctx.prefix.assign(p.c, p.c + p.len);
        ctx.dev_bound = (*SC)[p.scenario].deviations;
        ctx.m_tracing = tracing;
        std::string e;
        int rc = 0;
        try { e = run_one((*SC)[p.scenario], ctx); if(!e.empty()) rc = 1; }
        catch(const Divergence& dv) { e = dv.what; rc = 4; }
        std::ofstream(outf) << e;
        std::ofstream(trf) << ctx.trace;
        _exit(rc == 0 ? 0 : 40 + rc);
    }
    const double t0 = now_s();
    int st = 0;
    bool hung = false;
    for(;;)
    {
        const pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) break;
        if(now_s() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(2000);
    }
    auto slurp = [](const std::string& f) { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); return ss.str(); };
    msg = slurp(outf);
    trace = slurp(trf);
    err_text = slurp(errf);
    unlink(errf.c_str()); unlink(outf.c_str()); unlink(trf.c_str()); rmdir(dir);
    if(hung) return 3;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 41) return 1;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 44) return 4;
    return 2;
}

std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if(c == '\n') r += "\\n";
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

// A one-line reason out of a sanitizer report.
std::string crash_reason(const std::string& text)
{
    std::istringstream in(text);
    std::string l, first;
    while(std::getline(in, l))
    {
        for(const char* k : {"ERROR: AddressSanitizer", "runtime error:", "MEMORY-ERROR", "terminate called", "DATA-RACE", "DEADLOCK", "Assertion"})
            if(l.find(k) != std::string::npos) return l;
        if(first.empty()) first = l;
    }
    return first.empty() ? "the process died" : first;
}

} // namespace

int Ctx::take(int n, bool dev, const char* label)
{
    if(n <= 0) { fprintf(stderr, "explorer: choice without options (%s)\n", label); abort(); }
    int c = 0;
    const size_t i = choices.size();
    if(n == 1) return 0;
    if(i < prefix.size())
    {
        c = prefix[i];
        if(c >= n) throw Divergence{std::string{"replay diverged at choice '"} + label + "'"};
    }
    if(i >= MaxChoices) fail("execution makes more than %zu choices: it does not terminate", MaxChoices);
    choices.push_back(static_cast<uint16_t>(c));
    points.push_back({static_cast<uint16_t>(n), dev, label_hash(label)});
    my_slot->cur.c[i] = static_cast<uint16_t>(c);
    my_slot->cur.len = static_cast<uint32_t>(i + 1);
    if(dev && c != 0) ++devs;
    return c;
}
int Ctx::choose(int n, const char* label) { return take(n, false, label); }
int Ctx::deviate(int n, const char* label)
{
    if(devs >= dev_bound) return 0;
    return take(n, true, label);
}
bool Ctx::can_deviate() const { return devs < dev_bound; }
void Ctx::note(const char* fmt, ...)
{
    if(!m_tracing) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    trace += buf;
    trace += '\n';
}
void Ctx::fail(const char* fmt, ...)
{
    char buf[4000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Failure{buf};
}
void Ctx::state(uint64_t h)
{
    if(insert(S->state_table, StateSlots, h)) S->states++;
}

int main(int argc, char** argv, Options o)
{
    O = &o;
    const double t0 = now_s();
    std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    const int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0;
    std::string out = "/verif", replay, only;
    int jobs = static_cast<int>(std::thread::hardware_concurrency());
    double time_cap = 0;
    for(int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto next = [&] { if(i + 1 >= argc) { fprintf(stderr, "missing argument of %s\n", a.c_str()); exit(2); } return std::string{argv[++i]}; };
        if(a == "--tier") tier = next();
        else if(a == "--out") out = next();
        else if(a == "--replay") replay = next();
        else if(a == "--only") only = next();
        else if(a == "--jobs") jobs = atoi(next().c_str());
        else if(a == "--time") time_cap = atof(next().c_str());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    mallopt(M_PERTURB, 0x5A); // use of freed memory shows (the sanitizers replace malloc anyway)
    if(jobs < 1) jobs = 1;
    if(jobs > 32) jobs = 32;
    if(time_cap <= 0) time_cap = tier == "thorough" ? 3000 : 500;
    // tier "smoke": the scenarios run with the memory sanitizers before the others run without
    auto tier_scenarios = [&] { return tier == "smoke" ? o.smoke : tier == "thorough" && !o.thorough.empty() ? o.thorough : o.quick; };
    std::vector<Scenario> scenarios = tier_scenarios();
    if(!only.empty())
    {
        std::vector<Scenario> f;
        for(auto& s : scenarios) if(s.name.find(only) != std::string::npos) f.push_back(s);
        scenarios = f;
    }
    SC = &scenarios;
    if(scenarios.empty() || scenarios.size() > MaxScenarios) { fprintf(stderr, "no scenarios\n"); return 2; }
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(m == MAP_FAILED) { perror("mmap"); return 2; }
    S = new(m) Shared;

    const std::string prop = o.property;
    const std::string repdir = out + "/out";
    mkdir(repdir.c_str(), 0755);

    auto report = [&](const Path& p, const std::string& what, const std::string& trace, const std::string& err) {
        const std::string f = repdir + "/" + prop + "-violation.txt";
        std::ofstream r(f);
        r << "property " << prop << "\ntier " << tier << "\nscenario " << scenarios[p.scenario].name << "\nchoices";
        for(uint32_t i = 0; i < p.len; ++i) r << ' ' << p.c[i];
        r << "\nwhat " << what << "\n--- trace\n" << trace << "--- output\n" << err;
        r.close();
        printf("scenario %s: %s\n", scenarios[p.scenario].name.c_str(), what.c_str());
        if(!trace.empty()) printf("%s", trace.size() > 6000 ? (trace.substr(0, 6000) + "...\n").c_str() : trace.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), f.c_str());
        fflush(stdout);
    };

    if(!replay.empty())
    {
        std::ifstream in(replay);
        std::string l, name;
        static Path p;
        while(std::getline(in, l))
        {
            std::istringstream ls(l);
            std::string k;
            ls >> k;
            if(k == "tier") ls >> tier;
            if(k == "scenario") { std::getline(ls, name); name = name.substr(name.find_first_not_of(' ')); }
            if(k == "choices") { unsigned v; while(ls >> v && p.len < MaxChoices) p.c[p.len++] = static_cast<uint16_t>(v); }
            if(k == "---") break;
        }
        std::vector<Scenario> all = tier_scenarios();
        scenarios = all;
        size_t i = 0;
        while(i < all.size() && all[i].name != name) ++i;
        if(i == all.size()) { fprintf(stderr, "no scenario %s\n", name.c_str()); return 2; }
        p.scenario = static_cast<uint32_t>(i);
        std::string msg, tr, err;
        const int rc = run_isolated(p, true, 120, msg, tr, err);
        if(rc == 0) { printf("%sreplay: the property held\n", tr.c_str()); return 0; }
        if(rc == 4) { printf("replay diverged: %s\n", msg.c_str()); return 2; }
        if(rc == 2) msg = crash_reason(err);
        if(rc == 3) msg = "does not terminate";
        report(p, msg, tr, err);
        return 1;
    }

    for(uint32_t i = 0; i < scenarios.size(); ++i) { Task t{i, {}}; if(!shared_push(t)) { fprintf(stderr, "queue full\n"); return 2; } }
    S->workers = jobs;
    char logdir[] = "/tmp/mclogXXXXXX";
    if(!mkdtemp(logdir)) { perror("mkdtemp"); return 2; }
    std::vector<pid_t> pids;
    fflush(nullptr);
    for(int i = 0; i < jobs; ++i)
    {
        const pid_t pid = fork();
        if(pid < 0) { perror("fork"); return 2; }
        if(pid == 0)
        {
            const std::string lf = std::string{logdir} + "/" + std::to_string(i);
            int fd = open(lf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            worker(i);
            fflush(nullptr);
            _exit(0);
        }
        pids.push_back(pid);
    }
    // Supervise.
    int crashed = -1, hung = -1;
    std::vector<uint64_t> last(static_cast<size_t>(jobs), 0);
    std::vector<double> since(static_cast<size_t>(jobs), now_s());
    std::vector<bool> done(static_cast<size_t>(jobs), false);
    size_t left = pids.size();
    double progress = now_s();
    while(left)
    {
        for(size_t i = 0; i < pids.size(); ++i)
        {
            if(done[i]) continue;
            int st;
            if(waitpid(pids[i], &st, WNOHANG) == pids[i])
            {
                done[i] = true;
                --left;
                if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && crashed < 0 && hung < 0) { crashed = static_cast<int>(i); S->stop = 1; }
                continue;
            }
            const uint64_t b = S->slot[i].beat;
            if(b != last[i] || S->slot[i].phase == 0) { last[i] = b; since[i] = now_s(); }
            else if(now_s() - since[i] > o.hang_seconds)
            {
                if(crashed < 0 && hung < 0) { hung = static_cast<int>(i); S->stop = 1; }
                kill(pids[i], SIGKILL);
            }
        }
        if(!S->stop && now_s() - t0 > time_cap) { S->timed_out = 1; S->stop = 1; }
        if(getenv("MC_PROGRESS") && now_s() - progress > 10)
        {
            progress = now_s();
            uint64_t e = 0;
            for(int i = 0; i < jobs; ++i) e += S->slot[i].execs;
            fprintf(stderr, "[%5.0f s] executions=%llu states=%llu queue=%u\n", now_s() - t0, (unsigned long long)e, (unsigned long long)S->states.load(), S->qsize.load());
        }
        usleep(left ? 3000 : 0);
    }
    for(int i = 0; i < jobs; ++i) unlink((std::string{logdir} + "/" + std::to_string(i)).c_str());
    rmdir(logdir);

    int violations = 0, rc = 0;
    if(S->diverged)
    {
        fprintf(stderr, "%s: the explorer lost determinism: %s\n", prop.c_str(), S->fail_msg);
        rc = 2;
    }
    else if(S->failed || crashed >= 0 || hung >= 0)
    {
        static Path p;
        p = S->failed ? S->fail_path : S->slot[crashed >= 0 ? crashed : hung].cur;
        std::string msg[2], tr[2], err[2];
        int r[2];
        for(int k = 0; k < 2; ++k) r[k] = run_isolated(p, true, hung >= 0 ? 60 : 40, msg[k], tr[k], err[k]);
        if(r[0] == r[1] && r[0] >= 1 && r[0] <= 3)
        {
            const std::string what = r[0] == 1 ? msg[0] : r[0] == 2 ? crash_reason(err[0]) : "does not terminate";
            report(p, what, tr[0], err[0]);
            violations = 1;
            rc = 1;
        }
        else
        {
            fprintf(stderr, "%s: a failing execution did not fail again alone (%d, %d): first: %s\n", prop.c_str(), r[0], r[1], S->failed ? S->fail_msg : hung >= 0 ? "hang" : "crash");
            rc = 2;
        }
    }

    // Evidence.
    uint64_t execs = 0, steps = 0, points = 0, checked = 0, nontriv = 0, maxd = 0;
    for(int i = 0; i < jobs; ++i)
    {
        auto& s = S->slot[i];
        execs += s.execs; steps += s.steps; points += s.points; checked += s.checked; nontriv += s.nontrivial;
        maxd = std::max<uint64_t>(maxd, s.maxdepth);
    }
    const bool exhaustive = !S->timed_out && rc == 0;
    std::string samples;
    int nsamples = 0;
    if(rc == 0)
    {
        // The default execution of a few scenarios, and one with a late alternative, written out.
        for(uint32_t i = 0; i < scenarios.size() && nsamples < 4; i += std::max<uint32_t>(1, static_cast<uint32_t>(scenarios.size() / 4)))
        {
            static Path p;
            p.scenario = i;
            p.len = 0;
            std::string m1, tr, er;
            run_isolated(p, true, 60, m1, tr, er);
            if(tr.size() > 1500) tr = tr.substr(0, 1500) + "...";
            samples += (nsamples ? ", " : "") + json_str("scenario " + scenarios[i].name + " (default choices):\n" + tr);
            ++nsamples;
        }
    }
    if(samples.empty()) samples = json_str("see the replay file");
    std::string per, bounds;
    for(size_t i = 0; i < scenarios.size(); ++i)
    {
        per += (i ? ", " : "") + json_str(scenarios[i].name) + ": " + std::to_string(S->sc_execs[i].load());
        if(!scenarios[i].bounds.empty()) bounds += (bounds.empty() ? "" : ", ") + json_str(scenarios[i].name + ": " + scenarios[i].bounds + (scenarios[i].deviations ? "; at most " + std::to_string(scenarios[i].deviations) + " deviations from the default environment" : ""));
    }
    std::string ass;
    for(size_t i = 0; i < o.assumptions.size(); ++i) ass += (i ? ", " : "") + json_str(o.assumptions[i]);
    const double wall = now_s() - t0;
    const std::string smoke_file = out + "/out/" + prop + "-smoke.txt";
    if(tier == "smoke")
    {
        std::ofstream(smoke_file) << execs << " executions, " << steps << " transitions, " << checked << " comparisons under AddressSanitizer and UndefinedBehaviorSanitizer in " << wall << " s" << (exhaustive ? " (exhaustive)" : "");
        printf("%s sanitized: executions=%llu transitions=%llu %.1f s\n", prop.c_str(), (unsigned long long)execs, (unsigned long long)steps, wall);
        return rc;
    }
    std::string smoke;
    if(!o.smoke.empty()) { std::ifstream f(smoke_file); std::getline(f, smoke); }
    mkdir((out + "/evidence").c_str(), 0755);
    const std::string ef = out + "/evidence/" + prop + ".json";
    {
        std::ofstream e(ef);
        e << "{\n \"property\": " << json_str(prop) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": " << json_str(o.level) << ",\n \"coverage\": {\n"
          << "  \"states\": " << S->states.load() << ",\n  \"transitions\": " << steps
          << ",\n  \"traces_validated_against_impl\": " << execs << ",\n  \"evaluations\": " << checked
          << ",\n  \"distinct_nontrivial\": " << S->obs.load()
          << ",\n  \"choice_points\": " << points << ",\n  \"longest_execution_choices\": " << maxd
          << ",\n  \"rule\": " << json_str(o.rule + " States: distinct fingerprints of the observable history/reference state at choice points; transitions: steps of the real code executed; traces_validated_against_impl: complete executions of the real code, each compared with the reference model; evaluations: comparisons made; distinct_nontrivial: executions with distinct observable behaviour.")
          << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false")
          << ",\n  \"time_capped\": " << (S->timed_out ? "true" : "false")
          << ",\n  \"hash_table_overflows\": " << S->truncated.load()
          << (smoke.empty() ? std::string{} : ",\n  \"sanitized_pass\": " + json_str(smoke))
          << ",\n  \"bounds\": [" << bounds << "],\n  \"executions_per_scenario\": {" << per << "},\n  \"samples\": [" << samples << "]\n },\n"
          << " \"assumptions\": [" << ass << "],\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
    }
    printf("%s %s: executions=%llu states=%llu transitions=%llu comparisons=%llu distinct behaviours=%llu longest=%llu choices%s %.1f s\n",
           prop.c_str(), tier.c_str(), (unsigned long long)execs, (unsigned long long)S->states.load(), (unsigned long long)steps,
           (unsigned long long)checked, (unsigned long long)S->obs.load(), (unsigned long long)maxd, S->timed_out ? " TIME-CAPPED" : exhaustive ? " exhaustive" : "", wall);
    if(getenv("MC_SCENARIOS")) for(size_t i = 0; i < scenarios.size(); ++i) printf("   %-50s %llu\n", scenarios[i].name.c_str(), (unsigned long long)S->sc_execs[i].load());
    return rc;
}

} // namespace mc

// Sanitizer defaults (used when the binary is linked with the sanitizers).
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:handle_abort=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }
