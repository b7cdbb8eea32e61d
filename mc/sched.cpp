#include "sched.hpp"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <cerrno>
#include <link.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace sched
{
namespace
{

constexpr int MaxThreads = 16;        // per execution, over all run() calls
constexpr uint64_t MaxSteps = 60000;  // scheduling points per execution
constexpr size_t StackSize = 512 * 1024;
constexpr int SpinLimit = 400;        // consecutive points of one thread before another one must run

struct VC
{
    uint32_t c[MaxThreads] = {};
    void join(const VC& o) { for(int i = 0; i < MaxThreads; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Access { uint8_t tid, mask; bool write; uint32_t clk; void* pc; };

struct Cell
{
    static constexpr int N = 6;
    Access a[N];
    int n = 0;
};

struct Shadow
{
    // open addressing, generation-stamped so that clearing is O(1)
    struct Slot { uintptr_t key = 0; uint32_t gen = 0; Cell cell; };
    std::vector<Slot> t{1 << 12};
    uint32_t gen = 1;
    size_t used = 0;
    void clear() { ++gen; used = 0; }
    Cell* find(uintptr_t k, bool make)
    {
        if(make && used * 2 > t.size()) grow();
        size_t i = hash(k) & (t.size() - 1);
        while(t[i].gen == gen)
        {
            if(t[i].key == k) return &t[i].cell;
            i = (i + 1) & (t.size() - 1);
        }
        if(!make) return nullptr;
        t[i].key = k;
        t[i].gen = gen;
        t[i].cell.n = 0;
        ++used;
        return &t[i].cell;
    }
    static size_t hash(uintptr_t k) { return (k >> 3) * 0x9e3779b97f4a7c15ULL >> 20; }
    void grow()
    {
        std::vector<Slot> old(t.size() * 2);
        old.swap(t);
        for(auto& s : old)
        {
            if(s.gen != gen) continue;
            size_t i = hash(s.key) & (t.size() - 1);
            while(t[i].gen == gen) i = (i + 1) & (t.size() - 1);
            t[i] = s;
        }
    }
};

struct Mutex
{
    int owner = -1;
    int depth = 0;
    int readers = 0;
    VC vc, rvc;
};

struct Cond { VC vc; std::vector<int> waiters; };

enum class St { New, Ready, Blocked, Done };

// What a thread of execution owns apart from its memory. All threads of an execution live in one system thread (handing
// over is then a hundred times cheaper), each with its own stack, thread-local variables and exception state.
struct Fiber
{
    void* sp = nullptr;
    char* stack = nullptr;
    int internal = 0, err = 0;
    uintptr_t eh[2] = {0, 0};
    std::vector<char> tls;
};

struct Thread
{
    Fiber fiber;
    St st = St::New;
    VC vc;
    std::function<void()> fn;
    std::function<bool()> enabled; // when Blocked
    int ignore = 0;
    bool fresh = false; // at a point, and no synchronisation since
    int gid = 0;        // identity in the clocks
    uintptr_t role_stack = 0; // in a role: the stack below this is its own, used by one role after the other
};

struct World
{
    mc::Ctx* ctx = nullptr;
    std::vector<std::unique_ptr<Thread>> th; // this run's threads
    int base = 0;                            // global index of th[0]
    int cur = -1;
    Fiber main_fiber;
    VC main_vc;
    Shadow shadow;
    std::unordered_map<const void*, Mutex> mutexes;
    std::unordered_map<const void*, Cond> conds;
    std::unordered_map<const void*, VC> syncs;
    std::unordered_map<const void*, int> onces;
    uint64_t steps = 0, ticks = 0, switches = 0, accesses = 0;
    int streak = 0;
    std::string failure;
    bool failed = false;
    bool rmw_points = true;
    bool delays = false;
    std::vector<VC> roles;                   // identities lent to threads, allocated from the top
};

World* W = nullptr;
Thread* me = nullptr;
int my_index = -1; // in W->th
int internal = 0;  // inside this runtime

struct In { In() { ++internal; } ~In() { --internal; } };

// The program's thread-local variables.
char* tls_at = nullptr;
size_t tls_size = 0;
std::vector<char> tls_init;
void find_tls()
{
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
        for(int k = 0; k < i->dlpi_phnum; ++k)
        {
            const auto& h = i->dlpi_phdr[k];
            if(h.p_type != PT_TLS || !i->dlpi_tls_data) continue;
            tls_at = static_cast<char*>(i->dlpi_tls_data);
            tls_size = h.p_memsz;
            tls_init.assign(tls_size, 0);
            memcpy(tls_init.data(), reinterpret_cast<const void*>(i->dlpi_addr + h.p_vaddr), h.p_filesz);
        }
        return 1; // the program itself comes first
    }, nullptr);
}
extern "C" uintptr_t* __cxa_get_globals();

extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

void switch_to(Fiber& from, Fiber& to, Thread* next, int index)
{
    from.internal = internal;
    from.err = errno;
    uintptr_t* g = __cxa_get_globals();
    memcpy(from.eh, g, sizeof from.eh);
    if(tls_size) { from.tls.resize(tls_size); memcpy(from.tls.data(), tls_at, tls_size); memcpy(tls_at, to.tls.data(), tls_size); }
    memcpy(g, to.eh, sizeof to.eh);
    errno = to.err;
    internal = to.internal;
    me = next;
    my_index = index;
    mc_switch(&from.sp, to.sp);
}
void to_main() { switch_to(me->fiber, W->main_fiber, nullptr, -1); }

std::vector<char*> stacks;
void fiber_entry();
void prepare(Fiber& f)
{
    if(stacks.empty())
    {
        char* m = static_cast<char*>(mmap(nullptr, StackSize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if(m == MAP_FAILED) { perror("mmap"); abort(); }
        mprotect(m, 4096, PROT_NONE);
        stacks.push_back(m + 4096);
    }
    f.stack = stacks.back();
    stacks.pop_back();
    uintptr_t* top = reinterpret_cast<uintptr_t*>(f.stack + StackSize - 64); // 16-aligned
    uintptr_t* sp = top - 9;                                                   // 8 modulo 16 on entry
    memset(sp, 0, 9 * sizeof *sp);
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    memcpy(sp, &mx, 4);
    memcpy(reinterpret_cast<char*>(sp) + 4, &cw, 2);
    sp[7] = reinterpret_cast<uintptr_t>(&fiber_entry);
    f.sp = sp;
    f.internal = 1;
    f.tls = tls_init;
}

// Ends the execution from inside a managed thread: control goes back to run() for good.
[[noreturn]] void abandon(const std::string& why)
{
    W->failed = true;
    W->failure = why;
    to_main();
    abort();
}

bool can_run(const Thread& t) { return t.st == St::Ready || (t.st == St::Blocked && t.enabled()); }

// Chooses who runs next and hands over. `forced` marks points where the current thread cannot or should not continue.
void reschedule(bool must_leave)
{
    In in;
    if(++W->steps > MaxSteps) abandon("livelock: no end after " + std::to_string(MaxSteps) + " scheduling points");
    int opts[MaxThreads], n = 0;
    const int cur = W->cur;
    Thread& c = *W->th[static_cast<size_t>(cur)];
    const bool cur_ok = can_run(c);
    const bool prefer = cur_ok && !must_leave;
    if(prefer) opts[n++] = cur;
    // the others, starting after the current one
    for(size_t k = 1; k <= W->th.size(); ++k)
    {
        const int i = static_cast<int>((static_cast<size_t>(cur) + k) % W->th.size());
        if(i == cur) continue;
        if(can_run(*W->th[static_cast<size_t>(i)])) opts[n++] = i;
    }
    if(n == 0 && cur_ok) opts[n++] = cur;
    if(n == 0)
    {
        bool all_done = true;
        for(auto& t : W->th) if(t->st != St::Done) all_done = false;
        if(!all_done) abandon("deadlock: no thread can go on");
        to_main();
        return;
    }
    int pick = 0;
    if(n > 1)
    {
        if(prefer && W->streak > SpinLimit) pick = 1;
        else
        {
            try { pick = prefer || W->delays ? W->ctx->deviate(n, "preemption") : W->ctx->choose(n, "thread"); }
            catch(const mc::Failure& f) { abandon(f.what); }
            catch(...) { abandon("replay diverged in the scheduler"); }
        }
    }
    const int next = opts[pick];
    if(next == cur) { ++W->streak; c.st = St::Ready; c.enabled = nullptr; return; }
    W->streak = 0;
    ++W->switches;
    Thread& t = *W->th[static_cast<size_t>(next)];
    t.st = St::Ready;
    t.enabled = nullptr;
    W->cur = next;
    switch_to(c.fiber, t.fiber, &t, next);
}

bool active() { return me && !internal && !me->ignore; }
bool hooked() { return me && !internal; } // synchronisation is simulated even where accesses are ignored

// Two points with no synchronisation between them are one.
void sync_point()
{
    if(!active()) return;
    if(me->fresh) { me->fresh = false; return; }
    reschedule(false);
}

void block(std::function<bool()> enabled)
{
    In in;
    me->fresh = false;
    me->st = St::Blocked;
    me->enabled = std::move(enabled);
    if(me->enabled()) { me->st = St::Ready; me->enabled = nullptr; return; }
    reschedule(true);
    me->st = St::Ready;
}

void tick_clock() { ++me->vc.c[me->gid]; }

std::string where(void* pc)
{
    Dl_info i{};
    char b[64];
    if(dladdr(pc, &i) && i.dli_fbase) { snprintf(b, sizeof b, "+0x%zx", static_cast<size_t>(static_cast<char*>(pc) - static_cast<char*>(i.dli_fbase))); return b; }
    snprintf(b, sizeof b, "%p", pc);
    return b;
}

void access_cell(uintptr_t key, uint8_t mask, bool write, void* pc)
{
    Cell* c = W->shadow.find(key, true);
    const int g = me->gid;
    const uint32_t clk = me->vc.c[g];
    int keep = 0;
    for(int i = 0; i < c->n; ++i)
    {
        const Access a = c->a[i];
        if(a.mask & mask)
        {
            if(a.tid != g && (a.write || write) && a.clk > me->vc.c[a.tid])
            {
                char b[256];
                snprintf(b, sizeof b, "data race: %s by thread %d at %s and %s by thread %d at %s, unordered", write ? "write" : "read", g, where(pc).c_str(), a.write ? "write" : "read", a.tid, where(a.pc).c_str());
                abandon(b);
            }
            // superseded: same bytes, and ordered before this access
            if((a.mask & ~mask) == 0 && a.clk <= (a.tid == g ? clk : me->vc.c[a.tid]) && (write || !a.write)) continue;
        }
        c->a[keep++] = a;
    }
    c->n = keep;
    if(c->n == Cell::N)
    {
        // full: forget an entry that every live thread has ordered before it, else the oldest (loses precision only)
        for(int i = 1; i < Cell::N; ++i) c->a[i - 1] = c->a[i];
        --c->n;
    }
    c->a[c->n++] = Access{static_cast<uint8_t>(g), mask, write, clk, pc};
}

void access(const void* p, size_t n, bool write, void* pc)
{
    if(!active() || n == 0) return;
    In in;
    ++W->accesses;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if(a - reinterpret_cast<uintptr_t>(tls_at) < tls_size) return; // the thread's own
    if(a < me->role_stack && a >= me->role_stack - StackSize) return;
    while(n)
    {
        const uintptr_t key = a & ~uintptr_t{7};
        const size_t off = a - key, m = std::min<size_t>(8 - off, n);
        access_cell(key, static_cast<uint8_t>(((1u << m) - 1) << off), write, pc);
        a += m;
        n -= m;
    }
}

void forget(const void* p, size_t n)
{
    In in;
    for(uintptr_t k = reinterpret_cast<uintptr_t>(p) & ~uintptr_t{7}; k < reinterpret_cast<uintptr_t>(p) + n; k += 8)
        if(Cell* c = W->shadow.find(k, false)) c->n = 0;
}

void do_acquire(const void* s) { In in; auto it = W->syncs.find(s); if(it != W->syncs.end()) me->vc.join(it->second); }
void do_release(const void* s) { In in; W->syncs[s].join(me->vc); tick_clock(); }

void fiber_entry()
{
    Thread* t = me;
    internal = 0;
    try { t->fn(); }
    catch(const mc::Failure& f) { abandon(f.what); }
    catch(const std::exception& e) { abandon(std::string{"exception left a thread: "} + e.what()); }
    catch(...) { abandon("an exception left a thread"); }
    internal = 1;
    t->st = St::Done;
    W->main_vc.join(t->vc);
    reschedule(true);
    abort(); // a finished thread is not resumed
}

} // namespace

void begin(mc::Ctx& c)
{
    if(!W)
    {
        W = new World;
        find_tls();
        __libc_single_threaded = 0; // the library's shortcuts for programs without threads are not ours
    }
    W->ctx = &c;
    W->th.clear();
    W->base = 0;
    W->main_vc = VC{};
    W->shadow.clear();
    W->mutexes.clear();
    W->conds.clear();
    W->syncs.clear();
    W->onces.clear();
    W->steps = W->ticks = W->switches = W->accesses = 0;
    W->failed = false;
    W->failure.clear();
    W->rmw_points = true;
    W->delays = false;
    W->roles.clear();
}
void rmw_points(bool on) { W->rmw_points = on; }
void delay_bounded(bool on) { W->delays = on; }

void run(mc::Ctx& c, std::vector<std::function<void()>> threads, int starters)
{
    World& w = *W;
    w.base += static_cast<int>(w.th.size());
    w.th.clear();
    if(w.base + static_cast<int>(threads.size() + w.roles.size()) > MaxThreads) { fprintf(stderr, "too many threads\n"); abort(); }
    for(size_t i = 0; i < threads.size(); ++i)
    {
        auto t = std::make_unique<Thread>();
        t->fn = std::move(threads[i]);
        t->st = St::Ready;
        t->vc = w.main_vc;
        t->gid = w.base + static_cast<int>(i);
        t->vc.c[t->gid] = 1;
        w.th.push_back(std::move(t));
    }
    for(auto& t : w.th) prepare(t->fiber);
    w.streak = 0;
    if(starters <= 0) starters = static_cast<int>(w.th.size());
    const int first = starters > 1 ? c.choose(starters, "first thread") : 0;
    w.cur = first;
    switch_to(w.main_fiber, w.th[static_cast<size_t>(first)]->fiber, w.th[static_cast<size_t>(first)].get(), first);
    if(w.failed)
    {
        const std::string f = w.failure;
        c.fail("%s", f.c_str()); // the threads stay where they are; a failed execution ends the exploration
    }
    for(auto& t : w.th) stacks.push_back(t->fiber.stack);
}

int self() { return me ? my_index : -1; }
bool managed() { return me != nullptr; }
void point() { if(active() && !me->fresh) { reschedule(false); me->fresh = true; } }
uint64_t tick() { return ++W->ticks; }
void fail(const char* fmt, ...)
{
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(!me) throw mc::Failure{b};
    In in;
    abandon(b);
}
bool wait_until(const std::function<bool()>& enabled)
{
    if(!me) return true;
    block(enabled);
    return true;
}
void join_others()
{
    if(!me) return;
    const int mine = my_index;
    block([mine] { for(size_t i = 0; i < W->th.size(); ++i) if(static_cast<int>(i) != mine && W->th[i]->st != St::Done) return false; return true; });
    In in;
    me->vc.join(W->main_vc);
}
void acquire(const void* s) { if(me) do_acquire(s); }
void release(const void* s) { if(me) do_release(s); }
void acquire_release(const void* s) { if(me) { do_acquire(s); do_release(s); } }
void ignore_begin() { if(me) ++me->ignore; }
void ignore_end() { if(me) --me->ignore; }
int make_role()
{
    In in;
    if(W->base + static_cast<int>(W->th.size() + W->roles.size()) >= MaxThreads) abandon("the harness uses too many roles");
    W->roles.emplace_back();
    const int g = MaxThreads - static_cast<int>(W->roles.size());
    W->roles.back().c[g] = 1;
    return g;
}
Role::Role(int g) : m_gid(g)
{
    if(!me) return;
    In in;
    std::swap(me->vc, W->roles[static_cast<size_t>(MaxThreads - 1 - g)]);
    std::swap(me->gid, m_gid);
    me->role_stack = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
}
Role::~Role()
{
    if(!me) return;
    In in;
    const int g = me->gid;
    tick_clock();
    std::swap(me->vc, W->roles[static_cast<size_t>(MaxThreads - 1 - g)]);
    me->gid = m_gid;
    me->role_stack = 0;
    W->main_vc.join(W->roles[static_cast<size_t>(MaxThreads - 1 - g)]);
}
Ignore::Ignore() { if(me) ++me->ignore; }
Ignore::~Ignore() { if(me) --me->ignore; }
uint64_t switches() { return W->switches; }
uint64_t accesses() { return W->accesses; }

// ---- locks ----
namespace
{

int lock_write(const void* m, bool try_only, bool recursive)
{
    sync_point();
    In in;
    {
        Mutex& x = W->mutexes[m];
        if(x.owner == my_index + 1000 * (W->base + 1))
        {
            if(recursive) { ++x.depth; return 0; }
            if(try_only) return EBUSY;
            abandon("deadlock: a thread locks a mutex it already holds");
        }
        if(x.owner != -1 || x.readers)
        {
            if(try_only) return EBUSY;
            block([m] { Mutex& y = W->mutexes[m]; return y.owner == -1 && y.readers == 0; });
        }
    }
    Mutex& x = W->mutexes[m];
    x.owner = my_index + 1000 * (W->base + 1);
    x.depth = 1;
    me->vc.join(x.vc);
    me->vc.join(x.rvc);
    return 0;
}

int lock_read(const void* m, bool try_only)
{
    sync_point();
    In in;
    if(W->mutexes[m].owner != -1)
    {
        if(try_only) return EBUSY;
        block([m] { return W->mutexes[m].owner == -1; });
    }
    Mutex& x = W->mutexes[m];
    ++x.readers;
    me->vc.join(x.vc);
    return 0;
}

int unlock_any(const void* m)
{
    sync_point(); // others may find it taken
    {
        In in;
        Mutex& x = W->mutexes[m];
        if(x.owner == my_index + 1000 * (W->base + 1))
        {
            if(--x.depth == 0) { x.owner = -1; x.vc = me->vc; x.rvc = VC{}; }
            tick_clock();
        }
        else if(x.readers) { --x.readers; x.rvc.join(me->vc); tick_clock(); }
        else abandon("a mutex is unlocked by a thread that does not hold it");
    }
    return 0;
}

bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

} // namespace
} // namespace sched

using namespace sched;

#define PC __builtin_return_address(0)
template<typename T> using REALTYPE = T;
// one pointer per use
#define REAL(T, name) ([] { static T f = nullptr; if(!f) f = reinterpret_cast<T>(dlsym(RTLD_NEXT, name)); return f; }())

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_mutex_t*)>, "pthread_mutex_lock")(m);
    return lock_write(m, false, is_recursive(m));
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_mutex_t*)>, "pthread_mutex_trylock")(m);
    return lock_write(m, true, is_recursive(m));
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_mutex_t*, const timespec*)>, "pthread_mutex_timedlock")(m, t);
    return lock_write(m, true, is_recursive(m)) ? ETIMEDOUT : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const timespec* t)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_mutex_t*, clockid_t, const timespec*)>, "pthread_mutex_clocklock")(m, k, t);
    return lock_write(m, true, is_recursive(m)) ? ETIMEDOUT : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_mutex_t*)>, "pthread_mutex_unlock")(m);
    return unlock_any(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_rwlock_t*)>, "pthread_rwlock_wrlock")(m);
    return lock_write(m, false, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_rwlock_t*)>, "pthread_rwlock_trywrlock")(m);
    return lock_write(m, true, false);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_rwlock_t*)>, "pthread_rwlock_rdlock")(m);
    return lock_read(m, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_rwlock_t*)>, "pthread_rwlock_tryrdlock")(m);
    return lock_read(m, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_rwlock_t*)>, "pthread_rwlock_unlock")(m);
    return unlock_any(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) { if(!hooked()) return REAL(REALTYPE<int (*)(pthread_spinlock_t*)>, "pthread_spin_lock")(m); return lock_write(const_cast<const int*>(m), false, false); }
int pthread_spin_unlock(pthread_spinlock_t* m) { if(!hooked()) return REAL(REALTYPE<int (*)(pthread_spinlock_t*)>, "pthread_spin_unlock")(m); return unlock_any(const_cast<const int*>(m)); }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    const int who = W->base + my_index;
    {
        In in;
        W->conds[c].waiters.push_back(who);
    }
    ++internal;
    Mutex& x = W->mutexes[m];
    x.owner = -1; x.depth = 0; x.vc = me->vc; x.rvc = VC{};
    tick_clock();
    --internal;
    auto waiting = [c, who] { for(int w : W->conds[c].waiters) if(w == who) return true; return false; };
    int rc = 0;
    if(timed)
    {
        // a timed wait may time out whenever it is scheduled: the explorer runs it at any later point
        sync_point();
        In in;
        if(waiting())
        {
            auto& v = W->conds[c].waiters;
            for(size_t i = 0; i < v.size(); ++i) if(v[i] == who) { v.erase(v.begin() + static_cast<long>(i)); break; }
            rc = ETIMEDOUT;
        }
    }
    else block([waiting] { return !waiting(); });
    { In in; me->vc.join(W->conds[c].vc); }
    lock_write(m, false, false);
    return rc;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_cond_t*, pthread_mutex_t*)>, "pthread_cond_wait")(c, m);
    return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>, "pthread_cond_timedwait")(c, m, t);
    return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>, "pthread_cond_clockwait")(c, m, k, t);
    return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_cond_t*)>, "pthread_cond_signal")(c);
    {
        In in;
        Cond& x = W->conds[c];
        x.vc.join(me->vc);
        tick_clock();
        if(!x.waiters.empty())
        {
            int k = 0;
            if(x.waiters.size() > 1)
            {
                try { k = W->ctx->choose(static_cast<int>(x.waiters.size()), "who is woken"); }
                catch(...) { abandon("replay diverged in the scheduler"); }
            }
            x.waiters.erase(x.waiters.begin() + k);
        }
    }
    sync_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_cond_t*)>, "pthread_cond_broadcast")(c);
    {
        In in;
        Cond& x = W->conds[c];
        x.vc.join(me->vc);
        tick_clock();
        x.waiters.clear();
    }
    sync_point();
    return 0;
}

pthread_t pthread_self() noexcept
{
    if(!me) return REAL(REALTYPE<pthread_t (*)()>, "pthread_self")();
    return reinterpret_cast<pthread_t>(me);
}

int pthread_once(pthread_once_t* o, void (*f)())
{
    if(!hooked()) return REAL(REALTYPE<int (*)(pthread_once_t*, void (*)())>, "pthread_once")(o, f);
    sync_point();
    if(*o == 2) { do_acquire(o); return 0; } // done, maybe before this execution
    { In in; if(W->onces[o] == 1) block([o] { return W->onces[o] != 1; }); }
    if(*o == 2) { do_acquire(o); return 0; }
    { In in; W->onces[o] = 1; }
    try { f(); } catch(...) { { In in; W->onces[o] = 0; } throw; }
    *o = 2;
    { In in; W->onces[o] = 2; }
    do_release(o);
    return 0;
}

// Function-local statics. The guard's first byte says "done".
int __cxa_guard_acquire(int64_t* g)
{
    char* done = reinterpret_cast<char*>(g);
    if(!hooked())
    {
        if(*done) return 0;
        return 1; // only the controlling thread initialises outside managed threads
    }
    sync_point();
    { In in; if(W->onces[g] == 1) block([g] { return W->onces[g] != 1; }); }
    if(*done) { do_acquire(g); return 0; }
    In in;
    W->onces[g] = 1;
    return 1;
}
void __cxa_guard_release(int64_t* g)
{
    *reinterpret_cast<char*>(g) = 1;
    if(!hooked()) return;
    { In in; W->onces[g] = 2; }
    do_release(g);
}
void __cxa_guard_abort(int64_t* g)
{
    if(!hooked()) return;
    In in;
    W->onces[g] = 0;
}

// Exceptions are allocated by the C++ library with malloc.
void* __cxa_allocate_exception(size_t n) noexcept
{
    void* p = REAL(REALTYPE<void* (*)(size_t)>, "__cxa_allocate_exception")(n);
    if(me && !internal) forget(p, n);
    return p;
}

static void yielding() { if(active()) reschedule(true); }
int sched_yield() { if(!hooked()) return static_cast<int>(syscall(SYS_sched_yield)); yielding(); return 0; }
int nanosleep(const timespec* a, timespec* b) { if(!hooked()) return static_cast<int>(syscall(SYS_nanosleep, a, b)); yielding(); return 0; }
int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b) { if(!hooked()) return static_cast<int>(-syscall(SYS_clock_nanosleep, k, fl, a, b)); yielding(); return 0; }
int usleep(useconds_t u) { if(!hooked()) { timespec t{static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000}; return static_cast<int>(syscall(SYS_nanosleep, &t, nullptr)); } yielding(); return 0; }

// ---- what the compiler's instrumentation calls ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access(p, sizeof *p, true, PC); }
void __tsan_vptr_read(void** p) { access(p, sizeof *p, false, PC); }

static void before_atomic() { sync_point(); }
static void before_rmw() { if(W && W->rmw_points) sync_point(); }
static void hb(const volatile void* p, int order, bool reads, bool writes)
{
    if(!hooked()) return;
    const void* s = const_cast<const void*>(p);
    // relaxed operations neither publish nor observe
    if(reads && order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE) do_acquire(s);
    if(writes && (order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST)) do_release(s);
}

#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int o) { if(o == __ATOMIC_RELAXED) before_rmw(); else before_atomic(); T v = *p; hb(p, o, true, false); return v; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { before_atomic(); hb(p, o, false, true); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { before_atomic(); hb(p, o, true, true); T r = *p; *p = v; return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { before_rmw(); hb(p, o, true, true); T r = *p; *p = static_cast<T>(r + v); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { before_rmw(); hb(p, o, true, true); T r = *p; *p = static_cast<T>(r - v); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { before_atomic(); hb(p, o, true, true); T r = *p; *p = static_cast<T>(r & v); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { before_atomic(); hb(p, o, true, true); T r = *p; *p = static_cast<T>(r | v); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { before_atomic(); hb(p, o, true, true); T r = *p; *p = static_cast<T>(r ^ v); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { before_atomic(); hb(p, o, true, true); T r = *p; *p = static_cast<T>(~(r & v)); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int fo) \
    { \
        before_rmw(); \
        if(*p == *e) { hb(p, o, true, true); *p = v; return 1; } \
        hb(p, fo, true, false); *e = *p; return 0; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int fo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, fo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int o, int fo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, fo); return e; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
static char fence_sync;
void __tsan_atomic_thread_fence(int o) { before_atomic(); hb(&fence_sync, o, true, true); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

// ---- allocation: reused memory has no history; freeing is a write ----
static void* allocate(size_t n)
{
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc{};
    if(me && !internal) forget(p, malloc_usable_size(p));
    return p;
}
static void deallocate(void* p, void* pc)
{
    if(!p) return;
    if(active()) { const size_t n = malloc_usable_size(p); access(p, n > 256 ? 256 : n, true, pc); }
    free(p);
}
void* operator new(size_t n) { return allocate(n); }
void* operator new[](size_t n) { return allocate(n); }
void operator delete(void* p) noexcept { deallocate(p, PC); }
void operator delete[](void* p) noexcept { deallocate(p, PC); }
void operator delete(void* p, size_t) noexcept { deallocate(p, PC); }
void operator delete[](void* p, size_t) noexcept { deallocate(p, PC); }

// ---- the parts of the standard containers that live in the (uninstrumented) C++ library ----
namespace std
{
struct _Rb_tree_node_base;
}
namespace
{
struct RbNode { int color; RbNode *parent, *left, *right; };
void rb_touch(RbNode* from, RbNode* header, void* pc)
{
    access(header, sizeof(RbNode), true, pc);
    for(RbNode* n = from; n && n != header; n = n->parent) access(n, sizeof(RbNode), true, pc);
}
}
namespace std
{
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
    if(active()) { rb_touch(reinterpret_cast<RbNode*>(p), reinterpret_cast<RbNode*>(&header), PC); access(x, sizeof(RbNode), true, PC); }
    using F = void (*)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
    REAL(REALTYPE<F>, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")(left, x, p, header);
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
{
    if(active()) rb_touch(reinterpret_cast<RbNode*>(z), reinterpret_cast<RbNode*>(&header), PC);
    using F = _Rb_tree_node_base* (*)(_Rb_tree_node_base*, _Rb_tree_node_base&);
    return REAL(REALTYPE<F>, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")(z, header);
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
    if(active()) access(x, sizeof(RbNode), false, PC);
    return REAL(REALTYPE<_Rb_tree_node_base* (*)(_Rb_tree_node_base*)>, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base")(x);
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept
{
    if(active()) access(x, sizeof(RbNode), false, PC);
    return REAL(REALTYPE<const _Rb_tree_node_base* (*)(const _Rb_tree_node_base*)>, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")(x);
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
    if(active()) access(x, sizeof(RbNode), false, PC);
    return REAL(REALTYPE<_Rb_tree_node_base* (*)(_Rb_tree_node_base*)>, "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base")(x);
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept
{
    if(active()) access(x, sizeof(RbNode), false, PC);
    return REAL(REALTYPE<const _Rb_tree_node_base* (*)(const _Rb_tree_node_base*)>, "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")(x);
}
}
