// C07: InMemoryDatabase under every thread interleaving within bounds: linearizable, race free, deadlock free.
#include <array>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "mc.hpp"
#include "sched.hpp"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/server/db/InMemoryDatabase.h"

using namespace modbus;
using mc::Ctx;

namespace
{

enum Kind { Coil, Discrete, Holding, Input };
using Result = std::vector<uint32_t>;
constexpr uint32_t Bad = 0xBAD00000;   // plus the exception code
constexpr uint32_t Good = 0x600D0000;

struct Model { std::map<uint32_t, uint16_t> m[4]; };

// What an operation does to a database, written once against an interface that both the real database and the
// model implement: the same program text gives the expected and the actual answer.
struct RealTx
{
    IDatabase& d;
    bool get(int k, uint32_t a, uint16_t& v)
    {
        bool b = false; uint16_t w = 0;
        const auto ad = static_cast<Address>(a);
        const bool ok = k == Coil ? d.get_coil(ad, b) : k == Discrete ? d.get_discrete_input(ad, b) : k == Holding ? d.get_holding_register(ad, w) : d.get_input_register(ad, w);
        v = k < 2 ? b : w;
        return ok;
    }
    bool set(int k, uint32_t a, uint16_t v)
    {
        const auto ad = static_cast<Address>(a);
        return k == Coil ? d.set_coil(ad, v & 1) : k == Discrete ? d.set_discrete_input(ad, v & 1) : k == Holding ? d.set_holding_register(ad, v) : d.set_input_register(ad, v);
    }
};
struct ModelTx
{
    Model& d;
    bool get(int k, uint32_t a, uint16_t& v) { auto i = d.m[k].find(a); if(i == d.m[k].end()) return false; v = i->second; return true; }
    bool set(int k, uint32_t a, uint16_t v) { auto i = d.m[k].find(a); if(i == d.m[k].end()) return false; i->second = k < 2 ? v & 1 : v; return true; }
};

template<typename R> void fields(Result& out, const R& r) { for(const auto& v : r.values) { out.push_back(v.address); out.push_back(v.value); } }
inline void fields(Result& out, const WriteSingleCoilResponse& r) { out.push_back(r.value.address); out.push_back(r.value.value); }
inline void fields(Result& out, const WriteSingleRegisterResponse& r) { out.push_back(r.value.address); out.push_back(r.value.value); }
inline void fields(Result& out, const WriteMultipleCoilsResponse& r) { out.push_back(r.starting_address); out.push_back(r.qty_of_coils); }
inline void fields(Result& out, const WriteMultipleRegistersResponse& r) { out.push_back(r.starting_address); out.push_back(r.qty_of_registers); }
template<typename E> Result answer(const E& e)
{
    Result out;
    if(e.is_valid()) { out.push_back(Good); fields(out, e.get()); }
    else if(e.template has_exception<ModbusException>()) out.push_back(Bad + static_cast<uint32_t>(e.template get_exception<ModbusException>().get_exception_type()));
    else out.push_back(Bad + 0xFFFF);
    return out;
}

struct RealDb
{
    InMemoryDatabase& db;
    IServerSession& s;
    explicit RealDb(InMemoryDatabase& d) : db(d), s(d) {}
    Result read(int k, uint32_t a, unsigned n)
    {
        const auto ad = static_cast<Address>(a); const auto q = static_cast<uint16_t>(n);
        switch(k)
        {
        case Coil: { ReadCoilsRequest r{}; r.starting_address = ad; r.qty_of_bits = q; return answer(s.on_request(r)); }
        case Discrete: { ReadDiscreteInputsRequest r{}; r.starting_address = ad; r.qty_of_bits = q; return answer(s.on_request(r)); }
        case Holding: { ReadHoldingRegistersRequest r{}; r.starting_address = ad; r.qty_of_registers = q; return answer(s.on_request(r)); }
        default: { ReadInputRegistersRequest r{}; r.starting_address = ad; r.qty_of_registers = q; return answer(s.on_request(r)); }
        }
    }
    Result write1(int k, uint32_t a, uint16_t v)
    {
        const auto ad = static_cast<Address>(a);
        if(k == Coil) { WriteSingleCoilRequest r{}; r.value.address = ad; r.value.value = v & 1; return answer(s.on_request(r)); }
        WriteSingleRegisterRequest r{}; r.value.address = ad; r.value.value = v; return answer(s.on_request(r));
    }
    Result writen(int k, uint32_t a, const std::vector<uint16_t>& v)
    {
        const auto ad = static_cast<Address>(a);
        if(k == Coil) { WriteMultipleCoilsRequest r{}; r.starting_address = ad; for(auto x : v) r.values.push_back(x & 1); return answer(s.on_request(r)); }
        WriteMultipleRegistersRequest r{}; r.starting_address = ad; r.values = v; return answer(s.on_request(r));
    }
    Result add(int k, uint32_t a, uint16_t v)
    {
        const auto ad = static_cast<Address>(a);
        return {k == Coil ? db.add_coil(ad, v & 1) : k == Discrete ? db.add_discrete_input(ad, v & 1) : k == Holding ? db.add_holding_register(ad, v) : db.add_input_register(ad, v)};
    }
    template<typename F> Result tx(F f)
    {
        Result out;
        try { db.execute_transaction([&](IDatabase& d) { RealTx t{d}; f(t, out); }); }
        catch(const std::runtime_error&) { out.push_back(0x7777); }
        return out;
    }
};

struct ModelDb
{
    Model& m;
    bool range(int k, uint32_t a, size_t n) { for(size_t i = 0; i < n; ++i) if(!m.m[k].count(a + static_cast<uint32_t>(i))) return false; return true; }
    static Result bad() { return {Bad + static_cast<uint32_t>(ExceptionType::IllegalDataAddress)}; }
    Result read(int k, uint32_t a, unsigned n)
    {
        if(!range(k, a, n)) return bad();
        Result r{Good};
        for(unsigned i = 0; i < n; ++i) { r.push_back(a + i); r.push_back(m.m[k][a + i]); }
        return r;
    }
    Result write1(int k, uint32_t a, uint16_t v)
    {
        if(!range(k, a, 1)) return bad();
        if(k < 2) v &= 1;
        m.m[k][a] = v;
        return {Good, a, v};
    }
    Result writen(int k, uint32_t a, const std::vector<uint16_t>& v)
    {
        if(!range(k, a, v.size())) return bad();
        for(size_t i = 0; i < v.size(); ++i) m.m[k][a + static_cast<uint32_t>(i)] = k < 2 ? v[i] & 1 : v[i];
        return {Good, a, static_cast<uint32_t>(v.size())};
    }
    Result add(int k, uint32_t a, uint16_t v) { return {m.m[k].emplace(a, k < 2 ? v & 1 : v).second}; }
    template<typename F> Result tx(F f)
    {
        Result out;
        ModelTx t{m};
        try { f(t, out); }
        catch(const std::runtime_error&) { out.push_back(0x7777); }
        return out;
    }
};

// Initially: coils 1 2, discrete input 1, holding registers 1 2, input register 1; the neighbours are absent.
template<typename D> void fill(D& d)
{
    d.add(Coil, 1, 0); d.add(Coil, 2, 0); d.add(Discrete, 1, 0); d.add(Holding, 1, 5); d.add(Holding, 2, 5); d.add(Input, 1, 6);
}

constexpr int Ops = 24, LongOps = 10;
constexpr uint32_t Far = 1000;   // the long ranges (added in the scenarios that use them): 123 registers and 1968 coils from here
constexpr unsigned Regs = 123, Coils = 1968;
const char* op_name(int o)
{
    static const char* n[Ops + LongOps] = {
        "read registers 1-2", "write registers 1-2", "write register 1", "transaction: increment both registers", "transaction: read registers and coil",
        "add register 3", "write registers 1-3", "read registers 2-3", "write coils 1-2", "read coils 1-2",
        "transaction: set all four kinds", "transaction: read all four kinds", "transaction that throws", "write coil 2", "add coil 3",
        "add input register 2", "add discrete input 2", "read coils 2-3", "read input registers 1-2", "read discrete inputs 1-2", "write coils 1-3",
        "read input register 1", "read discrete input 1", "transaction: copy register 1 to input register 1",
        "write 123 registers", "read 123 registers", "write 1968 coils", "read 1968 coils", "transaction: increment 123 registers", "transaction: read 123 registers and 100 coils",
        "write 123 registers, the last absent", "write a register in the middle", "write a coil in the middle", "read 60 registers from the middle"};
    return n[o];
}
template<typename D> Result perform(D& d, int o, uint16_t tag)
{
    switch(o)
    {
    case 0: return d.read(Holding, 1, 2);
    case 1: return d.writen(Holding, 1, {tag, tag});
    case 2: return d.write1(Holding, 1, tag);
    case 3: return d.tx([](auto& t, Result& r) { uint16_t a = 0, b = 0; r.push_back(t.get(Holding, 1, a)); r.push_back(t.get(Holding, 2, b)); r.push_back(a); r.push_back(b); r.push_back(t.set(Holding, 1, static_cast<uint16_t>(a + 1))); r.push_back(t.set(Holding, 2, static_cast<uint16_t>(b + 1))); });
    case 4: return d.tx([](auto& t, Result& r) { for(uint32_t a = 1; a <= 3; ++a) { uint16_t v = 0; r.push_back(t.get(Holding, a, v)); r.push_back(v); } uint16_t v = 0; r.push_back(t.get(Coil, 2, v)); r.push_back(v); });
    case 5: return d.add(Holding, 3, tag);
    case 6: return d.writen(Holding, 1, {tag, tag, tag});
    case 7: return d.read(Holding, 2, 2);
    case 8: return d.writen(Coil, 1, {1, 1});
    case 9: return d.read(Coil, 1, 2);
    case 10: return d.tx([tag](auto& t, Result& r) { r.push_back(t.set(Coil, 1, 1)); r.push_back(t.set(Discrete, 1, 1)); r.push_back(t.set(Holding, 1, tag)); r.push_back(t.set(Input, 1, tag)); });
    case 11: return d.tx([](auto& t, Result& r) { for(int k = 3; k >= 0; --k) for(uint32_t a = 1; a <= 2; ++a) { uint16_t v = 0; r.push_back(t.get(k, a, v)); r.push_back(v); } });
    case 12: return d.tx([](auto& t, Result& r) { uint16_t v = 0; r.push_back(t.get(Holding, 1, v)); r.push_back(v); throw std::runtime_error("user"); });
    case 13: return d.write1(Coil, 2, 1);
    case 14: return d.add(Coil, 3, 0);
    case 15: return d.add(Input, 2, tag);
    case 16: return d.add(Discrete, 2, 1);
    case 17: return d.read(Coil, 2, 2);
    case 18: return d.read(Input, 1, 2);
    case 19: return d.read(Discrete, 1, 2);
    case 20: return d.writen(Coil, 1, {1, 0, 1});
    case 21: return d.read(Input, 1, 1);
    case 22: return d.read(Discrete, 1, 1);
    case 24: return d.writen(Holding, Far, std::vector<uint16_t>(Regs, tag));
    case 25: return d.read(Holding, Far, Regs);
    case 26: { std::vector<uint16_t> v(Coils, 1); v[0] = tag & 1; return d.writen(Coil, Far, v); }
    case 27: return d.read(Coil, Far, Coils);
    case 28: return d.tx([](auto& t, Result& r) { for(uint32_t i = 0; i < Regs; ++i) { uint16_t v = 0; r.push_back(t.get(Holding, Far + i, v)); r.push_back(t.set(Holding, Far + i, static_cast<uint16_t>(v + 1))); } });
    case 29: return d.tx([](auto& t, Result& r) { for(uint32_t i = 0; i < Regs; ++i) { uint16_t v = 0; t.get(Holding, Far + i, v); r.push_back(v); if(i < 100) { t.get(Coil, Far + 1000 + i, v); r.push_back(v); } } });
    case 30: return d.writen(Holding, Far + 1, std::vector<uint16_t>(Regs, tag));
    case 31: return d.write1(Holding, Far + 60, tag);
    case 32: return d.write1(Coil, Far + 1000, 1);
    case 33: return d.read(Holding, Far + 60, 60);
    default: return d.tx([](auto& t, Result& r) { uint16_t a = 0; r.push_back(t.get(Holding, 1, a)); r.push_back(a); r.push_back(t.set(Input, 1, a)); });
    }
}
template<typename D> void fill_far(D& d)
{
    for(unsigned i = 0; i < Regs; ++i) d.add(Holding, Far + i, 7);
    for(unsigned i = 0; i < Coils; ++i) d.add(Coil, Far + i, 0);
}
template<typename D> Result everything(D& d, bool far)
{
    Result r;
    if(far) { r = d.read(Holding, Far, Regs); const Result x = d.read(Coil, Far, Coils); r.insert(r.end(), x.begin(), x.end()); }
    for(int k = 0; k < 4; ++k) for(uint32_t a = 0; a <= 4; ++a) { const Result x = d.read(k, a, 1); r.insert(r.end(), x.begin(), x.end()); }
    return r;
}

struct Call { int op; uint16_t tag; uint64_t from, to; Result got; };

// Is there an order of the calls, consistent with real time, in which the model gives these answers?
bool linearizable(const std::vector<Call*>& calls, unsigned done, const Model& m, const Result& final, uint64_t& tried, bool far)
{
    if(done == (1u << calls.size()) - 1)
    {
        Model x = m;
        ModelDb d{x};
        ++tried;
        return everything(d, far) == final;
    }
    uint64_t earliest_end = ~uint64_t{0};
    for(size_t i = 0; i < calls.size(); ++i) if(!(done >> i & 1)) earliest_end = std::min(earliest_end, calls[i]->to);
    for(size_t i = 0; i < calls.size(); ++i)
    {
        if(done >> i & 1 || calls[i]->from > earliest_end) continue;
        Model x = m;
        ModelDb d{x};
        if(perform(d, calls[i]->op, calls[i]->tag) != calls[i]->got) continue;
        if(linearizable(calls, done | 1u << i, x, final, tried, far)) return true;
    }
    return false;
}

void program(Ctx& c, const std::vector<std::vector<int>>& threads)
{
    bool far = false;
    for(auto& t : threads) for(int o : t) far |= o >= Ops;
    sched::begin(c);
    std::vector<std::vector<Call>> calls(threads.size());
    for(size_t t = 0; t < threads.size(); ++t)
        for(size_t i = 0; i < threads[t].size(); ++i)
        {
            calls[t].push_back(Call{threads[t][i], static_cast<uint16_t>(100 * (t + 1) + i + 1), 0, 0, {}});
            c.note("thread %zu: %s", t, op_name(threads[t][i]));
        }
    auto db = std::make_unique<InMemoryDatabase>();
    { RealDb d{*db}; fill(d); if(far) fill_far(d); }
    Result final;
    std::vector<std::function<void()>> f;
    for(size_t t = 0; t < threads.size(); ++t)
        f.push_back([&, t] {
            RealDb d{*db};
            for(auto& call : calls[t])
            {
                sched::point();
                call.from = sched::tick();
                call.got = perform(d, call.op, call.tag);
                call.to = sched::tick();
            }
            if(t) return;
            // afterwards: still usable, also for another transaction
            sched::join_others();
            final = everything(d, far);
            d.tx([](auto&, Result&) {});
            db.reset();
        });
    sched::run(c, f);
    Model m;
    ModelDb d{m};
    fill(d);
    if(far) fill_far(d);
    std::vector<Call*> all;
    for(auto& t : calls) for(auto& x : t) all.push_back(&x);
    uint64_t tried = 0;
    const bool ok = linearizable(all, 0, m, final, tried, far);
    for(auto* x : all) { c.step(); for(auto v : x->got) c.observe(v); }
    for(auto v : final) c.observe(v);
    c.state(c.fingerprint());
    c.checked(1 + tried);
    bool overlap = false;
    for(auto* x : all) for(auto* y : all) if(x != y && x->from < y->from && y->from < x->to) overlap = true;
    if(overlap || sched::switches() > threads.size()) c.nontrivial();
    if(!ok)
    {
        std::string s;
        for(size_t t = 0; t < calls.size(); ++t) for(auto& x : calls[t])
        {
            s += "; thread " + std::to_string(t) + " [" + std::to_string(x.from) + "," + std::to_string(x.to) + "] " + op_name(x.op) + " ->";
            for(auto v : x.got) s += " " + (v >= Good && v < Good + 0x10000 ? std::string{"ok"} : v >= Bad ? "error" + std::to_string(v - Bad) : std::to_string(v));
        }
        c.fail("no sequential order explains these results%s", s.c_str());
    }
}

void any_program(Ctx& c, const std::vector<int>& shape, const std::vector<int>& pool, bool symmetric)
{
    std::vector<std::vector<int>> t;
    int low = 0;
    for(int n : shape)
    {
        std::vector<int> ops;
        for(int i = 0; i < n; ++i)
        {
            const int k = low + c.choose(static_cast<int>(pool.size()) - low, "operation");
            ops.push_back(pool[static_cast<size_t>(k)]);
            if(symmetric) low = k;
        }
        t.push_back(ops);
    }
    program(c, t);
}

std::vector<int> all_ops() { std::vector<int> v; for(int i = 0; i < Ops; ++i) v.push_back(i); return v; }

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C07";
    const auto all = all_ops();
    const std::vector<int> core{0, 1, 3, 4, 5, 6, 7, 10, 11, 12};
    auto add = [](std::vector<mc::Scenario>& v, const std::string& name, std::vector<int> shape, std::vector<int> pool, bool sym, int pre) {
        v.push_back({name, [=](Ctx& c) { any_program(c, shape, pool, sym); }, pre, "every choice of operations out of " + std::to_string(pool.size()) + ", every schedule with at most " + std::to_string(pre) + " preemptions"});
    };
    add(o.quick, "two threads, one operation each", {1, 1}, all, true, 12);
    add(o.quick, "two threads, two operations and one", {2, 1}, all, false, 1);
    add(o.quick, "three threads, one operation each", {1, 1, 1}, all, true, 1);
    add(o.quick, "two threads, two operations each", {2, 2}, {0, 3, 5, 7, 11}, false, 2);
    add(o.thorough, "two threads, one operation each", {1, 1}, all, true, 99);
    add(o.thorough, "two threads, two operations and one", {2, 1}, all, false, 4);
    add(o.thorough, "three threads, one operation each", {1, 1, 1}, all, true, 4);
    add(o.thorough, "two threads, two operations each", {2, 2}, core, false, 3);
    add(o.thorough, "three threads, two, one and one operations", {2, 1, 1}, {0, 3, 4, 5, 7, 10, 11}, false, 3);
    add(o.thorough, "three threads, two operations each", {2, 2, 2}, {0, 3, 5, 10}, false, 2);
    add(o.thorough, "four threads, one operation each", {1, 1, 1, 1}, core, true, 2);
    std::vector<int> far;
    for(int i = Ops; i < Ops + LongOps; ++i) far.push_back(i);
    add(o.quick, "long ranges, two threads, one operation each", {1, 1}, far, true, 2);
    add(o.thorough, "long ranges, two threads, one operation each", {1, 1}, far, true, 5);
    add(o.thorough, "long ranges, three threads, one operation each", {1, 1, 1}, far, true, 2);
    o.rule = "Each execution runs the real InMemoryDatabase on real threads under one schedule, checks every access for data races with vector clocks, and decides whether the answers and the final contents are those of a sequential order of the calls consistent with real time.";
    o.assumptions = {"IDatabase is used only inside a transaction; a transaction does not call the database's own request functions", "sequentially consistent interleavings: with no data race, C++ guarantees nothing else is observable"};
    return mc::main(argc, argv, o);
}
