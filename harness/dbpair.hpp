// The in-memory database next to four plain maps; every operation is made on both and compared.
#ifndef HARNESS_DBPAIR_HPP
#define HARNESS_DBPAIR_HPP

#include <map>
#include <memory>
#include <stdexcept>
#include <vector>

#include "mc.hpp"
#include "modbus/server/db/InMemoryDatabase.h"
#include "modbus/exceptions/ModbusException.h"

namespace dbp
{
using namespace modbus;

enum Kind { Coil, Discrete, Holding, Input };
inline const char* kind_name(int k) { static const char* n[] = {"coil", "discrete input", "holding register", "input register"}; return n[k]; }
inline bool is_bit(int k) { return k < 2; }

struct Ref
{
    std::map<uint32_t, uint16_t> m[4];
    bool has(int k, uint32_t a) const { return m[k].count(a) != 0; }
    bool range(int k, uint32_t a, size_t n) const
    {
        if(a + n > 65536) return false;
        for(size_t i = 0; i < n; ++i) if(!has(k, a + static_cast<uint32_t>(i))) return false;
        return true;
    }
};

struct DbPair
{
    mc::Ctx& c;
    std::shared_ptr<InMemoryDatabase> db = std::make_shared<InMemoryDatabase>();
    IServerSession& s = *db;
    Ref ref;
    explicit DbPair(mc::Ctx& ctx) : c(ctx) {}

    static uint16_t norm(int k, unsigned v) { return static_cast<uint16_t>(is_bit(k) ? (v & 1) : v); }

    void add(int k, uint32_t a, unsigned value)
    {
        const uint16_t v = norm(k, value);
        const auto ad = static_cast<Address>(a);
        const bool r = k == Coil ? db->add_coil(ad, v) : k == Discrete ? db->add_discrete_input(ad, v) : k == Holding ? db->add_holding_register(ad, v) : db->add_input_register(ad, v);
        const bool e = ref.m[k].emplace(a, v).second;
        c.step(); c.checked(); c.observe(r);
        if(r != e) c.fail("adding %s %u returned %d, expected %d", kind_name(k), a, r, e);
    }

    template<typename R> bool outcome(const Expected<R>& r, bool expected, const char* what, int k, uint32_t a, size_t n)
    {
        c.step(); c.checked(); c.observe(r.is_valid());
        if(r.is_valid() != expected) c.fail("%s %zu %s(s) at %u: %s, expected %s", what, n, kind_name(k), a, r.is_valid() ? "succeeded" : "failed", expected ? "success" : "failure");
        if(!expected)
        {
            if(!r.template has_exception<ModbusException>()) c.fail("%s %zu %s(s) at %u failed with something that is not a Modbus exception", what, n, kind_name(k), a);
            const auto t = r.template get_exception<ModbusException>().get_exception_type();
            if(t != ExceptionType::IllegalDataAddress) c.fail("%s %zu %s(s) at %u failed with exception %d, expected illegal data address", what, n, kind_name(k), a, static_cast<int>(t));
        }
        return expected;
    }

    template<typename R> void values(const Expected<R>& r, int k, uint32_t a, size_t n)
    {
        if(!outcome(r, ref.range(k, a, n), "reading", k, a, n)) return;
        const auto& v = r.get().values;
        if(v.size() != n) c.fail("reading %zu %s(s) at %u returned %zu values", n, kind_name(k), a, v.size());
        for(size_t i = 0; i < n; ++i)
        {
            const auto ea = a + static_cast<uint32_t>(i);
            if(v[i].address != ea) c.fail("reading %zu %s(s) at %u: entry %zu has address %u", n, kind_name(k), a, i, v[i].address);
            const auto ev = ref.m[k].find(ea)->second;
            if(static_cast<uint16_t>(v[i].value) != ev) c.fail("%s %u reads as %u, expected %u", kind_name(k), ea, static_cast<unsigned>(v[i].value), ev);
            c.observe(ev);
        }
    }
    void read(int k, uint32_t a, size_t n)
    {
        const auto ad = static_cast<Address>(a);
        const auto q = static_cast<uint16_t>(n);
        switch(k)
        {
        case Coil: { ReadCoilsRequest r{}; r.starting_address = ad; r.qty_of_bits = q; values(s.on_request(r), k, a, n); break; }
        case Discrete: { ReadDiscreteInputsRequest r{}; r.starting_address = ad; r.qty_of_bits = q; values(s.on_request(r), k, a, n); break; }
        case Holding: { ReadHoldingRegistersRequest r{}; r.starting_address = ad; r.qty_of_registers = q; values(s.on_request(r), k, a, n); break; }
        case Input: { ReadInputRegistersRequest r{}; r.starting_address = ad; r.qty_of_registers = q; values(s.on_request(r), k, a, n); break; }
        }
    }
    void write1(int k, uint32_t a, unsigned value)
    {
        const uint16_t v = norm(k, value);
        const auto ad = static_cast<Address>(a);
        const bool e = ref.has(k, a);
        if(e) ref.m[k][a] = v;
        if(k == Coil)
        {
            WriteSingleCoilRequest r{}; r.value.address = ad; r.value.value = v;
            const auto x = s.on_request(r);
            if(outcome(x, e, "writing", k, a, 1) && (x.get().value.address != a || x.get().value.value != (v != 0))) c.fail("writing coil %u answered address %u value %d", a, x.get().value.address, x.get().value.value);
        }
        else
        {
            WriteSingleRegisterRequest r{}; r.value.address = ad; r.value.value = v;
            const auto x = s.on_request(r);
            if(outcome(x, e, "writing", k, a, 1) && (x.get().value.address != a || x.get().value.value != v)) c.fail("writing register %u answered address %u value %d", a, x.get().value.address, x.get().value.value);
        }
    }
    void writen(int k, uint32_t a, const std::vector<uint16_t>& v)
    {
        const auto ad = static_cast<Address>(a);
        const bool e = ref.range(k, a, v.size());
        if(e) for(size_t i = 0; i < v.size(); ++i) ref.m[k][a + static_cast<uint32_t>(i)] = norm(k, v[i]);
        if(k == Coil)
        {
            WriteMultipleCoilsRequest r{}; r.starting_address = ad;
            for(auto x : v) r.values.push_back(x & 1);
            const auto x = s.on_request(r);
            if(outcome(x, e, "writing", k, a, v.size()) && (x.get().starting_address != a || x.get().qty_of_coils != v.size())) c.fail("writing %zu coils at %u answered %u, %u", v.size(), a, x.get().starting_address, x.get().qty_of_coils);
        }
        else
        {
            WriteMultipleRegistersRequest r{}; r.starting_address = ad; r.values = v;
            const auto x = s.on_request(r);
            if(outcome(x, e, "writing", k, a, v.size()) && (x.get().starting_address != a || x.get().qty_of_registers != v.size())) c.fail("writing %zu registers at %u answered %u, %u", v.size(), a, x.get().starting_address, x.get().qty_of_registers);
        }
    }
    // Inside a transaction.
    void tx_get(IDatabase& d, int k, uint32_t a)
    {
        const auto ad = static_cast<Address>(a);
        const bool e = ref.has(k, a);
        for(int pre = 0; pre < 2; ++pre)
        {
            bool b = pre;
            uint16_t w = pre ? 0xFFFF : 0;
            const bool r = k == Coil ? d.get_coil(ad, b) : k == Discrete ? d.get_discrete_input(ad, b) : k == Holding ? d.get_holding_register(ad, w) : d.get_input_register(ad, w);
            const uint16_t got = is_bit(k) ? b : w;
            c.step(); c.checked(); c.observe(r);
            if(r != e) c.fail("transaction: getting %s %u returned %d, expected %d", kind_name(k), a, r, e);
            if(e && got != ref.m[k][a]) c.fail("transaction: %s %u is %u, expected %u", kind_name(k), a, got, ref.m[k][a]);
        }
    }
    void tx_set(IDatabase& d, int k, uint32_t a, unsigned value)
    {
        const uint16_t v = norm(k, value);
        const auto ad = static_cast<Address>(a);
        const bool e = ref.has(k, a);
        if(e) ref.m[k][a] = v;
        const bool r = k == Coil ? d.set_coil(ad, v) : k == Discrete ? d.set_discrete_input(ad, v) : k == Holding ? d.set_holding_register(ad, v) : d.set_input_register(ad, v);
        c.step(); c.checked(); c.observe(r);
        if(r != e) c.fail("transaction: setting %s %u returned %d, expected %d", kind_name(k), a, r, e);
    }
    template<typename F> void tx(F f)
    {
        int runs = 0;
        db->execute_transaction([&](IDatabase& d) { ++runs; f(d); });
        c.checked();
        if(runs != 1) c.fail("the transaction ran %d times", runs);
    }
    // Everything observable about these addresses, through requests and through a transaction.
    void sweep(const std::vector<uint32_t>& addrs, bool through_tx = true)
    {
        for(int k = 0; k < 4; ++k) for(uint32_t a : addrs) read(k, a, 1);
        if(through_tx) tx([&](IDatabase& d) { for(int k = 0; k < 4; ++k) for(uint32_t a : addrs) tx_get(d, k, a); });
    }
};

} // namespace dbp

#endif
