// C19: identifiers, endpoints and exception codes over their whole domains.
#include <iomanip>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "TransactionIdentifier.h"
#include "mc.hpp"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/UnitIdentifier.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/messages/ExceptionType.h"

using namespace modbus;
using mc::Ctx;

namespace
{

template<typename T> std::string text(const T& v) { std::ostringstream os; os << v; return os.str(); }
std::string hex(unsigned v, int w) { char b[32]; snprintf(b, sizeof b, "0x%0*X", w, v); return b; }

void units(Ctx& c)
{
    const unsigned a = static_cast<unsigned>(c.choose(256, "unit"));
    const UnitIdentifier ua{static_cast<uint8_t>(a)};
    const UnitIdentifier copy = ua;
    const std::hash<UnitIdentifier> h{};
    std::unordered_map<UnitIdentifier, unsigned> map;
    for(unsigned b = 0; b < 256; ++b)
    {
        UnitIdentifier ub{static_cast<uint8_t>(b)};
        c.step(); c.checked(6);
        if(ub.get_value() != b) c.fail("unit %u became %u", b, ub.get_value());
        if((ua == ub) != (a == b) || (ub == ua) != (a == b)) c.fail("units %u and %u compare equal: %d", a, b, ua == ub);
        if((ua != ub) == (a == b) || (ub != ua) == (a == b)) c.fail("units %u and %u compare unequal: %d", a, b, ua != ub);
        if(a == b && (h(ua) != h(ub) || std::hash<UnitIdentifier>{}(copy) != h(ub))) c.fail("equal units %u hash differently", a);
        map[ub] = b;
        ub = ua;
        if(ub.get_value() != a || !(ub == ua)) c.fail("assigning unit %u gave %u", a, ub.get_value());
    }
    if(map.size() != 256) c.fail("a map by unit holds %zu of 256 units", map.size());
    for(unsigned b = 0; b < 256; ++b) { auto it = map.find(UnitIdentifier{static_cast<uint8_t>(b)}); if(it == map.end() || it->second != b) c.fail("unit %u not found by hash", b); }
    if(text(ua) != hex(a, 2)) c.fail("unit %u prints as %s", a, text(ua).c_str());
    if(UnitIdentifier::default_unit_identifier().get_value() != 0xFF) c.fail("the default unit is %u", UnitIdentifier::default_unit_identifier().get_value());
    constexpr UnitIdentifier k{0x42};
    static_assert(k.get_value() == 0x42, "constexpr unit");
    c.note("unit %u against all units", a);
    c.observe(a);
    c.state();
    c.nontrivial();
}

// Every pair of transaction identifiers.
void transaction_pairs(Ctx& c)
{
    const unsigned hi = static_cast<unsigned>(c.choose(256, "high byte")) << 8;
    for(unsigned lo = 0; lo < 256; ++lo)
    {
        const unsigned a = hi | lo;
        const TransactionIdentifier ta{static_cast<uint16_t>(a)};
        for(unsigned b = 0; b < 65536; ++b)
        {
            const TransactionIdentifier tb{static_cast<uint16_t>(b)};
            const bool e = ta == tb, n = ta != tb;
            if(e != (a == b) || n == e) c.fail("transactions %u and %u: == %d, != %d", a, b, e, n);
        }
        c.step(65536); c.checked(2 * 65536);
    }
    c.note("transactions %u..%u against all 65536", hi, hi + 255);
    c.observe(hi);
    c.state();
    c.nontrivial();
}

void transactions(Ctx& c)
{
    const unsigned hi = static_cast<unsigned>(c.choose(256, "high byte")) << 8;
    for(unsigned lo = 0; lo < 256; ++lo)
    {
        const unsigned a = hi | lo, n = (a + 1) & 0xFFFF;
        TransactionIdentifier t{static_cast<uint16_t>(a)};
        const TransactionIdentifier before = t;
        c.step(4); c.checked(12);
        if(t.get_value() != a) c.fail("transaction %u became %u", a, t.get_value());
        if(text(t) != hex(a, 4)) c.fail("transaction %u prints as %s", a, text(t).c_str());
        TransactionIdentifier& r = ++t;
        if(&r != &t) c.fail("++t does not return t");
        if(t.get_value() != n) c.fail("++%u gave %u", a, t.get_value());
        if(before.get_value() != a) c.fail("incrementing changed a copy");
        TransactionIdentifier u{static_cast<uint16_t>(a)};
        const TransactionIdentifier old = u++;
        if(old.get_value() != a || u.get_value() != n) c.fail("%u++ returned %u and left %u", a, old.get_value(), u.get_value());
        if(!(u == t) || u != t || u == before || !(u != before)) c.fail("comparison after incrementing %u", a);
        // two steps, and increments of the returned reference
        ++(++u);
        if(u.get_value() != ((a + 3) & 0xFFFF)) c.fail("three increments of %u gave %u", a, u.get_value());
        TransactionIdentifier v = before;
        v++; v++;
        if(v.get_value() != ((a + 2) & 0xFFFF)) c.fail("two post-increments of %u gave %u", a, v.get_value());
    }
    c.note("transactions %u..%u", hi, hi + 255);
    c.observe(hi);
    c.state();
    c.nontrivial();
}

// Two whole turns through all identifiers, one object.
void wrap_around(Ctx& c)
{
    const bool post = c.choose(2, "pre or post increment");
    const unsigned start = c.choose(2, "start") ? 0xFFFE : 0;
    TransactionIdentifier t{static_cast<uint16_t>(start)};
    for(unsigned i = 0; i < 2 * 65536 + 5; ++i)
    {
        if(t.get_value() != ((start + i) & 0xFFFF)) c.fail("after %u increments from %u the value is %u", i, start, t.get_value());
        if(post) t++; else ++t;
    }
    c.step(2 * 65536); c.checked(2 * 65536);
    c.note("two turns from %u, %s", start, post ? "post" : "pre");
    c.observe(start + post);
    c.state();
    c.nontrivial();
}

const std::vector<std::string>& hosts()
{
    static const std::vector<std::string> h = {"", "0", "127.0.0.1", "127.0.0.2", "127.0.0.1 ", " 127.0.0.1", "127.0.0.10", "localhost", "LOCALHOST", "localhost.", "foo.com", "foo.con", "fop.com", "oof.com", "::1", std::string("a\0b", 3), std::string("a\0c", 3), "a", std::string(1000, 'h'), std::string(999, 'h') + 'i', "caf\xc3\xa9", "502"};
    return h;
}

// Every port with every host; compared with the same, bit-flipped and neighbouring ports and all hosts.
void endpoints(Ctx& c)
{
    const uint32_t hi = static_cast<uint32_t>(c.choose(256, "port high byte")) << 8;
    const auto& hs = hosts();
    for(uint32_t lo = 0; lo < 256; ++lo)
    {
        const uint32_t p = hi | lo;
        const std::string& h = hs[(p * 7 + (p >> 8)) % hs.size()];
        std::string given = h;
        const Ipv4Endpoint a{given, p};
        given.assign(given.size(), '?');
        if(a.get_hostname() != h || a.get_port() != p) c.fail("endpoint %s:%u became %s:%u", h.c_str(), p, a.get_hostname().c_str(), a.get_port());
        const Ipv4Endpoint b = a;
        if(!(a == b) || a != b || b.get_port() != p || b.get_hostname() != h) c.fail("a copy of endpoint %s:%u differs", h.c_str(), p);
        std::vector<uint32_t> ports = {p, p + 1, p + 65535, p + 65536, ~p, 0, 502, 65535, 0xFFFFFFFF, (p >> 8) | (p << 8 & 0xFF00)};
        for(int k = 0; k < 32; ++k) ports.push_back(p ^ (1u << k));
        for(uint32_t q : ports)
        {
            const Ipv4Endpoint o{h, q};
            c.step(); c.checked(3);
            if(o.get_port() != q) c.fail("port %u became %u", q, o.get_port());
            if((a == o) != (p == q) || (o == a) != (p == q) || (a != o) == (p == q) || (o != a) == (p == q)) c.fail("endpoints with ports %u and %u: == %d != %d", p, q, a == o, a != o);
        }
        for(const auto& g : hs)
            for(uint32_t q : {p, p ^ 1})
            {
                const Ipv4Endpoint o{g, q};
                const bool same = g == h && p == q;
                c.step(); c.checked(3);
                if(o.get_hostname() != g) c.fail("hostname became %s", o.get_hostname().c_str());
                if((a == o) != same || (o == a) != same || (a != o) == same) c.fail("endpoints %s:%u and %s:%u: == %d != %d", h.c_str(), p, g.c_str(), q, a == o, a != o);
            }
        Ipv4Endpoint assigned{"x", 1};
        assigned = a;
        if(!(assigned == a)) c.fail("assignment of an endpoint");
    }
    c.note("ports %u..%u", hi, hi + 255);
    c.observe(hi);
    c.state();
    c.nontrivial();
}

void exception_codes(Ctx& c)
{
    struct Row { unsigned code; ExceptionType type; const char* text; };
    static const Row table[] = {
        {1, ExceptionType::IllegalFunction, "Illegal function"},
        {2, ExceptionType::IllegalDataAddress, "Illegal data address"},
        {3, ExceptionType::IllegalDataValue, "Illegal data value"},
        {4, ExceptionType::ServerDeviceFailure, "Server device failure"},
        {5, ExceptionType::Acknowledge, "Acknowledge"},
        {6, ExceptionType::ServerDeviceBusy, "Server device busy"},
        {8, ExceptionType::MemoryParityError, "Memory parity error"},
        {10, ExceptionType::GatewayPathUnavailable, "Gateway path unavailable"},
        {11, ExceptionType::GatewayTargetDeviceFailedToRespond, "Gateway target device failed to respond"}};
    const unsigned code = static_cast<unsigned>(c.choose(256, "code"));
    const ExceptionType t = parse_exception_type(static_cast<uint8_t>(code));
    const Row* row = nullptr;
    for(const auto& r : table) if(r.code == code) row = &r;
    c.step(); c.checked(6);
    c.observe(static_cast<uint64_t>(t) * 256 + code);
    if(row)
    {
        if(t != row->type) c.fail("code %u parses as %d", code, static_cast<int>(t));
        if(static_cast<unsigned>(row->type) != code) c.fail("%s has the code %d, expected %u", row->text, static_cast<int>(row->type), code);
        if(text(t) != row->text) c.fail("code %u prints as %s", code, text(t).c_str());
    }
    else
    {
        if(t != ExceptionType::Unknown) c.fail("code %u parses as %d, expected unknown", code, static_cast<int>(t));
        if(text(t) != "Unknown") c.fail("unknown exception prints as %s", text(t).c_str());
    }
    for(const auto& r : table) if(r.type == ExceptionType::Unknown) c.fail("%s is unknown", r.text);
    const ModbusException e{t};
    const ModbusException f = e;
    if(f.get_exception_type() != t || f.IException::get_message() != (row ? row->text : "Unknown")) c.fail("a ModbusException of code %u became type %d '%s'", code, static_cast<int>(f.get_exception_type()), f.IException::get_message().c_str());
    if(ModbusException::get_message(t) != (row ? row->text : "Unknown")) c.fail("message of code %u", code);
    c.note("code %u -> %s", code, text(t).c_str());
    c.state();
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C19";
    o.quick = {
        {"units", units, 0, "all 256 x 256 pairs"},
        {"transactions", transactions, 0, "all 65536"},
        {"transaction pairs", transaction_pairs, 0, "all 65536 x 65536 pairs"},
        {"wrap around", wrap_around, 0, "two whole turns"},
        {"endpoints", endpoints, 0, "all ports below 65536 with 22 host names, against bit-flipped, neighbouring and 32-bit ports and all host names"},
        {"exception codes", exception_codes, 0, "all 256 codes"}};
    o.rule = "The whole domain is enumerated; every relation is compared with the relation of the plain values.";
    o.assumptions = {"host names: 22 representatives (empty, prefixes, case, embedded NUL, 1000 characters)"};
    return mc::main(argc, argv, o);
}
