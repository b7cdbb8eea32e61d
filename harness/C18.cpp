// C18: Expected<T> against a tagged reference, over all bounded histories of construction, copy, move, query,
// destruction; with every contained object's lifetime tracked.
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include "mc.hpp"
#include "modbus/Expected.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/IException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/WriteSingleCoilResponse.h"

using modbus::Expected;
using mc::Ctx;

namespace
{

// --- lifetimes
std::set<const void*> alive;
std::string lifetime_error;
int copies_until_throw = -1;

struct CopyThrows {};

struct Life
{
    Life() { born(); }
    Life(const Life&) { if(copies_until_throw >= 0 && copies_until_throw-- == 0) throw CopyThrows{}; born(); }
    Life(Life&&) noexcept { born(); }
    Life& operator=(const Life&) = default;
    ~Life() { if(!alive.erase(this)) lifetime_error = "an object was destroyed that was not alive"; }
    void born() { if(!alive.insert(this).second) lifetime_error = "an object was constructed over a live one"; }
};

struct Value : Life
{
    int id;
    std::string text;
    explicit Value(int i) : id(i), text(static_cast<size_t>(i % 3) * 40, 'v') {}
    Value(const Value&) = default;
    Value(Value&& o) noexcept : Life(std::move(o)), id(o.id), text(std::move(o.text)) { o.id = -1; }
    bool ok(int i) const { return id == i && text == std::string(static_cast<size_t>(i % 3) * 40, 'v'); }
};

// --- an error hierarchy
struct Err : Life { int id; explicit Err(int i) : id(i) {} virtual ~Err() = default; Err(const Err&) = default; };
struct ErrMid : Err { using Err::Err; };
struct ErrLeaf : ErrMid { using ErrMid::ErrMid; };
struct ErrOther : Err { using Err::Err; };
struct ErrUnrelated : Life { int id; explicit ErrUnrelated(int i) : id(i) {} };
struct ErrTwo : ErrOther, std::runtime_error { explicit ErrTwo(int i) : ErrOther(i), std::runtime_error("two") {} };
struct ErrPrivate : private Err { int pid; explicit ErrPrivate(int i) : Err(i), pid(i) {} };

// kinds: 0 Err 1 ErrMid 2 ErrLeaf 3 ErrOther 4 ErrUnrelated 5 ErrTwo 6 int 7 invalid_argument 8 ErrPrivate
constexpr int Kinds = 9;
const char* kname(int k) { static const char* n[] = {"Err", "ErrMid:Err", "ErrLeaf:ErrMid", "ErrOther:Err", "ErrUnrelated", "ErrTwo:ErrOther,runtime_error", "int", "invalid_argument", "ErrPrivate"}; return n[k]; }

template<typename T> Expected<T> make_error(int kind, int id)
{
    switch(kind)
    {
    case 0: return Expected<T>::from_exception(Err{id});
    case 1: return Expected<T>::from_exception(ErrMid{id});
    case 2: return Expected<T>::from_exception(ErrLeaf{id});
    case 3: return Expected<T>::from_exception(ErrOther{id});
    case 4: return Expected<T>::from_exception(ErrUnrelated{id});
    case 5: return Expected<T>::from_exception(ErrTwo{id});
    case 6: return Expected<T>::from_exception(id);
    case 7: return Expected<T>::from_exception(std::invalid_argument{"user " + std::to_string(id)});
    default: return Expected<T>::from_exception(ErrPrivate{id});
    }
}
std::exception_ptr make_ptr(int kind, int id)
{
    switch(kind)
    {
    case 0: return std::make_exception_ptr(Err{id});
    case 1: return std::make_exception_ptr(ErrMid{id});
    case 2: return std::make_exception_ptr(ErrLeaf{id});
    case 3: return std::make_exception_ptr(ErrOther{id});
    case 4: return std::make_exception_ptr(ErrUnrelated{id});
    case 5: return std::make_exception_ptr(ErrTwo{id});
    case 6: return std::make_exception_ptr(id);
    case 7: return std::make_exception_ptr(std::invalid_argument{"user " + std::to_string(id)});
    default: return std::make_exception_ptr(ErrPrivate{id});
    }
}

// The reference: what a slot holds.
struct Ref { bool value; int kind; int id; std::exception_ptr given; bool moved_from; };

template<typename E, typename X, typename Get> void probe(Ctx& c, const X& x, const Ref& r, bool matches, const char* name, Get id_of)
{
    c.checked(2);
    if(x.template has_exception<E>() != matches) c.fail("has_exception<%s>() is %d for %s", name, !matches, r.value ? "a value" : kname(r.kind));
    bool threw = false;
    try
    {
        const E e = x.template get_exception<E>();
        if(!matches) c.fail("get_exception<%s>() returned something for %s", name, r.value ? "a value" : kname(r.kind));
        if(id_of(e) != r.id) c.fail("get_exception<%s>() returned the contents %d, expected %d", name, id_of(e), r.id);
    }
    catch(const mc::Failure&) { throw; }
    catch(const std::invalid_argument&) { threw = true; }
    if(threw == matches) c.fail("get_exception<%s>() %s for %s", name, threw ? "failed" : "did not fail with invalid_argument", r.value ? "a value" : kname(r.kind));
}

int of_invalid(const std::invalid_argument& e) { return atoi(e.what() + 5); }

template<typename X> void query(Ctx& c, X& x, const Ref& r, const std::function<bool(const X&)>& value_ok)
{
    const X& cx = x;
    c.step(); c.checked(3);
    if(cx.is_valid() != r.value) c.fail("is_valid() is %d, expected %d", cx.is_valid(), r.value);
    if(r.value)
    {
        if(!value_ok(cx)) c.fail("the value changed");
        if(&x.get() != &cx.get()) c.fail("get() and get() const disagree");
        try { (void)cx.get_exception(); c.fail("get_exception() of a value did not fail"); }
        catch(const std::invalid_argument&) {}
    }
    else
    {
        for(int k = 0; k < 2; ++k)
        {
            bool thrown = false;
            try { if(k) (void)cx.get(); else (void)x.get(); }
            catch(...)
            {
                thrown = true;
                if(std::current_exception() != cx.get_exception()) c.fail("get() threw something that is not the contained error");
            }
            if(!thrown) c.fail("get() of an error did not throw");
        }
        if(r.given && cx.get_exception() != r.given) c.fail("the error is not the one given");
    }
    const int k = r.value ? -1 : r.kind;
    probe<Err>(c, cx, r, k == 0 || k == 1 || k == 2 || k == 3 || k == 5, "Err", [](const Err& e) { return e.id; });
    probe<ErrMid>(c, cx, r, k == 1 || k == 2, "ErrMid", [](const ErrMid& e) { return e.id; });
    probe<ErrLeaf>(c, cx, r, k == 2, "ErrLeaf", [](const ErrLeaf& e) { return e.id; });
    probe<ErrOther>(c, cx, r, k == 3 || k == 5, "ErrOther", [](const ErrOther& e) { return e.id; });
    probe<ErrUnrelated>(c, cx, r, k == 4, "ErrUnrelated", [](const ErrUnrelated& e) { return e.id; });
    probe<ErrTwo>(c, cx, r, k == 5, "ErrTwo", [](const ErrTwo& e) { return e.id; });
    probe<std::runtime_error>(c, cx, r, k == 5, "runtime_error", [&](const std::runtime_error&) { return r.id; });
    probe<int>(c, cx, r, k == 6, "int", [](int i) { return i; });
    probe<std::invalid_argument>(c, cx, r, k == 7, "invalid_argument", of_invalid);
    probe<std::logic_error>(c, cx, r, k == 7, "logic_error", [&](const std::logic_error&) { return r.id; });
    probe<std::exception>(c, cx, r, k == 5 || k == 7, "exception", [&](const std::exception&) { return r.id; });
    probe<ErrPrivate>(c, cx, r, k == 8, "ErrPrivate", [](const ErrPrivate& e) { return e.pid; });
    probe<long>(c, cx, r, false, "long", [](long) { return 0; });
    if(!lifetime_error.empty()) c.fail("%s", lifetime_error.c_str());
}

// T's values for the history scenario
template<typename T> struct Make;
template<> struct Make<Value> { static Value make(int i) { return Value{i}; } static bool ok(const Value& v, int i) { return v.ok(i); } };
template<> struct Make<std::string> { static std::string make(int i) { return std::string(static_cast<size_t>(i * 9), static_cast<char>('a' + i % 26)) + '\0' + "x"; } static bool ok(const std::string& v, int i) { return v == make(i); } };
template<> struct Make<bool> { static bool make(int i) { return i & 1; } static bool ok(bool v, int i) { return v == make(i); } };
template<> struct Make<modbus::ReadCoilsResponse>
{
    static modbus::ReadCoilsResponse make(int i) { modbus::ReadCoilsResponse r{}; for(int k = 0; k < i * 5; ++k) r.values.push_back({static_cast<modbus::Address>(k + i), (k & 1) == (i & 1)}); return r; }
    static bool ok(const modbus::ReadCoilsResponse& v, int i)
    {
        const auto e = make(i);
        if(v.values.size() != e.values.size()) return false;
        for(size_t k = 0; k < e.values.size(); ++k) if(v.values[k].address != e.values[k].address || v.values[k].value != e.values[k].value) return false;
        return true;
    }
};
struct alignas(64) Aligned : Life { int id; char pad[100]; explicit Aligned(int i) : id(i) { for(auto& p : pad) p = static_cast<char>(i); } };
template<> struct Make<Aligned> { static Aligned make(int i) { return Aligned{i}; } static bool ok(const Aligned& v, int i) { for(auto p : v.pad) if(p != static_cast<char>(i)) return false; return v.id == i && reinterpret_cast<uintptr_t>(&v) % 64 == 0; } };
// The value may itself be an error type, or an exception_ptr.
template<> struct Make<ErrMid> { static ErrMid make(int i) { return ErrMid{i}; } static bool ok(const ErrMid& v, int i) { return v.id == i; } };
template<> struct Make<std::exception_ptr> { static std::exception_ptr make(int i) { return i % 2 ? nullptr : std::make_exception_ptr(i); } static bool ok(const std::exception_ptr& v, int i) { return (v == nullptr) == (i % 2 == 1); } };

template<typename T> void histories(Ctx& c, int depth)
{
    alive.clear();
    lifetime_error.clear();
    copies_until_throw = -1;
    {
        using X = Expected<T>;
        struct Slot { std::unique_ptr<X> x; Ref r; };
        std::vector<Slot> s;
        int next = 1;
        auto check = [&] {
            for(auto& sl : s) if(!sl.r.moved_from) { const int id = sl.r.id; query<X>(c, *sl.x, sl.r, [id](const X& v) { return Make<T>::ok(v.get(), id); }); c.observe(static_cast<uint64_t>(sl.r.kind * 100 + sl.r.id)); }
        };
        for(int d = 0; d < depth; ++d)
        {
            const int ns = static_cast<int>(s.size());
            // value by copy, by move; 9 errors; an exception_ptr (two kinds); then per slot: copy, move, destroy,
            // copy into a temporary passed by value
            int op = c.choose(13 + 4 * ns, "operation");
            if(op == 0) { c.note("value %d by copy", next); const T v = Make<T>::make(next); s.push_back({std::unique_ptr<X>(new X(v)), {true, 0, next, nullptr, false}}); ++next; if(!Make<T>::ok(v, next - 1)) c.fail("construction changed the original value"); }
            else if(op == 1) { c.note("value %d by move", next); s.push_back({std::unique_ptr<X>(new X(Make<T>::make(next))), {true, 0, next, nullptr, false}}); ++next; }
            else if(op < 11) { c.note("error %s %d", kname(op - 2), next); s.push_back({std::unique_ptr<X>(new X(make_error<T>(op - 2, next))), {false, op - 2, next, nullptr, false}}); ++next; }
            else if(op < 13) { const int k = op == 11 ? 2 : 6; c.note("error by pointer %s %d", kname(k), next); const auto p = make_ptr(k, next); s.push_back({std::unique_ptr<X>(new X(X::from_exception(p))), {false, k, next, p, false}}); ++next; }
            else
            {
                op -= 13;
                const size_t i = static_cast<size_t>(op / 4);
                auto& src = s[i];
                if(src.r.moved_from && op % 4 != 2) { c.note("(moved-from)"); continue; }
                switch(op % 4)
                {
                case 0: { c.note("copy slot %zu", i); const X& cx = *src.x; Slot n{std::unique_ptr<X>(new X(cx)), src.r}; s.push_back(std::move(n)); break; }
                case 1: { c.note("move slot %zu", i); Slot n{std::unique_ptr<X>(new X(std::move(*src.x))), src.r}; src.r.moved_from = true; s.push_back(std::move(n)); break; }
                case 2: c.note("destroy slot %zu", i); s.erase(s.begin() + static_cast<long>(i)); break;
                case 3:
                {
                    c.note("pass slot %zu by value through a function and a vector", i);
                    auto f = [](X v) { return v; };
                    std::vector<X> v;
                    for(int k = 0; k < 3; ++k) v.push_back(f(*src.x));
                    const int id = src.r.id;
                    for(auto& x : v) query<X>(c, x, src.r, [id](const X& y) { return Make<T>::ok(y.get(), id); });
                    break;
                }
                }
            }
            check();
            c.state(c.fingerprint());
        }
    }
    c.checked();
    if(!lifetime_error.empty()) c.fail("%s", lifetime_error.c_str());
    if(!alive.empty()) c.fail("%zu contained objects were never destroyed", alive.size());
    c.nontrivial();
}

// Copy construction that throws at every possible copy: nothing leaks, the source is unharmed.
void throwing_copies(Ctx& c)
{
    alive.clear();
    lifetime_error.clear();
    copies_until_throw = -1;
    const int when = c.choose(4, "copy that throws");
    const int what = c.choose(4, "operation");
    {
        Expected<Value> a{Value{4}};
        const Value v{5};
        bool thrown = false;
        copies_until_throw = when;
        try
        {
            if(what == 0) { Expected<Value> b{a}; Expected<Value> d{b}; copies_until_throw = -1; query<Expected<Value>>(c, d, {true, 0, 4, nullptr, false}, [](const Expected<Value>& x) { return x.get().ok(4); }); }
            else if(what == 1) { Expected<Value> b{v}; Expected<Value> d{b}; copies_until_throw = -1; }
            else if(what == 2) { auto b = std::make_shared<Expected<Value>>(a); copies_until_throw = -1; }
            else
            {
                std::vector<Expected<Value>> vec;
                vec.reserve(1);
                vec.push_back(a);
                vec.push_back(v);
                copies_until_throw = -1;
            }
        }
        catch(const CopyThrows&) { thrown = true; }
        copies_until_throw = -1;
        c.note("operation %d, copy %d: threw %d", what, when, thrown);
        c.step();
        c.observe(thrown);
        query<Expected<Value>>(c, a, {true, 0, 4, nullptr, false}, [](const Expected<Value>& x) { return x.get().ok(4); });
    }
    if(!lifetime_error.empty()) c.fail("%s", lifetime_error.c_str());
    if(!alive.empty()) c.fail("%zu contained objects were never destroyed", alive.size());
    c.state(c.fingerprint());
    c.nontrivial();
}

// Values are mutable through get(); copies are independent; move-only values work; slicing is refused.
void independence(Ctx& c)
{
    alive.clear();
    lifetime_error.clear();
    copies_until_throw = -1;
    const int n = c.choose(6, "case");
    c.step();
    c.checked();
    switch(n)
    {
    case 0: { Expected<Value> a{Value{1}}; Expected<Value> b{a}; b.get().id = 9; if(a.get().id != 1 || b.get().id != 9) c.fail("copies share their value"); break; }
    case 1: { Expected<Value> a{Value{1}}; a.get().id = 9; Expected<Value> b{a}; Expected<Value> d{std::move(a)}; if(b.get().id != 9 || d.get().id != 9) c.fail("a change through get() was lost"); break; }
    case 2: { Expected<std::unique_ptr<int>> a{std::unique_ptr<int>(new int(5))}; int* p = a.get().get(); Expected<std::unique_ptr<int>> b{std::move(a)}; if(!b.is_valid() || b.get().get() != p || *b.get() != 5) c.fail("a move-only value was not moved"); break; }
    case 3: { auto e = Expected<std::unique_ptr<int>>::from_exception(ErrLeaf{3}); Expected<std::unique_ptr<int>> b{std::move(e)}; if(b.is_valid() || b.get_exception<ErrLeaf>().id != 3) c.fail("an error next to a move-only value was not moved"); break; }
    case 4:
    {
        // An error handed over through a reference to its base is never recorded as a mere base error.
        const ErrLeaf leaf{7};
        const Err& base = leaf;
        try { auto e = Expected<int>::from_exception(base); if(!e.has_exception<ErrLeaf>()) c.fail("the error was sliced"); }
        catch(const std::invalid_argument&) {}
        break;
    }
    case 5:
    {
        // One error shared by many expectations outlives each of them.
        auto e = std::unique_ptr<Expected<int>>(new Expected<int>(Expected<int>::from_exception(ErrLeaf{8})));
        const auto p = e->get_exception();
        auto f = Expected<std::string>::from_exception(p);
        e.reset();
        if(f.get_exception<ErrMid>().id != 8 || f.get_exception() != p) c.fail("the error died with its first holder");
        break;
    }
    }
    c.note("case %d", n);
    c.observe(static_cast<uint64_t>(n));
    if(!lifetime_error.empty()) c.fail("%s", lifetime_error.c_str());
    c.state(c.fingerprint());
    c.nontrivial();
}

// The library's own errors keep their text, code and type through copies and moves.
void library_errors(Ctx& c)
{
    using namespace modbus;
    const int which = c.choose(5, "error type"), text = c.choose(5, "text"), trip = c.choose(4, "journey");
    static const std::string texts[] = {"", "short", std::string(500, 'x'), std::string("with\0nul", 8), "\xff\x80 %s {}"};
    static const ExceptionType types[] = {ExceptionType::IllegalFunction, ExceptionType::IllegalDataAddress, ExceptionType::IllegalDataValue, ExceptionType::ServerDeviceFailure, ExceptionType::Acknowledge, ExceptionType::ServerDeviceBusy, ExceptionType::MemoryParityError, ExceptionType::GatewayPathUnavailable, ExceptionType::GatewayTargetDeviceFailedToRespond, ExceptionType::Unknown};
    using X = Expected<ReadHoldingRegistersResponse>;
    for(auto type : types)
    {
        std::unique_ptr<X> x;
        {
            std::string m = texts[text];
            x.reset(new X(which == 0 ? X::from_exception(ConnectionException{m}) : which == 1 ? X::from_exception(MalformedModbusRequestException{m}) : which == 2 ? X::from_exception(MalformedModbusResponseException{m}) : which == 3 ? X::from_exception(TimeoutException{}) : X::from_exception(ModbusException{type})));
            m.assign(m.size(), '!');
        }
        if(trip == 1) { std::unique_ptr<X> y(new X(*x)); x = std::move(y); }
        if(trip == 2) { std::unique_ptr<X> y(new X(std::move(*x))); x = std::move(y); }
        if(trip == 3) { X y{*x}; x.reset(); x.reset(new X(X::from_exception(y.get_exception()))); }
        const bool is[5] = {x->has_exception<ConnectionException>(), x->has_exception<MalformedModbusRequestException>(), x->has_exception<MalformedModbusResponseException>(), x->has_exception<TimeoutException>(), x->has_exception<ModbusException>()};
        c.step(); c.checked(8);
        for(int k = 0; k < 5; ++k) if(is[k] != (k == which)) c.fail("error %d matches type %d: %d", which, k, is[k]);
        if(!x->has_exception<IException>()) c.fail("a library error is not an IException");
        std::ostringstream os;
        os << type;
        const std::string want = which == 4 ? os.str() : which == 3 ? TimeoutException{}.get_message() : texts[text];
        if(x->get_exception<IException>().get_message() != want) c.fail("the error's message became '%s'", x->get_exception<IException>().get_message().c_str());
        if(which == 4 && x->get_exception<ModbusException>().get_exception_type() != type) c.fail("exception type %d became %d", static_cast<int>(type), static_cast<int>(x->get_exception<ModbusException>().get_exception_type()));
    }
    c.note("type %d text %d journey %d", which, text, trip);
    c.observe(static_cast<uint64_t>(which * 100 + text * 10 + trip));
    c.state(c.fingerprint());
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C18";
    const char* b = "all histories of construction (2 ways by value, 9 error types, exception_ptr), copy, move, pass by value, destruction";
    o.quick = {
        {"tracked values", [](Ctx& c) { histories<Value>(c, 4); }, 0, std::string(b) + ", 4 operations"},
        {"strings", [](Ctx& c) { histories<std::string>(c, 3); }, 0, "3 operations"},
        {"bool", [](Ctx& c) { histories<bool>(c, 3); }, 0, "3 operations"},
        {"responses", [](Ctx& c) { histories<modbus::ReadCoilsResponse>(c, 3); }, 0, "3 operations"},
        {"over-aligned values", [](Ctx& c) { histories<Aligned>(c, 3); }, 0, "3 operations"},
        {"error as value", [](Ctx& c) { histories<ErrMid>(c, 3); }, 0, "3 operations"},
        {"exception_ptr as value", [](Ctx& c) { histories<std::exception_ptr>(c, 3); }, 0, "3 operations"},
        {"throwing copies", throwing_copies, 0, "each of the first four copies throws"},
        {"independence", independence, 0, ""},
        {"library errors", library_errors, 0, "5 error types, 5 texts, 10 exception types, 4 journeys"}};
    o.thorough = o.quick;
    o.thorough.push_back({"tracked values, 5", [](Ctx& c) { histories<Value>(c, 5); }, 0, std::string(b) + ", 5 operations"});
    o.thorough.push_back({"strings, 4", [](Ctx& c) { histories<std::string>(c, 4); }, 0, "4 operations"});
    o.thorough.push_back({"responses, 4", [](Ctx& c) { histories<modbus::ReadCoilsResponse>(c, 4); }, 0, "4 operations"});
    o.thorough.push_back({"error as value, 4", [](Ctx& c) { histories<ErrMid>(c, 4); }, 0, "4 operations"});
    o.rule = "Each execution applies one history to real Expected objects and compares every query on every live object after every operation with a tagged reference; constructions and destructions of contained objects are tracked.";
    o.assumptions = {"a moved-from expectation is only destroyed", "libstdc++'s exception_ptr is trusted"};
    return mc::main(argc, argv, o);
}
