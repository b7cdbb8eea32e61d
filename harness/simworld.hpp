// The library in the simulated world: creating managers, channels and sessions, sending any request through the
// public API, and recording every outcome.
#ifndef HARNESS_SIMWORLD_HPP
#define HARNESS_SIMWORLD_HPP

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "asio.hpp"
#include "mc.hpp"
#include "modbus_ref.hpp"
#include "modbus/IModbusManager.h"
#include "modbus/ITimer.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/IServerSession.h"
#include "modbus/messages/ReadCoilsRequest.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "modbus/messages/ReadDiscreteInputsRequest.h"
#include "modbus/messages/ReadDiscreteInputsResponse.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/ReadInputRegistersRequest.h"
#include "modbus/messages/ReadInputRegistersResponse.h"
#include "modbus/messages/WriteMultipleCoilsRequest.h"
#include "modbus/messages/WriteMultipleCoilsResponse.h"
#include "modbus/messages/WriteMultipleRegistersRequest.h"
#include "modbus/messages/WriteMultipleRegistersResponse.h"
#include "modbus/messages/WriteSingleCoilRequest.h"
#include "modbus/messages/WriteSingleCoilResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"

// The library lives in simulated time, also where it asks the clock itself (each check has one harness file).
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { SIM_GUARD; return sim::world().now; }

namespace hw
{
using namespace std::chrono_literals;
using ref::Bytes;
using ref::Out;
using ref::Req;
using sim::dur;
using sim::time_p;
using modbus::UnitIdentifier;

inline std::shared_ptr<modbus::Logger> null_logger()
{
    static auto l = modbus::LoggerFactory::create_null_logger("check");
    return l;
}
inline long ms(dur d) { return static_cast<long>(std::chrono::duration_cast<std::chrono::milliseconds>(d).count()); }

// ---- what a response handler was told ----
inline void fields(Out& o, const modbus::ReadCoilsResponse& r) { for(const auto& v : r.values) { o.data.push_back(v.address); o.data.push_back(v.value); } }
inline void fields(Out& o, const modbus::ReadDiscreteInputsResponse& r) { for(const auto& v : r.values) { o.data.push_back(v.address); o.data.push_back(v.value); } }
inline void fields(Out& o, const modbus::ReadHoldingRegistersResponse& r) { for(const auto& v : r.values) { o.data.push_back(v.address); o.data.push_back(v.value); } }
inline void fields(Out& o, const modbus::ReadInputRegistersResponse& r) { for(const auto& v : r.values) { o.data.push_back(v.address); o.data.push_back(v.value); } }
inline void fields(Out& o, const modbus::WriteSingleCoilResponse& r) { o.data = {r.value.address, r.value.value ? 1u : 0u}; }
inline void fields(Out& o, const modbus::WriteSingleRegisterResponse& r) { o.data = {r.value.address, r.value.value}; }
inline void fields(Out& o, const modbus::WriteMultipleCoilsResponse& r) { o.data = {r.starting_address, r.qty_of_coils}; }
inline void fields(Out& o, const modbus::WriteMultipleRegistersResponse& r) { o.data = {r.starting_address, r.qty_of_registers}; }
template<typename E> Out outcome(const E& e)
{
    Out o;
    if(e.is_valid()) { o.type = 'D'; fields(o, e.get()); }
    else if(e.template has_exception<modbus::ModbusException>())
    {
        o.type = 'E';
        o.code = static_cast<uint32_t>(e.template get_exception<modbus::ModbusException>().get_exception_type());
        if(o.code == static_cast<uint32_t>(modbus::ExceptionType::Unknown)) o.code = 0xFF;
    }
    else if(e.template has_exception<modbus::MalformedModbusResponseException>()) o.type = 'M';
    else if(e.template has_exception<modbus::MalformedModbusRequestException>()) o.type = 'Q';
    else if(e.template has_exception<modbus::ConnectionException>()) o.type = 'C';
    else if(e.template has_exception<modbus::TimeoutException>()) o.type = 'T';
    return o;
}
using Handler = std::function<void(const Out&)>;

// ---- sending any request ----
template<typename Q, typename R> void send_as(modbus::IClientSession& s, const Q& q, const dur* timeout, Handler h)
{
    modbus::ResponseHandler<R> f = [h = std::move(h)](const modbus::Expected<R>& e) { h(outcome(e)); };
    if(timeout) s.send_request(q, *timeout, f); else s.send_request(q, f);
}
template<typename F> auto with_request(const Req& r, F f)
{
    using namespace modbus;
    const auto a = static_cast<Address>(r.addr);
    switch(r.kind)
    {
    case ref::ReadCoils: { ReadCoilsRequest q{}; q.starting_address = a; q.qty_of_bits = static_cast<uint16_t>(r.qty); return f(q, static_cast<ReadCoilsResponse*>(nullptr)); }
    case ref::ReadDiscrete: { ReadDiscreteInputsRequest q{}; q.starting_address = a; q.qty_of_bits = static_cast<uint16_t>(r.qty); return f(q, static_cast<ReadDiscreteInputsResponse*>(nullptr)); }
    case ref::ReadHolding: { ReadHoldingRegistersRequest q{}; q.starting_address = a; q.qty_of_registers = static_cast<uint16_t>(r.qty); return f(q, static_cast<ReadHoldingRegistersResponse*>(nullptr)); }
    case ref::ReadInput: { ReadInputRegistersRequest q{}; q.starting_address = a; q.qty_of_registers = static_cast<uint16_t>(r.qty); return f(q, static_cast<ReadInputRegistersResponse*>(nullptr)); }
    case ref::WriteCoil: { WriteSingleCoilRequest q{}; q.value.address = a; q.value.value = r.vals.at(0) != 0; return f(q, static_cast<WriteSingleCoilResponse*>(nullptr)); }
    case ref::WriteReg: { WriteSingleRegisterRequest q{}; q.value.address = a; q.value.value = r.vals.at(0); return f(q, static_cast<WriteSingleRegisterResponse*>(nullptr)); }
    case ref::WriteCoils: { WriteMultipleCoilsRequest q{}; q.starting_address = a; q.values.assign(r.vals.begin(), r.vals.end()); return f(q, static_cast<WriteMultipleCoilsResponse*>(nullptr)); }
    default: { WriteMultipleRegistersRequest q{}; q.starting_address = a; q.values = r.vals; return f(q, static_cast<WriteMultipleRegistersResponse*>(nullptr)); }
    }
}
inline void send(modbus::IClientSession& s, const Req& r, const dur* timeout, Handler h)
{
    with_request(r, [&](const auto& q, auto* resp) { send_as<std::decay_t<decltype(q)>, std::remove_pointer_t<decltype(resp)>>(s, q, timeout, h); });
}
// The four read kinds only.
inline std::shared_ptr<modbus::IScheduledRequest> schedule(modbus::IClientSession& s, const Req& r, const dur* timeout, dur period, Handler h)
{
    using namespace modbus;
    const auto a = static_cast<Address>(r.addr);
    auto go = [&](const auto& q, auto* resp) {
        using R = std::remove_pointer_t<decltype(resp)>;
        ResponseHandler<R> f = [h](const Expected<R>& e) { h(outcome(e)); };
        return timeout ? s.schedule_request(q, *timeout, period, f) : s.schedule_request(q, period, f);
    };
    switch(r.kind)
    {
    case ref::ReadCoils: { ReadCoilsRequest q{}; q.starting_address = a; q.qty_of_bits = static_cast<uint16_t>(r.qty); return go(q, static_cast<ReadCoilsResponse*>(nullptr)); }
    case ref::ReadDiscrete: { ReadDiscreteInputsRequest q{}; q.starting_address = a; q.qty_of_bits = static_cast<uint16_t>(r.qty); return go(q, static_cast<ReadDiscreteInputsResponse*>(nullptr)); }
    case ref::ReadHolding: { ReadHoldingRegistersRequest q{}; q.starting_address = a; q.qty_of_registers = static_cast<uint16_t>(r.qty); return go(q, static_cast<ReadHoldingRegistersResponse*>(nullptr)); }
    default: { ReadInputRegistersRequest q{}; q.starting_address = a; q.qty_of_registers = static_cast<uint16_t>(r.qty); return go(q, static_cast<ReadInputRegistersResponse*>(nullptr)); }
    }
}

// Errors the system may report.
inline const std::vector<asio::error_code>& system_errors()
{
    static const std::vector<asio::error_code> v = [] {
        std::vector<asio::error_code> r;
        for(auto e : {std::errc::connection_refused, std::errc::connection_reset, std::errc::timed_out, std::errc::host_unreachable, std::errc::network_unreachable, std::errc::network_down, std::errc::network_reset, std::errc::broken_pipe, std::errc::connection_aborted,
                      std::errc::not_connected, std::errc::permission_denied, std::errc::operation_not_permitted, std::errc::address_not_available, std::errc::no_buffer_space, std::errc::not_enough_memory, std::errc::invalid_argument, std::errc::protocol_error, std::errc::io_error, std::errc::too_many_files_open, std::errc::bad_file_descriptor, std::errc::interrupted, std::errc::resource_unavailable_try_again, std::errc::address_in_use, std::errc::already_connected, std::errc::message_size, std::errc::not_a_socket, std::errc::operation_not_supported, std::errc::connection_already_in_progress})
            r.push_back({static_cast<int>(e), std::system_category()}); // as asio reports them
        return r;
    }();
    return v;
}

// Makes a fresh world for this execution, and on every exit destroys what is left of it in the right order.
struct World
{
    sim::World& w = sim::world();
    World() { w.reset(); }
    ~World() { w.reset(); }
    World(const World&) = delete;
    sim::World* operator->() const { return &w; }
};

// Operations that are aborted (their socket is closed, their timer cancelled) report at once, unless a deviation
// lets the next handler run before that. For worlds with defer_aborts.
struct Aborts
{
    bool later = false;
    // Is there anything to run? Whatever has to report by now is queued.
    template <class W> bool more(W& w, mc::Ctx& c, bool races = true)
    {
        if(!w->deferred.empty())
        {
            if(!later && races && w->has_ready() && c.can_deviate()) later = c.deviate(2, "what was aborted reports after the next handler") == 1;
            if(!later || !w->has_ready()) w->flush_deferred();
        }
        return w->has_ready();
    }
    void ran() { later = false; }
};

// A client channel whose network answers at once.
struct Client
{
    mc::Ctx& c;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IClientChannel> chan;
    std::shared_ptr<sim::Conn> conn;

    explicit Client(mc::Ctx& ctx, modbus::LoggingLevel level = modbus::LoggingLevel::Critical) : c(ctx)
    {
        man = modbus::IModbusManager::create(null_logger(), 1);
        chan = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"10.0.0.1", 502}, "", level);
    }
    ~Client() { chan.reset(); man.reset(); }
    std::shared_ptr<modbus::IClientSession> session(unsigned unit, dur timeout = 1s) { return chan->create_session(UnitIdentifier{static_cast<uint8_t>(unit)}, timeout); }
    // Runs what is queued, letting every resolution and connection attempt succeed.
    void settle()
    {
        for(;;)
        {
            w->drain();
            if(!w->resolves.empty()) { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); continue; }
            if(auto s = w->pending_connect()) { conn = w->complete_connect(s, {}); continue; }
            return;
        }
    }
};

} // namespace hw

#endif
