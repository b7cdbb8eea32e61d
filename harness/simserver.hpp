// A server channel in the simulated world, and a session that records what it is asked.
#ifndef HARNESS_SIMSERVER_HPP
#define HARNESS_SIMSERVER_HPP

#include "simworld.hpp"

namespace hw
{

struct OtherError { int x = 0; };

// What the session answers.
struct Reply { enum What { Values, Exception, Other } what = Values; int code = 0; };

inline uint16_t reg_value(uint32_t addr, uint32_t salt) { return static_cast<uint16_t>((addr * 40503u + salt * 77u + 0x1234u) ^ (addr >> 3)); }
inline bool bit_value(uint32_t addr, uint32_t salt) { return (reg_value(addr, salt) >> (addr % 13)) & 1; }

struct RecSession : modbus::IServerSession
{
    std::vector<Req> asked;
    int shutdowns = 0;
    uint32_t salt = 0;
    Reply reply;
    std::function<void()> on_call;

    void shutdown() override { ++shutdowns; }
    template<typename R, typename F> modbus::Expected<R> answer(Req r, F fill)
    {
        asked.push_back(std::move(r));
        if(on_call) on_call();
        if(reply.what == Reply::Exception) return modbus::Expected<R>::from_exception(modbus::ModbusException{static_cast<modbus::ExceptionType>(reply.code)});
        if(reply.what == Reply::Other) return modbus::Expected<R>::from_exception(OtherError{});
        R resp{};
        fill(resp);
        return modbus::Expected<R>{resp};
    }
    static Req rd(int k, uint32_t a, uint32_t n) { Req r; r.kind = k; r.addr = a; r.qty = n; return r; }
    static Req wr(int k, uint32_t a, std::vector<uint16_t> v) { Req r; r.kind = k; r.addr = a; r.vals = std::move(v); return r; }
    template<typename R, typename Q> modbus::Expected<R> bits(int k, const Q& q)
    {
        return answer<R>(rd(k, q.starting_address, q.qty_of_bits), [&](R& r) { for(uint32_t i = 0; i < q.qty_of_bits; ++i) r.values.push_back({static_cast<modbus::Address>(q.starting_address + i), bit_value(q.starting_address + i, salt)}); });
    }
    template<typename R, typename Q> modbus::Expected<R> regs(int k, const Q& q)
    {
        return answer<R>(rd(k, q.starting_address, q.qty_of_registers), [&](R& r) { for(uint32_t i = 0; i < q.qty_of_registers; ++i) r.values.push_back({static_cast<modbus::Address>(q.starting_address + i), reg_value(q.starting_address + i, salt)}); });
    }
    modbus::Expected<modbus::ReadCoilsResponse> on_request(const modbus::ReadCoilsRequest& q) override { return bits<modbus::ReadCoilsResponse>(ref::ReadCoils, q); }
    modbus::Expected<modbus::ReadDiscreteInputsResponse> on_request(const modbus::ReadDiscreteInputsRequest& q) override { return bits<modbus::ReadDiscreteInputsResponse>(ref::ReadDiscrete, q); }
    modbus::Expected<modbus::ReadHoldingRegistersResponse> on_request(const modbus::ReadHoldingRegistersRequest& q) override { return regs<modbus::ReadHoldingRegistersResponse>(ref::ReadHolding, q); }
    modbus::Expected<modbus::ReadInputRegistersResponse> on_request(const modbus::ReadInputRegistersRequest& q) override { return regs<modbus::ReadInputRegistersResponse>(ref::ReadInput, q); }
    modbus::Expected<modbus::WriteSingleCoilResponse> on_request(const modbus::WriteSingleCoilRequest& q) override
    {
        return answer<modbus::WriteSingleCoilResponse>(wr(ref::WriteCoil, q.value.address, {static_cast<uint16_t>(q.value.value)}), [&](auto& r) { r.value = q.value; });
    }
    modbus::Expected<modbus::WriteSingleRegisterResponse> on_request(const modbus::WriteSingleRegisterRequest& q) override
    {
        return answer<modbus::WriteSingleRegisterResponse>(wr(ref::WriteReg, q.value.address, {q.value.value}), [&](auto& r) { r.value = q.value; });
    }
    modbus::Expected<modbus::WriteMultipleCoilsResponse> on_request(const modbus::WriteMultipleCoilsRequest& q) override
    {
        return answer<modbus::WriteMultipleCoilsResponse>(wr(ref::WriteCoils, q.starting_address, std::vector<uint16_t>(q.values.begin(), q.values.end())), [&](auto& r) { r.starting_address = q.starting_address; r.qty_of_coils = static_cast<uint16_t>(q.values.size()); });
    }
    modbus::Expected<modbus::WriteMultipleRegistersResponse> on_request(const modbus::WriteMultipleRegistersRequest& q) override
    {
        return answer<modbus::WriteMultipleRegistersResponse>(wr(ref::WriteRegs, q.starting_address, q.values), [&](auto& r) { r.starting_address = q.starting_address; r.qty_of_registers = static_cast<uint16_t>(q.values.size()); });
    }
};
// The frame this session's answer makes (empty: no answer).
inline Bytes session_pdu(const Req& r, const Reply& reply, uint32_t salt)
{
    if(reply.what == Reply::Exception) return ref::exception_pdu(ref::fc(r.kind), reply.code);
    if(reply.what == Reply::Other) return {};
    std::vector<uint16_t> v;
    if(ref::is_read(r.kind)) for(uint32_t i = 0; i < r.qty; ++i) v.push_back(ref::is_bits(r.kind) ? bit_value(r.addr + i, salt) : reg_value(r.addr + i, salt));
    return ref::response_pdu(r, v);
}

struct Server
{
    mc::Ctx& c;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IServerChannel> chan;

    explicit Server(mc::Ctx& ctx, unsigned max = 16, modbus::LoggingLevel level = modbus::LoggingLevel::Critical, bool start = true) : c(ctx)
    {
        man = modbus::IModbusManager::create(null_logger(), 1);
        chan = man->create_server_tcp_channel("s", modbus::Ipv4Endpoint{"0.0.0.0", 502}, max, level);
        if(start) chan->start();
    }
    ~Server() { chan.reset(); man.reset(); }
    std::shared_ptr<RecSession> add(unsigned unit, uint32_t salt = 0)
    {
        auto s = std::make_shared<RecSession>();
        s->salt = salt;
        chan->add_session(UnitIdentifier{static_cast<uint8_t>(unit)}, s);
        return s;
    }
    std::shared_ptr<sim::Conn> connect()
    {
        w->drain();
        auto k = w->incoming(502);
        w->drain();
        return k;
    }
};

} // namespace hw

#endif
