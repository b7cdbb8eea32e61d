// Modbus/TCP as the specification has it, written independently of the library: frames, request and response
// PDUs, limits, and what a client or a server must make of any PDU.
#ifndef HARNESS_MODBUS_REF_HPP
#define HARNESS_MODBUS_REF_HPP

#include <cstdint>
#include <string>
#include <vector>

namespace ref
{
using Bytes = std::vector<uint8_t>;

enum Kind { ReadCoils, ReadDiscrete, ReadHolding, ReadInput, WriteCoil, WriteReg, WriteCoils, WriteRegs };
constexpr int Kinds = 8;
inline uint8_t fc(int k) { static const uint8_t f[] = {1, 2, 3, 4, 5, 6, 15, 16}; return f[k]; }
inline int kind_of(uint8_t f) { for(int k = 0; k < Kinds; ++k) if(fc(k) == f) return k; return -1; }
inline const char* name(int k)
{
    static const char* n[] = {"read coils", "read discrete inputs", "read holding registers", "read input registers",
                              "write single coil", "write single register", "write multiple coils", "write multiple registers"};
    return n[k];
}
inline bool is_read(int k) { return k < 4; }
inline bool is_bits(int k) { return k == ReadCoils || k == ReadDiscrete || k == WriteCoil || k == WriteCoils; }
inline bool is_single(int k) { return k == WriteCoil || k == WriteReg; }
inline bool is_multi(int k) { return k >= WriteCoils; }
inline uint32_t max_qty(int k)
{
    static const uint32_t m[] = {2000, 2000, 125, 125, 1, 1, 1968, 123};
    return m[k];
}

struct Req
{
    int kind = 0;
    uint32_t addr = 0;
    uint32_t qty = 1;                 // reads; for writes it is vals.size()
    std::vector<uint16_t> vals;       // writes (coils: 0/1)
    uint32_t count() const { return is_read(kind) ? qty : static_cast<uint32_t>(vals.size()); }
    bool operator==(const Req& o) const { return kind == o.kind && addr == o.addr && count() == o.count() && (is_read(kind) || vals == o.vals); }
};
inline bool valid(const Req& r) { return is_single(r.kind) || (r.count() >= 1 && r.count() <= max_qty(r.kind)); }

inline void put16(Bytes& b, uint32_t v) { b.push_back(static_cast<uint8_t>(v >> 8)); b.push_back(static_cast<uint8_t>(v)); }
inline uint32_t get16(const Bytes& b, size_t i) { return static_cast<uint32_t>(b[i]) << 8 | b[i + 1]; }
template<typename V> void put_bits(Bytes& b, const V& v)
{
    const size_t at = b.size();
    b.resize(at + (v.size() + 7) / 8, 0);
    for(size_t i = 0; i < v.size(); ++i) if(v[i]) b[at + i / 8] = static_cast<uint8_t>(b[at + i / 8] | 1u << (i % 8));
}

inline Bytes request_pdu(const Req& r)
{
    Bytes b{fc(r.kind)};
    put16(b, r.addr);
    if(is_read(r.kind)) { put16(b, r.qty); return b; }
    if(r.kind == WriteCoil) { put16(b, r.vals.at(0) ? 0xFF00 : 0); return b; }
    if(r.kind == WriteReg) { put16(b, r.vals.at(0)); return b; }
    put16(b, static_cast<uint32_t>(r.vals.size()));
    if(r.kind == WriteCoils) { b.push_back(static_cast<uint8_t>((r.vals.size() + 7) / 8)); put_bits(b, r.vals); }
    else { b.push_back(static_cast<uint8_t>(2 * r.vals.size())); for(auto v : r.vals) put16(b, v); }
    return b;
}
// The normal response to a request (reads: with these values).
inline Bytes response_pdu(const Req& r, const std::vector<uint16_t>& vals = {})
{
    Bytes b{fc(r.kind)};
    switch(r.kind)
    {
    case ReadCoils: case ReadDiscrete: b.push_back(static_cast<uint8_t>((vals.size() + 7) / 8)); put_bits(b, vals); break;
    case ReadHolding: case ReadInput: b.push_back(static_cast<uint8_t>(2 * vals.size())); for(auto v : vals) put16(b, v); break;
    case WriteCoil: put16(b, r.addr); put16(b, r.vals.at(0) ? 0xFF00 : 0); break;
    case WriteReg: put16(b, r.addr); put16(b, r.vals.at(0)); break;
    default: put16(b, r.addr); put16(b, static_cast<uint32_t>(r.vals.size()));
    }
    return b;
}
inline Bytes exception_pdu(int fcode, int code) { return {static_cast<uint8_t>(fcode | 0x80), static_cast<uint8_t>(code)}; }
inline Bytes frame(uint32_t tid, uint32_t unit, const Bytes& pdu, uint32_t protocol = 0, int length = -1)
{
    Bytes b;
    put16(b, tid);
    put16(b, protocol);
    put16(b, length < 0 ? static_cast<uint32_t>(pdu.size() + 1) : static_cast<uint32_t>(length));
    b.push_back(static_cast<uint8_t>(unit));
    b.insert(b.end(), pdu.begin(), pdu.end());
    return b;
}

// What a handler is told.
struct Out
{
    char type = '?';                 // D data, E Modbus exception, M malformed response, Q malformed request, C connection error, T timeout
    uint32_t code = 0;               // E: exception code (0xFF: unknown)
    std::vector<uint32_t> data;      // D: address, value, address, value, ... or address, value or address, quantity
    bool operator==(const Out& o) const { return type == o.type && code == o.code && data == o.data; }
    bool operator!=(const Out& o) const { return !(*this == o); }
    std::string str() const
    {
        std::string s;
        switch(type)
        {
        case 'D': s = "data"; break;
        case 'E': return "Modbus exception " + std::to_string(code);
        case 'M': return "malformed response";
        case 'Q': return "malformed request";
        case 'C': return "connection error";
        case 'T': return "timeout";
        default: return "unexpected error";
        }
        for(size_t i = 0; i < data.size() && i < 24; ++i) s += (i % 2 ? "=" : " ") + std::to_string(data[i]);
        if(data.size() > 24) s += " ... (" + std::to_string(data.size() / 2) + " values)";
        return s;
    }
};
inline uint32_t exception_code(uint8_t c)
{
    switch(c) { case 1: case 2: case 3: case 4: case 5: case 6: case 8: case 10: case 11: return c; default: return 0xFF; }
}
// What the handler of `r` must be told when the PDU `p` answers it.
inline Out decode_response(const Req& r, const Bytes& p)
{
    Out o;
    o.type = 'M';
    if(p.empty()) return o;
    if(p[0] == (fc(r.kind) | 0x80))
    {
        if(p.size() == 2) { o.type = 'E'; o.code = exception_code(p[1]); }
        return o;
    }
    if(p[0] != fc(r.kind)) return o;
    if(is_read(r.kind))
    {
        const size_t bytes = is_bits(r.kind) ? (r.qty + 7) / 8 : 2 * static_cast<size_t>(r.qty);
        if(p.size() != 2 + bytes || p[1] != bytes) return o;
        o.type = 'D';
        for(uint32_t i = 0; i < r.qty; ++i)
        {
            o.data.push_back((r.addr + i) & 0xFFFF);
            o.data.push_back(is_bits(r.kind) ? p[2 + i / 8] >> (i % 8) & 1u : get16(p, 2 + 2 * static_cast<size_t>(i)));
        }
        return o;
    }
    if(p.size() != 5) return o;
    const uint32_t v = get16(p, 3);
    if(r.kind == WriteCoil && v != 0xFF00 && v != 0) return o;
    o.type = 'D';
    o.data = {get16(p, 1), r.kind == WriteCoil ? (v ? 1u : 0u) : v};
    return o;
}

// What a server must make of a PDU: nothing, an exception at once, or a request for the session.
struct Verdict { enum What { Silent, Exception, Request } what = Silent; int code = 0; Req req; };
inline Verdict decode_request(const Bytes& p)
{
    Verdict v;
    if(p.empty()) return v;
    const int k = kind_of(p[0]);
    if(k < 0) { v.what = Verdict::Exception; v.code = 1; return v; }
    v.req.kind = k;
    auto bad = [&] { v.what = Verdict::Exception; v.code = 3; return v; };
    if(!is_multi(k))
    {
        if(p.size() != 5) return v;
        v.req.addr = get16(p, 1);
        const uint32_t x = get16(p, 3);
        if(is_read(k)) { v.req.qty = x; if(x < 1 || x > max_qty(k)) return bad(); }
        else if(k == WriteCoil) { if(x != 0 && x != 0xFF00) return bad(); v.req.vals = {static_cast<uint16_t>(x ? 1 : 0)}; }
        else v.req.vals = {static_cast<uint16_t>(x)};
        v.what = Verdict::Request;
        return v;
    }
    if(p.size() < 6) return v;
    v.req.addr = get16(p, 1);
    const uint32_t n = get16(p, 3), bytes = p[5];
    if(n < 1 || n > max_qty(k)) return bad();
    if(bytes != (k == WriteCoils ? (n + 7) / 8 : 2 * n)) return bad();
    if(p.size() != 6 + bytes) return v;
    for(uint32_t i = 0; i < n; ++i) v.req.vals.push_back(static_cast<uint16_t>(k == WriteCoils ? p[6 + i / 8] >> (i % 8) & 1 : get16(p, 6 + 2 * static_cast<size_t>(i))));
    v.what = Verdict::Request;
    return v;
}

inline std::string hex(const Bytes& b, size_t limit = 40)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    for(size_t i = 0; i < b.size() && i < limit; ++i) { if(i) s += ' '; s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if(b.size() > limit) s += " ... (" + std::to_string(b.size()) + " bytes)";
    return s;
}

// Splits a byte stream into frames.
struct Frame { uint32_t tid = 0, protocol = 0, length = 0, unit = 0; Bytes pdu; size_t begin = 0, end = 0; };
inline bool next_frame(const Bytes& b, size_t at, Frame& f)
{
    if(b.size() < at + 7) return false;
    f.begin = at;
    f.tid = get16(b, at);
    f.protocol = get16(b, at + 2);
    f.length = get16(b, at + 4);
    f.unit = b[at + 6];
    if(f.length < 1 || b.size() < at + 6 + f.length) return false;
    f.end = at + 6 + f.length;
    f.pdu.assign(b.begin() + static_cast<long>(at) + 7, b.begin() + static_cast<long>(f.end));
    return true;
}

} // namespace ref

#endif
