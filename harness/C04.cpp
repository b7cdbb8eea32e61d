// C04: what is handled depends on the byte stream only, not on its segmentation, and odd frames never
// desynchronise it.
#include "simserver.hpp"

using namespace hw;
using mc::Ctx;

namespace
{

enum Item { Small, Large, Foreign, LengthZero, Empty, UnknownUnit, MaxUnknownFunction, OverByOne, Oversize, ForeignOversize, ForeignEmpty, ForeignLengthZero, Items };
const char* item_name(int i)
{
    static const char* n[] = {"small request", "largest write", "foreign protocol", "length 0", "empty PDU", "unknown unit", "largest frame of an unknown function",
                              "one byte too long", "300 bytes too long", "foreign protocol and too long", "foreign protocol, empty PDU", "foreign protocol, length 0"};
    return n[i];
}

// The bytes of an item; `salt` varies identifiers and contents.
Bytes server_item(int i, uint32_t tid, uint32_t salt)
{
    Req small;
    small.kind = ref::ReadHolding;
    small.addr = salt & 0xFFFF;
    small.qty = 1 + salt % 5;
    const Bytes ask = ref::request_pdu(small);
    auto body = [&](size_t n) { Bytes b; while(b.size() < n) { const Bytes f = ref::frame(tid, 7, ask); b.insert(b.end(), f.begin(), f.end()); } b.resize(n); return b; };
    switch(i)
    {
    case Small: return ref::frame(tid, 7, ask);
    case Large:
    {
        Req r;
        r.kind = ref::WriteCoils;
        r.addr = salt & 0xFF;
        for(uint32_t x = 0; x < 1968; ++x) r.vals.push_back(static_cast<uint16_t>((x * 7 + salt) % 5 == 0));
        return ref::frame(tid, 7, ref::request_pdu(r));
    }
    case Foreign: return ref::frame(tid, 7, ask, 1 + salt % 3);
    case LengthZero: return ref::frame(tid, 7, {}, 0, 0);
    case Empty: return ref::frame(tid, 7, {});
    case UnknownUnit: return ref::frame(tid, 8, ask);
    case MaxUnknownFunction: { Bytes p = body(253); p[0] = static_cast<uint8_t>(0x40 + salt % 32); return ref::frame(tid, 7, p); }
    case OverByOne: { Bytes p = body(254); p[0] = static_cast<uint8_t>(0x20 + salt % 32); return ref::frame(tid, 7, p); }
    case Oversize: { Bytes p = body(553); p[0] = static_cast<uint8_t>(salt % 7 == 0 ? 3 : 0x20 + salt % 32); return ref::frame(tid, 7, p); }
    case ForeignOversize: { Bytes p = body(400); return ref::frame(tid, 7, p, 0x0100); }
    case ForeignEmpty: return ref::frame(tid, 7, {}, 0x8000);
    default: return ref::frame(tid, 7, {}, 2, 0);
    }
}
bool oversize(int i) { return i == OverByOne || i == Oversize; }

struct Mark { size_t at; Bytes tx; size_t asked; };

struct ServerBench : Server
{
    std::shared_ptr<RecSession> s;
    std::shared_ptr<sim::Conn> a, b;
    uint32_t salt = 1;
    explicit ServerBench(Ctx& ctx) : Server(ctx)
    {
        s = add(7, 5);
        a = connect();
        b = connect();
        if(!a || !b) c.fail("a started server does not listen");
    }
    void feed(const std::shared_ptr<sim::Conn>& k, const Bytes& stream, size_t from, size_t to)
    {
        k->deliver(Bytes(stream.begin() + static_cast<long>(from), stream.begin() + static_cast<long>(to)));
        w->drain();
        c.step();
    }
    void clear(const std::shared_ptr<sim::Conn>& k) { k->tx.clear(); k->tx_marks.clear(); s->asked.clear(); }
    // Byte by byte, against the reference; returns what was answered after each byte.
    std::vector<Mark> baseline(const std::vector<int>& items, Bytes& stream)
    {
        std::vector<Mark> marks;
        clear(a);
        Bytes want;
        size_t asked = 0;
        for(size_t i = 0; i < items.size(); ++i)
        {
            const uint32_t tid = (salt * 16 + static_cast<uint32_t>(i)) & 0xFFFF;
            const Bytes f = server_item(items[i], tid, salt + static_cast<uint32_t>(i));
            const size_t base = stream.size();
            stream.insert(stream.end(), f.begin(), f.end());
            for(size_t at = base; at < stream.size(); ++at)
            {
                feed(a, stream, at, at + 1);
                c.checked();
                if(at + 1 == stream.size())
                {
                    Bytes expect;
                    bool tolerant = false;
                    if(items[i] == Small || items[i] == Large)
                    {
                        const auto v = ref::decode_request(Bytes(f.begin() + 7, f.end()));
                        expect = ref::frame(tid, 7, session_pdu(v.req, s->reply, s->salt));
                        ++asked;
                    }
                    else if(items[i] == MaxUnknownFunction) expect = ref::frame(tid, 7, ref::exception_pdu(f[7], 1));
                    else if(oversize(items[i])) tolerant = true;
                    if(tolerant && a->tx.size() != want.size())
                    {
                        // an over-long frame may be refused with an exception, but nothing else
                        ref::Frame r;
                        if(!ref::next_frame(a->tx, want.size(), r) || r.end != a->tx.size() || r.tid != tid || r.unit != 7 || r.pdu.size() != 2 || !(r.pdu[0] & 0x80)) c.fail("an over-long frame was answered with %s", ref::hex(a->tx).c_str());
                        want = a->tx;
                    }
                    else want.insert(want.end(), expect.begin(), expect.end());
                }
                if(a->tx != want) c.fail("byte by byte: after byte %zu (%s) the answers are '%s', expected '%s'", at + 1, item_name(items[i]), ref::hex(a->tx, 80).c_str(), ref::hex(want, 80).c_str());
                if(s->asked.size() != asked) c.fail("byte by byte: after byte %zu (%s) the session was asked %zu times, expected %zu", at + 1, item_name(items[i]), s->asked.size(), asked);
                marks.push_back({at + 1, {}, asked});
                marks.back().tx = want;
            }
        }
        ++salt;
        return marks;
    }
    void segmented(const Bytes& stream, const std::vector<Mark>& marks, const std::vector<size_t>& cuts)
    {
        clear(b);
        size_t from = 0;
        for(size_t i = 0; i <= cuts.size(); ++i)
        {
            const size_t to = i < cuts.size() ? cuts[i] : stream.size();
            if(to <= from) continue;
            feed(b, stream, from, to);
            c.checked();
            if(b->tx != marks[to - 1].tx || s->asked.size() != marks[to - 1].asked)
            {
                std::string where;
                for(auto x : cuts) where += " " + std::to_string(x);
                c.fail("cut at%s: after byte %zu of %zu the answers are '%s' (session asked %zu times), byte by byte they are '%s' (%zu times)", where.c_str(), to, stream.size(), ref::hex(b->tx, 80).c_str(), s->asked.size(), ref::hex(marks[to - 1].tx, 80).c_str(), marks[to - 1].asked);
            }
            from = to;
        }
    }
};

std::vector<int> choose_items(Ctx& c, int depth)
{
    std::vector<int> v;
    for(int i = 0; i < depth; ++i) { v.push_back(c.choose(Items, "frame")); c.note("%s", item_name(v.back())); }
    return v;
}
// Positions worth cutting at: everything for short streams; around frame and header ends, and some in between, for long ones.
std::vector<size_t> positions(const Bytes& stream, const std::vector<size_t>& ends)
{
    std::vector<size_t> p;
    for(size_t i = 1; i < stream.size(); ++i)
    {
        bool near = stream.size() <= 60 || i % 97 == 0;
        size_t begin = 0;
        for(auto e : ends) { if((i >= begin && i <= begin + 9) || (i + 2 >= e && i <= e + 1) || i == begin + 260 || i == begin + 259 || i == begin + 261) near = true; begin = e; }
        if(near) p.push_back(i);
    }
    return p;
}
// A stream of `depth` frames: one read, byte by byte, every cut, every pair of cuts.
void streams(Ctx& c, int depth, int cuts)
{
    auto items = choose_items(c, depth);
    ServerBench b{c};
    items.push_back(Small); // whatever came before, the next request is served
    for(int round = 0; round < 2; ++round)
    {
        Bytes stream;
        const auto marks = b.baseline(items, stream);
        std::vector<size_t> ends;
        size_t at = 0;
        ref::Frame f;
        for(size_t i = 0; i < items.size(); ++i) { const Bytes x = server_item(items[i], 0, b.salt - 1 + static_cast<uint32_t>(i)); at += x.size(); ends.push_back(at); }
        (void)f;
        b.segmented(stream, marks, {});
        const auto pos = positions(stream, ends);
        for(size_t i = 0; i < pos.size(); ++i)
        {
            b.segmented(stream, marks, {pos[i]});
            if(cuts > 1 && round == 0) for(size_t j = i + 1; j < pos.size(); ++j) b.segmented(stream, marks, {pos[i], pos[j]});
        }
        for(size_t piece : {2, 3, 5, 7, 11, 64, 255, 259, 260, 261}) { std::vector<size_t> k; for(size_t x = piece; x < stream.size(); x += piece) k.push_back(x); b.segmented(stream, marks, k); }
    }
    c.nontrivial();
}
// Every one of the 2^(n-1) ways to cut one request (12 bytes) followed by each odd short frame.
void all_cuts(Ctx& c)
{
    static const int shorts[] = {Small, LengthZero, Empty, ForeignEmpty, ForeignLengthZero};
    const int first = shorts[c.choose(5, "frame")];
    const int block = c.choose(16, "block");
    ServerBench b{c};
    Bytes stream;
    const std::vector<int> items = first == Small ? std::vector<int>{Small} : std::vector<int>{first, Small};
    const auto marks = b.baseline(items, stream);
    const size_t n = std::min<size_t>(stream.size() - 1, 16);
    for(uint32_t m = static_cast<uint32_t>(block); m < 1u << n; m += 16)
    {
        std::vector<size_t> cuts;
        for(size_t i = 0; i < n; ++i) if(m >> i & 1) cuts.push_back(i + 1);
        b.segmented(stream, marks, cuts);
    }
    c.nontrivial();
}
// Long coalesced streams around the size of the read buffer.
void long_reads(Ctx& c)
{
    const int shift = c.choose(14, "shift");
    const int kind = c.choose(4, "mix");
    ServerBench b{c};
    std::vector<int> items;
    size_t total = 0;
    static const int mixes[4][3] = {{Small, Small, Small}, {Small, Empty, Small}, {Large, Small, LengthZero}, {Oversize, Small, Foreign}};
    for(size_t i = 0; total < 9000; ++i)
    {
        items.push_back(mixes[kind][i % 3]);
        total += server_item(items.back(), 0, 0).size();
    }
    Bytes stream;
    const auto marks = b.baseline(items, stream);
    b.segmented(stream, marks, {});
    for(size_t first : {size_t{1}, size_t{6}, size_t{7}, size_t{8}, size_t{11}, size_t{12}, size_t{13}}) b.segmented(stream, marks, {first + static_cast<size_t>(shift), 4096 + first + static_cast<size_t>(shift)});
    for(size_t edge : {size_t{4095}, size_t{4096}, size_t{4097}, size_t{8191}, size_t{8192}}) b.segmented(stream, marks, {edge - static_cast<size_t>(shift)});
    c.nontrivial();
}
// Two connections whose frames arrive in turns, each in two pieces or three: each is handled as if it were alone.
void interleaved(Ctx& c)
{
    static const int mine[] = {Small, Large, MaxUnknownFunction, Oversize, ForeignOversize};
    const int first = mine[c.choose(5, "frame on one connection")], second = c.choose(Items, "frame on the other");
    const int order = c.choose(2, "order of the last pieces");
    ServerBench b{c};
    auto other = b.connect();
    Bytes one, two;
    const auto m1 = b.baseline({first, Small}, one);
    const auto m2 = b.baseline({second, Small}, two);
    auto ends = [&](int it, const Bytes& s) { const size_t n = server_item(it, 0, 0).size(); (void)s; return std::vector<size_t>{n, s.size()}; };
    const auto p1 = positions(one, ends(first, one)), p2 = positions(two, ends(second, two));
    for(size_t i : p1)
        for(size_t j : p2)
        {
            b.clear(b.b);
            b.clear(other);
            size_t done1 = 0, done2 = 0;
            auto piece = [&](bool which, size_t to) {
                size_t& from = which ? done2 : done1;
                b.feed(which ? other : b.b, which ? two : one, from, to);
                from = to;
                c.checked();
                const Bytes none;
                const Bytes& w1 = done1 ? m1[done1 - 1].tx : none;
                const Bytes& w2 = done2 ? m2[done2 - 1].tx : none;
                const size_t asked = (done1 ? m1[done1 - 1].asked : 0) + (done2 ? m2[done2 - 1].asked : 0);
                if(b.b->tx != w1 || other->tx != w2 || b.s->asked.size() != asked)
                    c.fail("%s cut at %zu on one connection, %s cut at %zu on another: after bytes %zu and %zu the answers are '%s' and '%s' (session asked %zu times), alone they are '%s' and '%s' (%zu times)", item_name(first), i, item_name(second), j, done1, done2,
                           ref::hex(b.b->tx, 60).c_str(), ref::hex(other->tx, 60).c_str(), b.s->asked.size(), ref::hex(w1, 60).c_str(), ref::hex(w2, 60).c_str(), asked);
            };
            piece(false, i);
            piece(true, j);
            piece(order != 0, order ? two.size() : one.size());
            piece(order == 0, order ? one.size() : two.size());
        }
    c.nontrivial();
}
// Frames that announce up to 65535 bytes.
void huge(Ctx& c)
{
    static const int lengths[] = {254, 255, 256, 257, 259, 260, 261, 300, 512, 4096, 32768, 65534, 65535};
    const int length = lengths[c.choose(13, "length")];
    const int protocol = c.choose(2, "protocol");
    const int first = c.choose(3, "function");
    ServerBench b{c};
    Bytes stream = server_item(Small, 1, 3);
    Bytes pdu(static_cast<size_t>(length) - 1, 0x00);
    const Bytes ask = server_item(Small, 77, 9);
    for(size_t i = 1; i < pdu.size(); ++i) pdu[i] = ask[(i - 1) % ask.size()];
    pdu[0] = static_cast<uint8_t>(first == 0 ? 3 : first == 1 ? 16 : 0x41);
    const Bytes big = ref::frame(2, 7, pdu, static_cast<uint32_t>(protocol));
    stream.insert(stream.end(), big.begin(), big.end());
    const size_t mid = stream.size();
    const Bytes last = server_item(Small, 3, 4);
    stream.insert(stream.end(), last.begin(), last.end());
    Bytes end_tx;
    const bool taken = length <= 254 && protocol == 0; // not over-long: decoded as usual
    for(int way = 0; way < 6; ++way)
    {
        auto k = b.connect();
        b.s->asked.clear();
        const size_t piece = way == 0 ? 1 : way == 1 ? stream.size() : way == 2 ? 4096 : way == 3 ? 1000 : way == 4 ? 12 + 7 : 260;
        size_t at = 0;
        Bytes mid_tx;
        while(at < stream.size())
        {
            const size_t to = std::min(stream.size(), at + piece);
            b.feed(k, stream, at, to);
            at = to;
            if(at <= mid && at > 12 && !taken && b.s->asked.size() != 1) c.fail("part of a frame announcing %d bytes reached the session", length);
        }
        c.checked();
        if(way == 0) end_tx = k->tx;
        if(k->tx != end_tx) c.fail("a frame announcing %d bytes in pieces of %zu: answers '%s', byte by byte '%s'", length, piece, ref::hex(k->tx, 90).c_str(), ref::hex(end_tx, 90).c_str());
        if(b.s->asked.size() != 2) c.fail("a frame announcing %d bytes in pieces of %zu: the session was asked %zu times, expected 2 (the requests before and after)", length, piece, b.s->asked.size());
    }
    c.nontrivial();
}

// ---- client side ----
enum CItem { Answer, WrongTid, WrongUnit, CForeign, CLengthZero, CEmptyOther, COversizeOther, COversizeOwn, CMaxOther, CExceptionOther, CForeignOversize, CEmptyOwn, CItems };
const char* citem_name(int i)
{
    static const char* n[] = {"the answer", "other transaction", "other unit", "foreign protocol", "length 0", "empty PDU of another transaction", "over-long frame of another transaction",
                              "over-long frame of this transaction", "largest frame of another transaction", "exception of another transaction", "foreign protocol and too long", "empty PDU of this transaction"};
    return n[i];
}
Req client_req(uint32_t salt)
{
    Req r;
    r.kind = salt % 2 ? ref::ReadHolding : ref::ReadCoils;
    r.addr = salt & 0xFFFF;
    r.qty = salt % 2 ? 1 + salt % 3 : 2000;
    return r;
}
Bytes client_item(int i, uint32_t tid, uint32_t salt)
{
    const Req r = client_req(salt);
    std::vector<uint16_t> v;
    for(uint32_t x = 0; x < r.qty; ++x) v.push_back(static_cast<uint16_t>(r.kind == ref::ReadCoils ? (x * 3 + salt) % 7 < 3 : x * 1000 + salt));
    const Bytes answer = ref::response_pdu(r, v);
    auto body = [&](size_t n) { Bytes b = answer; while(b.size() < n) { const Bytes f = ref::frame(tid, 7, answer); b.insert(b.end(), f.begin(), f.end()); } b.resize(n); return b; };
    const uint32_t other = (tid + 1 + salt % 3) & 0xFFFF;
    switch(i)
    {
    case Answer: return ref::frame(tid, 7, answer);
    case WrongTid: return ref::frame(other, 7, answer);
    case WrongUnit: return ref::frame(tid, 6, answer);
    case CForeign: return ref::frame(tid, 7, answer, 0x0001);
    case CLengthZero: return ref::frame(tid, 7, {}, 0, 0);
    case CEmptyOther: return ref::frame(other, 7, {});
    case COversizeOther: return ref::frame(other, 7, body(400));
    case COversizeOwn: return ref::frame(tid, 7, body(300));
    case CMaxOther: return ref::frame(other, 7, body(253));
    case CEmptyOwn: return ref::frame(tid, 7, {});
    case CExceptionOther: return ref::frame(other, 7, ref::exception_pdu(3, 2));
    default: return ref::frame(tid, 7, body(300), 0xFF00);
    }
}
struct ClientBench
{
    Ctx& c;
    World w;
    std::unique_ptr<modbus::IModbusManager> man;
    std::shared_ptr<modbus::IClientChannel> chan[2];
    std::shared_ptr<modbus::IClientSession> s[2];
    std::shared_ptr<sim::Conn> k[2];
    uint32_t tid = 0;
    explicit ClientBench(Ctx& ctx) : c(ctx)
    {
        man = modbus::IModbusManager::create(null_logger(), 1);
        for(int i = 0; i < 2; ++i)
        {
            chan[i] = man->create_client_tcp_channel("c", modbus::Ipv4Endpoint{"10.0.0.1", 502}, "", modbus::LoggingLevel::Critical);
            s[i] = chan[i]->create_session(UnitIdentifier{7}, 1s);
        }
    }
    ~ClientBench() { for(auto& x : s) x.reset(); for(auto& x : chan) x.reset(); man.reset(); }
    struct Seen { int calls = 0; Out out; };
    void ask(int i, uint32_t salt, Seen& seen)
    {
        hw::send(*s[i], client_req(salt), nullptr, [&seen](const Out& o) { ++seen.calls; seen.out = o; });
        for(;;)
        {
            w->drain();
            if(!w->resolves.empty()) { w->complete_resolve({}, {sim::Endpoint{"10.0.0.1", 502, true}}); continue; }
            if(auto p = w->pending_connect()) { k[i] = w->complete_connect(p, {}); continue; }
            break;
        }
    }
    // Asks on both channels, feeds the stream to one byte by byte and to the other segmented.
    void run(const std::vector<int>& items, uint32_t salt, const std::vector<size_t>& cuts)
    {
        Seen x[2];
        ask(0, salt, x[0]);
        ask(1, salt, x[1]);
        Bytes stream;
        std::vector<std::pair<int, Out>> marks;
        Out want;
        int calls = 0;
        for(int it : items)
        {
            const Bytes f = client_item(it, tid, salt);
            for(size_t i = 0; i < f.size(); ++i)
            {
                k[0]->deliver({f[i]});
                w->drain();
                c.step();
                c.checked();
                if(i + 1 == f.size() && calls == 0)
                {
                    if(it == Answer || it == CEmptyOwn) { calls = 1; want = ref::decode_response(client_req(salt), Bytes(f.begin() + 7, f.end())); }
                    else if(it == COversizeOwn && x[0].calls == 1)
                    {
                        if(x[0].out.type != 'M') c.fail("an over-long frame was taken as an answer: %s", x[0].out.str().c_str());
                        calls = 1;
                        want = x[0].out;
                    }
                }
                if(x[0].calls != calls || (calls && x[0].out != want)) c.fail("byte by byte: after byte %zu of %s the handler was called %d times (%s), expected %d (%s)", i + 1, citem_name(it), x[0].calls, x[0].out.str().c_str(), calls, want.str().c_str());
                marks.emplace_back(calls, want);
            }
            stream.insert(stream.end(), f.begin(), f.end());
        }
        size_t from = 0;
        for(size_t i = 0; i <= cuts.size(); ++i)
        {
            const size_t to = i < cuts.size() ? std::min(cuts[i], stream.size()) : stream.size();
            if(to <= from) continue;
            k[1]->deliver(Bytes(stream.begin() + static_cast<long>(from), stream.begin() + static_cast<long>(to)));
            w->drain();
            c.step();
            c.checked();
            const auto& m = marks[to - 1];
            if(x[1].calls != m.first || (m.first && x[1].out != m.second)) c.fail("in pieces: after byte %zu of %zu the handler was called %d times (%s), byte by byte %d (%s)", to, stream.size(), x[1].calls, x[1].out.str().c_str(), m.first, m.second.str().c_str());
            from = to;
        }
        tid = (tid + 1) & 0xFFFF;
    }
};
void client_streams(Ctx& c, int depth)
{
    std::vector<int> items;
    for(int i = 0; i < depth; ++i) { items.push_back(c.choose(CItems, "frame")); c.note("%s", citem_name(items.back())); }
    items.push_back(Answer);
    ClientBench b{c};
    uint32_t salt = 1;
    size_t total = 0;
    for(int it : items) total += client_item(it, 0, 1).size();
    b.run(items, salt++, {});
    // every cut near a frame boundary, coarse in between, and uniform pieces
    std::vector<size_t> ends;
    for(uint32_t par = 0; par < 2; ++par)
    {
        size_t at = 0;
        ends.clear();
        for(int it : items) { at += client_item(it, 0, par).size(); ends.push_back(at); }
        Bytes dummy(at);
        for(size_t p : positions(dummy, ends)) { if((salt ^ par) & 1) ++salt; b.run(items, salt, {p}); salt += 2; }
        for(size_t piece : {2, 3, 7, 100, 260}) { std::vector<size_t> k; for(size_t x = piece; x < at; x += piece) k.push_back(x); b.run(items, salt, k); salt += 2; }
    }
    c.nontrivial();
}

// The answers to two channels' requests arrive in turns, each in two pieces.
void clients_interleaved(Ctx& c)
{
    static const int some[] = {CItems, WrongTid, CMaxOther, COversizeOther, CForeignOversize};
    const int junk[2] = {some[c.choose(5, "frame on one channel")], c.choose(CItems + 1, "frame on the other")};
    const int order = c.choose(2, "order of the last pieces");
    ClientBench b{c};
    auto stream = [&](int i, uint32_t salt) { Bytes s; if(junk[i] < CItems) s = client_item(junk[i], b.tid, salt); const Bytes a = client_item(Answer, b.tid, salt); s.insert(s.end(), a.begin(), a.end()); return s; };
    std::vector<size_t> pos[2][2];
    for(int i = 0; i < 2; ++i)
        for(uint32_t par = 0; par < 2; ++par)
        {
            const Bytes s = stream(i, par);
            std::vector<size_t> ends{s.size() - client_item(Answer, 0, par).size(), s.size()};
            if(!ends[0]) ends.erase(ends.begin());
            for(size_t x : positions(s, ends)) { if(s.size() > 60 && x % 5 != 2 && x != 7) continue; pos[i][par].push_back(x); }
        }
    for(uint32_t par = 0; par < 2; ++par)
        for(size_t i : pos[0][par])
            for(size_t j : pos[1][par ^ 1])
            {
                ClientBench::Seen x[2];
                const uint32_t salt[2] = {par, par ^ 1};
                b.ask(0, salt[0], x[0]);
                b.ask(1, salt[1], x[1]);
                const Bytes s[2] = {stream(0, salt[0]), stream(1, salt[1])};
                size_t done[2] = {0, 0};
                auto piece = [&](int w, size_t to) {
                    b.k[w]->deliver(Bytes(s[w].begin() + static_cast<long>(done[w]), s[w].begin() + static_cast<long>(to)));
                    done[w] = to;
                    b.w->drain();
                    c.step();
                    c.checked();
                    for(int n = 0; n < 2; ++n)
                    {
                        // what the bytes so far say
                        Bytes got(s[n].begin(), s[n].begin() + static_cast<long>(done[n]));
                        const size_t before = junk[n] < CItems ? client_item(junk[n], b.tid, salt[n]).size() : 0;
                        const bool told = junk[n] == Answer || junk[n] == CEmptyOwn || junk[n] == COversizeOwn;
                        const size_t at_least = done[n] == s[n].size(), at_most = at_least || (told && done[n] >= (junk[n] == COversizeOwn ? 8 : before));
                        if(static_cast<size_t>(x[n].calls) < at_least || static_cast<size_t>(x[n].calls) > at_most) c.fail("answers cut at %zu and %zu arrive in turns: after byte %zu of %zu the handler of channel %d was called %d times", i, j, done[n], s[n].size(), n, x[n].calls);
                        if(x[n].calls && junk[n] != CEmptyOwn && junk[n] != COversizeOwn)
                        {
                            const Bytes a = client_item(Answer, b.tid, salt[n]);
                            const Out want = ref::decode_response(client_req(salt[n]), Bytes(a.begin() + 7, a.end()));
                            if(x[n].out != want) c.fail("answers cut at %zu and %zu arrive in turns: the outcome on channel %d is %s, expected %s", i, j, n, x[n].out.str().c_str(), want.str().c_str());
                        }
                        else if(x[n].calls && x[n].out.type != 'M') c.fail("an empty or over-long answer was taken: %s", x[n].out.str().c_str());
                    }
                };
                piece(0, i);
                piece(1, j);
                piece(order, s[order].size());
                piece(1 - order, s[1 - order].size());
                b.tid = (b.tid + 1) & 0xFFFF;
            }
    c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    mc::Options o;
    o.property = "C04";
    auto add = [](std::vector<mc::Scenario>& v, const char* name, std::function<void(Ctx&)> f, const char* bounds) { v.push_back({name, f, 0, bounds}); };
    for(auto* v : {&o.quick, &o.thorough})
    {
        const bool deep = v == &o.thorough;
        add(*v, "server: every cut and pair of cuts", [deep](Ctx& c) { streams(c, 1, 2); }, "each of 12 frames then a request: all pairs of cuts (long frames: around boundaries), uniform pieces");
        if(deep) add(*v, "server: two frames", [](Ctx& c) { streams(c, 2, 2); }, "all sequences of 2 of 12 frames then a request, all pairs of cuts");
        else add(*v, "server: two frames", [](Ctx& c) { streams(c, 2, 1); }, "all sequences of 2 of 12 frames then a request, all single cuts");
        if(deep) add(*v, "server: three frames", [](Ctx& c) { streams(c, 3, 1); }, "all sequences of 3 of 12 frames then a request, all single cuts");
        add(*v, "server: all cuts of short streams", all_cuts, "all 2^n ways to cut streams of up to 19 bytes (first 16 positions)");
        add(*v, "server: long reads", long_reads, "9000-byte streams cut around the 4096-byte read buffer");
        add(*v, "server: two connections in turns", interleaved, "5 frames on one connection, 12 on another, each in two pieces cut anywhere, in turns");
        add(*v, "client: two channels in turns", clients_interleaved, "12 frames or nothing before an answer on one channel, 5 on another, each stream in two pieces, in turns");
        add(*v, "server: announced lengths", huge, "13 lengths of 254..65535 in 6 segmentations");
        if(deep) add(*v, "client: three frames", [](Ctx& c) { client_streams(c, 3); }, "all sequences of 3 of 12 frames then the answer, all single cuts");
        add(*v, "client: two frames", [](Ctx& c) { client_streams(c, 2); }, "all sequences of 2 of 12 frames then the answer, all single cuts");
    }
    o.rule = "The same stream is delivered byte by byte to one connection and in pieces to another: at every piece boundary both must have done the same, and byte by byte each frame must be handled, exactly as the reference says, with its last byte and not before.";
    o.assumptions = {"an over-long frame may be refused (exception reply, malformed response) as long as it is never taken for a valid message"};
    o.hang_seconds = 120;
    return mc::main(argc, argv, o);
}
