// Stand-in for the ser4cpp library (not installed here): bounds-checked read/write views.
#ifndef STANDIN_SER4CPP_SEQUENCETYPES_H
#define STANDIN_SER4CPP_SEQUENCETYPES_H

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace ser4cpp
{

[[noreturn]] inline void standin_out_of_bounds(const char* what)
{
    std::fprintf(stderr, "MEMORY-ERROR: ser4cpp %s out of bounds\n", what);
    std::abort();
}

template <class L>
class HasLength
{
public:
    HasLength() = default;
    explicit HasLength(L length) : m_length{length} {}
    L length() const { return m_length; }
    bool is_empty() const { return m_length == 0; }
    bool is_not_empty() const { return m_length != 0; }

protected:
    L m_length = 0;
};

template <class L>
class RSeq : public HasLength<L>
{
public:
    RSeq() = default;
    RSeq(uint8_t const* buffer, L length) : HasLength<L>{length}, m_buffer{buffer} {}
    static RSeq empty() { return RSeq{}; }

    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    RSeq take(L count) const { return RSeq{m_buffer, count < this->m_length ? count : this->m_length}; }
    RSeq skip(L count) const
    {
        const L n = count < this->m_length ? count : this->m_length;
        return RSeq{m_buffer ? m_buffer + n : nullptr, static_cast<L>(this->m_length - n)};
    }
    L advance(L count)
    {
        const L n = count < this->m_length ? count : this->m_length;
        if(m_buffer) m_buffer += n;
        this->m_length -= n;
        return n;
    }
    operator uint8_t const*() const { return m_buffer; }
    uint8_t const* data() const { return m_buffer; }
    template <class I> uint8_t operator[](I i) const
    {
        if(static_cast<unsigned long long>(i) >= this->m_length) standin_out_of_bounds("rseq_t[]");
        return m_buffer[i];
    }
    bool equals(const RSeq& rhs) const
    {
        return this->m_length == rhs.m_length && (this->m_length == 0 || std::memcmp(m_buffer, rhs.m_buffer, this->m_length) == 0);
    }

private:
    uint8_t const* m_buffer = nullptr;
};

template <class L>
class WSeq : public HasLength<L>
{
public:
    WSeq() = default;
    WSeq(uint8_t* buffer, L length) : HasLength<L>{length}, m_buffer{buffer} {}
    static WSeq empty() { return WSeq{}; }

    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    void set_all_to(uint8_t value) { if(this->m_length) std::memset(m_buffer, value, this->m_length); }
    L advance(L count)
    {
        const L n = count < this->m_length ? count : this->m_length;
        if(m_buffer) m_buffer += n;
        this->m_length -= n;
        return n;
    }
    WSeq skip(L count) const { WSeq r{*this}; r.advance(count); return r; }
    WSeq take(L count) const { return WSeq{m_buffer, count < this->m_length ? count : this->m_length}; }
    RSeq<L> readonly() const { return RSeq<L>{m_buffer, this->m_length}; }
    operator uint8_t*() const { return m_buffer; }
    uint8_t* data() const { return m_buffer; }
    template <class I> uint8_t& operator[](I i) const
    {
        if(static_cast<unsigned long long>(i) >= this->m_length) standin_out_of_bounds("wseq_t[]");
        return m_buffer[i];
    }
    bool put(uint8_t byte)
    {
        if(this->m_length == 0) return false;
        m_buffer[0] = byte;
        advance(1);
        return true;
    }
    // Copies what fits (never beyond the destination) and advances past it.
    template <class L2>
    RSeq<L> copy_from(const RSeq<L2>& src)
    {
        const L n = src.length() < this->m_length ? static_cast<L>(src.length()) : this->m_length;
        const RSeq<L> ret{m_buffer, n};
        if(n) std::memmove(m_buffer, static_cast<uint8_t const*>(src), n);
        advance(n);
        return ret;
    }
    template <class L2> RSeq<L> move_from(const RSeq<L2>& src) { return copy_from(src); }

private:
    uint8_t* m_buffer = nullptr;
};

using rseq_t = RSeq<uint32_t>;
using wseq_t = WSeq<uint32_t>;

} // namespace ser4cpp

#endif
