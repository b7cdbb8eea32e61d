#ifndef STANDIN_SER4CPP_STATICBUFFER_H
#define STANDIN_SER4CPP_STATICBUFFER_H

#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp
{

template <size_t LENGTH>
class StaticBuffer
{
public:
    StaticBuffer() = default;
    rseq_t as_seq() const { return rseq_t{m_buffer, static_cast<uint32_t>(LENGTH)}; }
    rseq_t as_seq(uint32_t max_size) const { return as_seq().take(max_size); }
    wseq_t as_wseq() { return wseq_t{m_buffer, static_cast<uint32_t>(LENGTH)}; }
    wseq_t as_wseq(uint32_t max_size) { return as_wseq().take(max_size); }
    static constexpr size_t length() { return LENGTH; }

private:
    uint8_t m_buffer[LENGTH] = {0};
};

} // namespace ser4cpp

#endif
