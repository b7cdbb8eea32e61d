#ifndef STANDIN_SER4CPP_BUFFER_H
#define STANDIN_SER4CPP_BUFFER_H

#include <memory>
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp
{

class Buffer final : public HasLength<size_t>
{
public:
    Buffer() = default;
    explicit Buffer(size_t length) : HasLength<size_t>{length}, m_bytes{new uint8_t[length ? length : 1]()} {}
    explicit Buffer(const rseq_t& input) : Buffer{static_cast<size_t>(input.length())}
    {
        if(input.length()) std::memcpy(m_bytes.get(), static_cast<uint8_t const*>(input), input.length());
    }
    Buffer(const Buffer&) = delete;
    Buffer& operator=(const Buffer&) = delete;

    rseq_t as_rslice() const { return rseq_t{m_bytes.get(), static_cast<uint32_t>(m_length)}; }
    wseq_t as_wslice() { return wseq_t{m_bytes.get(), static_cast<uint32_t>(m_length)}; }
    rseq_t as_rseq() const { return as_rslice(); }
    wseq_t as_wseq() { return as_wslice(); }

private:
    std::unique_ptr<uint8_t[]> m_bytes;
};

} // namespace ser4cpp

#endif
