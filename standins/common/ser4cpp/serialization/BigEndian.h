#ifndef STANDIN_SER4CPP_BIGENDIAN_H
#define STANDIN_SER4CPP_BIGENDIAN_H

#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp
{

template <class T>
struct StandinBigEndian
{
    using type_t = T;
    static constexpr size_t size = sizeof(T);

    static bool read_from(rseq_t& input, T& out)
    {
        if(input.length() < size) return false;
        T value = 0;
        for(size_t i = 0; i < size; ++i) value = static_cast<T>((static_cast<unsigned long long>(value) << 8) | input[i]);
        out = value;
        input.advance(static_cast<uint32_t>(size));
        return true;
    }
    static bool write_to(wseq_t& dest, T value)
    {
        if(dest.length() < size) return false;
        for(size_t i = 0; i < size; ++i) dest[i] = static_cast<uint8_t>(value >> (8 * (size - 1 - i)));
        dest.advance(static_cast<uint32_t>(size));
        return true;
    }
    static T read(uint8_t const* data)
    {
        T value = 0;
        for(size_t i = 0; i < size; ++i) value = static_cast<T>((static_cast<unsigned long long>(value) << 8) | data[i]);
        return value;
    }
    static void write(uint8_t* data, T value)
    {
        for(size_t i = 0; i < size; ++i) data[i] = static_cast<uint8_t>(value >> (8 * (size - 1 - i)));
    }
};

using UInt8 = StandinBigEndian<uint8_t>;
using UInt16 = StandinBigEndian<uint16_t>;
using UInt32 = StandinBigEndian<uint32_t>;
using Int16 = StandinBigEndian<int16_t>;
using Int32 = StandinBigEndian<int32_t>;

} // namespace ser4cpp

#endif
