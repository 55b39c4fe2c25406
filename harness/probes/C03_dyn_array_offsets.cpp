// offsets of arrays of dynamic bit fields and of bit buffers can be initialised in advance
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"

struct Owner
{
    uint8_t numBits = 10;
};

struct Traits
{
    using OwnerType = Owner;
    static zserio::View<zserio::DynInt16> at(const Owner& owner, const zserio::DynInt16& element, size_t)
    {
        return zserio::View<zserio::DynInt16>(element, owner.numBits);
    }
};

zserio::BitSize probe(const zserio::Vector<zserio::DynInt16>& data, const zserio::BitBuffer& buffer)
{
    const zserio::ArrayView<const zserio::DynInt16, Traits> array(data, Owner());
    return zserio::detail::initializeOffsets<zserio::detail::ALIGNED>(array, 0) +
            zserio::detail::initializeOffsetsPacked<zserio::detail::ALIGNED>(array, 0) +
            zserio::detail::initializeOffsets(zserio::BitBufferView(buffer), 0);
}
