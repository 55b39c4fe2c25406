// the packed overloads for types that cannot be packed exist in both directions
#include "zserio/BitBuffer.h"
#include "zserio/DeltaContext.h"
#include "zserio/Types.h"

void probe(zserio::detail::DeltaContext& context, zserio::BitStreamWriter& writer, zserio::BitStreamReader& reader,
        zserio::Float16& half, zserio::Float32& single, zserio::Float64& wide)
{
    zserio::detail::write(context, writer, half);
    zserio::detail::write(context, writer, single);
    zserio::detail::write(context, writer, wide);
    zserio::detail::read(context, reader, half);
    zserio::detail::read(context, reader, single);
    zserio::detail::read(context, reader, wide);
}
