// Type-erased array element kinds; each runs arrays over its alphabet through every layout, see arraykit.h.
#ifndef VERIF_ARRAYS_H
#define VERIF_ARRAYS_H

#include "mc.h"

namespace kit
{

using mc::Ctx;
using mc::str;

struct AnyKind
{
    virtual ~AnyKind() = default;
    virtual const char* name() const = 0;
    virtual uint32_t alphabet() const = 0;
    // checks the array of the given alphabet elements; false when the kind has no such layout
    virtual bool run(Ctx& ctx, int layout, const std::vector<uint32_t>& indexes, size_t start,
            size_t prealloc = 0) const = 0;
    // the same for an array of any numbers of the element type
    virtual bool runRaw(Ctx& ctx, int layout, const std::vector<__int128>& values, size_t start) const = 0;
};

const std::vector<AnyKind*>& kinds();

inline const char* layoutName(int layout)
{
    static const char* names[] = {"normal", "auto", "aligned", "aligned auto", "implicit"};
    return names[layout];
}

inline const AnyKind* findKind(const std::string& name)
{
    for (const AnyKind* kind : kinds())
    {
        if (name == kind->name())
        {
            return kind;
        }
    }
    return nullptr;
}

} // namespace kit

#endif
