// C26: spans and array views give bounded access to their elements.
// mc: level=model_checking opt=1 sources=std_test_object:CreatorNested,std_test_object:CreatorUnsignedEnum,std_test_object:CreatorEnum,std_test_object:CreatorBitmask
#include <algorithm>
#include <memory>
#include <numeric>

#include "mc.h"
#include "test_object/std_allocator/CreatorBitmask.h"
#include "test_object/std_allocator/CreatorEnum.h"
#include "test_object/std_allocator/CreatorNested.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/Span.h"
#include "zserio/Types.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using test_object::std_allocator::CreatorBitmask;
using test_object::std_allocator::CreatorEnum;
using test_object::std_allocator::CreatorNested;

namespace
{

// ---------------------------------------------------------------- spans

// memory of exactly n elements
template <typename T>
struct Memory
{
    explicit Memory(size_t n) :
            size(n), data(new T[n ? n : 1])
    {
        for (size_t i = 0; i < n; ++i)
        {
            data[i] = static_cast<T>(11 * i + 3);
        }
    }
    size_t size;
    std::unique_ptr<T[]> data;
};

template <typename T, size_t E>
__attribute__((noinline)) void checkSpan(Ctx& ctx, const Span<T, E>& span, T* data, size_t size, const std::string& what)
{
    MC_REQUIRE(ctx, span.size() == size && span.empty() == (size == 0) && span.size_bytes() == size * sizeof(T), "span-size", what, " has ", span.size(), " elements instead of ", size);
    if (E != dynamic_extent)
    {
        MC_REQUIRE(ctx, (Span<T, E>::extent == size), "extent", what, ": extent is not the size");
    }
    if (size != 0)
    {
        MC_REQUIRE(ctx, span.data() == data && &span.front() == data && &span.back() == data + size - 1, "span-ends", what, ": ends are wrong");
    }
    MC_REQUIRE(ctx, static_cast<size_t>(span.end() - span.begin()) == size && static_cast<size_t>(std::distance(span.rbegin(), span.rend())) == size, "span-range", what,
            ": iterator range differs from the size");
    size_t i = 0;
    for (T& element : span)
    {
        MC_REQUIRE(ctx, &element == data + i && &span[i] == data + i, "span-element", what, ": element ", i, " is another one");
        ++i;
    }
    MC_REQUIRE(ctx, i == size, "span-range", what, ": ", i, " elements are iterated instead of ", size);
    for (auto it = span.rbegin(); it != span.rend(); ++it)
    {
        --i;
        MC_REQUIRE(ctx, &*it == data + i, "span-reverse", what, ": reverse element ", i, " is another one");
    }
    MC_REQUIRE(ctx, i == 0, "span-reverse", what, ": reverse iteration misses ", i, " elements");
    ctx.cases();
}

template <typename T, size_t E, size_t OFFSET>
__attribute__((noinline)) void staticParts(Ctx& ctx, const Span<T, E>& span, T* data, size_t size)
{
    // parts known at compile time starting at OFFSET
    if (OFFSET <= size)
    {
        checkSpan(ctx, span.template first<OFFSET>(), data, OFFSET, "first<>");
        checkSpan(ctx, span.template last<OFFSET>(), data + (size - OFFSET), OFFSET, "last<>");
        const auto rest = span.template subspan<OFFSET, dynamic_extent>();
        checkSpan(ctx, rest, data + OFFSET, size - OFFSET, "subspan to the end");
        checkSpan(ctx, span.template subspan<OFFSET, 0>(), data + OFFSET, 0, "empty subspan");
        if constexpr (E == dynamic_extent || OFFSET + 1 <= E)
        {
            if (OFFSET + 1 <= size)
            {
                checkSpan(ctx, span.template subspan<OFFSET, 1>(), data + OFFSET, 1, "subspan of one");
            }
        }
        if constexpr (E == dynamic_extent || OFFSET + 2 <= E)
        {
            if (OFFSET + 2 <= size)
            {
                checkSpan(ctx, span.template subspan<OFFSET, 2>(), data + OFFSET, 2, "subspan of two");
            }
        }
    }
}

template <typename T, size_t E, size_t... OFFSETS>
void allStaticParts(Ctx& ctx, const Span<T, E>& span, T* data, size_t size, std::index_sequence<OFFSETS...>)
{
    (staticParts<T, E, OFFSETS>(ctx, span, data, size), ...);
}

template <typename T, size_t E>
void allParts(Ctx& ctx, const Span<T, E>& span, T* data, size_t size)
{
    checkSpan(ctx, span, data, size, "span");
    for (size_t n = 0; n <= size; ++n)
    {
        checkSpan(ctx, span.first(n), data, n, "first");
        checkSpan(ctx, span.last(n), data + (size - n), n, "last");
        checkSpan(ctx, span.subspan(n), data + n, size - n, "subspan to the end");
        for (size_t count = 0; n + count <= size; ++count)
        {
            const auto part = span.subspan(n, count);
            checkSpan(ctx, part, data + n, count, str("subspan of ", count, " at ", n));
            // parts of parts
            for (size_t m = 0; m <= count; ++m)
            {
                checkSpan(ctx, part.subspan(m), data + n + m, count - m, "subspan of subspan");
                checkSpan(ctx, part.last(m).first(m), data + n + count - m, m, "part of part");
            }
        }
    }
    Span<T, E> copy(span);
    checkSpan(ctx, copy, data, size, "copy");
    Span<T> dynamic(span);
    checkSpan(ctx, dynamic, data, size, "dynamic copy");
    Span<const T> constant(span);
    checkSpan<const T>(ctx, constant, data, size, "const copy");
    Span<T> assigned;
    MC_REQUIRE(ctx, assigned.empty() && assigned.begin() == assigned.end(), "default", "default span is not empty");
    assigned = dynamic;
    checkSpan(ctx, assigned, data, size, "assigned");
    assigned = Span<T>(data, data + size);
    checkSpan(ctx, assigned, data, size, "from pointers");
}

template <typename T>
void dynamicSpans(Ctx& ctx)
{
    const size_t n = ctx.choose(ctx.thorough() ? 20 : 12);
    ctx.step();
    ctx.state(n);
    Memory<T> memory(n);
    const Span<T> span(memory.data.get(), n);
    allParts(ctx, span, memory.data.get(), n);
    allStaticParts(ctx, span, memory.data.get(), n, std::make_index_sequence<10>());
    std::vector<T> vec(memory.data.get(), memory.data.get() + n);
    checkSpan(ctx, Span<T>(vec), vec.data(), n, "of vector");
    const std::vector<T>& constVec = vec;
    checkSpan(ctx, Span<const T>(constVec), constVec.data(), n, "of const vector");
    // writing through a span changes exactly that element
    for (size_t i = 0; i < n; ++i)
    {
        const std::vector<T> before(memory.data.get(), memory.data.get() + n);
        span[i] = static_cast<T>(before[i] + 1);
        for (size_t k = 0; k < n; ++k)
        {
            MC_REQUIRE(ctx, memory.data[k] == static_cast<T>(before[k] + (k == i)), "span-write", "writing element ", i, " changes element ", k);
        }
    }
}

template <typename T, size_t N>
__attribute__((noinline)) void staticSpan(Ctx& ctx)
{
    Memory<T> memory(N);
    const Span<T, N> span(memory.data.get(), N);
    allParts(ctx, span, memory.data.get(), N);
    allStaticParts(ctx, span, memory.data.get(), N, std::make_index_sequence<N + 1>());
    std::array<T, N> array{};
    checkSpan(ctx, Span<T, N>(array), array.data(), N, "of array");
    checkSpan(ctx, Span<T>(array), array.data(), N, "of array");
    const std::array<T, N>& constArray = array;
    checkSpan(ctx, Span<const T, N>(constArray), constArray.data(), N, "of const array");
    checkSpan(ctx, Span<const T>(constArray), constArray.data(), N, "of const array");
    if constexpr (N > 0)
    {
        T plain[N] = {};
        checkSpan(ctx, Span<T, N>(plain), plain, N, "of plain array");
        checkSpan(ctx, Span<T>(plain), plain, N, "of plain array");
    }
    else
    {
        const Span<T, 0> empty;
        MC_REQUIRE(ctx, empty.empty() && empty.begin() == empty.end(), "default", "default span is not empty");
    }
}

void staticSpans(Ctx& ctx)
{
    const uint32_t n = ctx.choose(7);
    ctx.step();
    ctx.state(100 + n);
    switch (n)
    {
    case 0:
        staticSpan<uint8_t, 0>(ctx);
        break;
    case 1:
        staticSpan<uint8_t, 1>(ctx);
        break;
    case 2:
        staticSpan<uint32_t, 2>(ctx);
        break;
    case 3:
        staticSpan<uint64_t, 3>(ctx);
        break;
    case 4:
        staticSpan<uint8_t, 4>(ctx);
        break;
    case 5:
        staticSpan<uint16_t, 5>(ctx);
        break;
    default:
        staticSpan<uint8_t, 9>(ctx);
        break;
    }
}

// ---------------------------------------------------------------- array views

// a kind of elements: the raw vector, how the view is made and an identity of what is yielded
struct Kit8
{
    using Element = UInt7;
    using Traits = ArrayTraits<UInt7>;
    static Element make(size_t i) { return UInt7(static_cast<uint8_t>(10 + i)); }
    template <typename V>
    static size_t id(const V& v)
    {
        return static_cast<size_t>(static_cast<uint8_t>(v)) - 10;
    }
};
struct KitVar
{
    using Element = VarInt;
    using Traits = ArrayTraits<VarInt>;
    static Element make(size_t i) { return VarInt(-static_cast<int64_t>(i) * 1000000000000); }
    template <typename V>
    static size_t id(const V& v)
    {
        return static_cast<size_t>(-static_cast<int64_t>(v) / 1000000000000);
    }
};
struct KitText
{
    using Element = String;
    using Traits = ArrayTraits<String>;
    static Element make(size_t i) { return std::string(i * 9, 'x'); }
    template <typename V>
    static size_t id(const V& v)
    {
        const std::string_view view = v;
        return view.size() / 9;
    }
};
struct KitBytes
{
    using Element = Bytes;
    using Traits = ArrayTraits<Bytes>;
    static Element make(size_t i) { return Bytes(i, 7); }
    template <typename V>
    static size_t id(const V& v)
    {
        const BytesView view = v;
        return view.size();
    }
};
struct KitBits
{
    using Element = BitBuffer;
    using Traits = ArrayTraits<BitBuffer>;
    static Element make(size_t i) { return BitBuffer(i * 3); }
    template <typename V>
    static size_t id(const V& v)
    {
        const BitBuffer& buffer = v;
        return buffer.getBitSize() / 3;
    }
};
struct KitEnum
{
    using Element = CreatorBitmask;
    using Traits = ArrayTraits<CreatorBitmask>;
    static Element make(size_t i) { return CreatorBitmask(static_cast<uint8_t>(i & 3)); }
    template <typename V>
    static size_t id(const V& v)
    {
        return v.getValue();
    }
};
// objects with a parameter: traits the way the generator writes them, the parameter is the index
struct NestedTraits
{
    struct OwnerType
    {
        uint32_t base;
    };
    static View<CreatorNested> at(const OwnerType& owner, const CreatorNested& element, size_t index)
    {
        return View<CreatorNested>(element, UInt32(owner.base + static_cast<uint32_t>(index)));
    }
};
struct KitObject
{
    using Element = CreatorNested;
    using Traits = NestedTraits;
    static Element make(size_t i)
    {
        CreatorNested nested;
        nested.value = static_cast<uint32_t>(i);
        return nested;
    }
    template <typename V>
    static size_t id(const V& v)
    {
        // the element and its parameter have to be of the same index
        const size_t i = static_cast<uint32_t>(v.value());
        return static_cast<uint32_t>(v.param()) == 1000 + i ? i : 77777;
    }
};

template <typename KIT>
ArrayView<const typename KIT::Element, typename KIT::Traits> makeView(const std::vector<typename KIT::Element>& data)
{
    using View = ArrayView<const typename KIT::Element, typename KIT::Traits>;
    if constexpr (std::is_same_v<KIT, KitObject>)
    {
        return View(Span<const CreatorNested>(data), NestedTraits::OwnerType{1000});
    }
    else
    {
        return View(Span<const typename KIT::Element>(data));
    }
}

__attribute__((noinline)) bool throwsRuntime(const std::function<void()>& f)
{
    try
    {
        f();
    }
    catch (const CppRuntimeException&)
    {
        return true;
    }
    return false;
}

// indexes of distinct identity: the bitmask has only four values
template <typename KIT>
size_t maxSize()
{
    return std::is_same_v<KIT, KitEnum> ? 4 : 7;
}

template <typename KIT>
void access(Ctx& ctx)
{
    const size_t n = ctx.choose(static_cast<uint32_t>(maxSize<KIT>()) + 1);
    std::vector<typename KIT::Element> data;
    for (size_t i = 0; i < n; ++i)
    {
        data.push_back(KIT::make(i));
    }
    data.shrink_to_fit();
    const auto view = makeView<KIT>(data);
    ctx.step();
    ctx.state(n);
    MC_REQUIRE(ctx, view.size() == n && view.empty() == (n == 0), "view-size", "view of ", n, " elements has size ", view.size());
    std::vector<size_t> indexes(n + 3);
    std::iota(indexes.begin(), indexes.end(), size_t(0));
    for (size_t big : {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, size_t(1) << 32, size_t(1) << 61, (size_t(1) << 61) + 1, (size_t(1) << 63)})
    {
        indexes.push_back(big);
    }
    for (size_t i : indexes)
    {
        size_t got = 99;
        const bool threw = throwsRuntime([&] { got = KIT::id(view.at(i)); });
        MC_REQUIRE(ctx, threw == (i >= n), "at-range", "at(", i, ") of ", n, " elements ", threw ? "throws" : "does not throw");
        MC_REQUIRE(ctx, threw || (got == i && KIT::id(view[i]) == i), "at-value", "at(", i, ") of ", n, " elements yields element ", got);
        ctx.cases();
    }
    size_t front = 99, back = 99;
    const bool frontThrew = throwsRuntime([&] { front = KIT::id(view.front()); });
    const bool backThrew = throwsRuntime([&] { back = KIT::id(view.back()); });
    MC_REQUIRE(ctx, frontThrew == (n == 0) && backThrew == (n == 0), "ends-range", "front or back of ", n, " elements");
    MC_REQUIRE(ctx, n == 0 || (front == 0 && back == n - 1), "ends", "front is element ", front, " and back element ", back, " of ", n);
    // forward and reverse iteration
    std::vector<size_t> forward, reverse, expected(n);
    std::iota(expected.begin(), expected.end(), size_t(0));
    for (auto&& element : view)
    {
        forward.push_back(KIT::id(element));
    }
    for (auto it = view.rbegin(); it != view.rend(); ++it)
    {
        reverse.push_back(KIT::id(*it));
    }
    std::reverse(reverse.begin(), reverse.end());
    MC_REQUIRE(ctx, forward == expected, "iteration", "iteration over ", n, " elements yields others");
    MC_REQUIRE(ctx, reverse == expected, "reverse-iteration", "reverse iteration over ", n, " elements yields others");
    MC_REQUIRE(ctx, std::distance(view.cbegin(), view.cend()) == static_cast<std::ptrdiff_t>(n) && std::distance(view.crbegin(), view.crend()) == static_cast<std::ptrdiff_t>(n), "distance",
            "distance of ", n, " elements");
    MC_REQUIRE(ctx, throwsRuntime([&] { (void)KIT::id(*view.end()); }), "end-dereference", "end of ", n, " elements is dereferenced");
    // copies of the view show the same elements; views compare by their elements
    const auto copy = view;
    MC_REQUIRE(ctx, copy.size() == n && (n == 0 || KIT::id(copy.back()) == n - 1), "view-copy", "copy of the view differs");
    for (size_t m = 0; m <= n; ++m)
    {
        const std::vector<typename KIT::Element> shorter(data.begin(), data.begin() + static_cast<std::ptrdiff_t>(m));
        const auto other = makeView<KIT>(shorter);
        MC_REQUIRE(ctx, (view == other) == (m == n) && (view != other) == (m != n), "view-compare", "views of ", n, " and ", m, " elements");
        MC_REQUIRE(ctx, (other < view) == (m < n) && (view > other) == (m < n) && !(view < other) && (view <= other) == (m == n) && view >= other, "view-compare", "views of ", n, " and ",
                m, " elements");
    }
}

// views and spans of many elements: every position by index, by iteration both ways and by jumps
template <typename KIT>
void longViews(Ctx& ctx)
{
    const size_t n = ctx.pick(std::vector<size_t>{127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001});
    std::vector<typename KIT::Element> data;
    for (size_t i = 0; i < n; ++i)
    {
        data.push_back(KIT::make(i));
    }
    data.shrink_to_fit();
    const auto view = makeView<KIT>(data);
    const Span<const typename KIT::Element> span(data);
    MC_REQUIRE(ctx, view.size() == n && !view.empty() && span.size() == n && !span.empty(), "view-size", "view of ", n, " elements has size ", view.size(), ", span ", span.size());
    size_t at = 0;
    for (auto&& element : view)
    {
        MC_REQUIRE(ctx, at < n && KIT::id(element) == at, "iteration", "iteration over ", n, " elements yields another as ", at);
        ++at;
    }
    MC_REQUIRE(ctx, at == n, "iteration", "iteration over ", n, " elements ends after ", at);
    for (auto it = view.rbegin(); it != view.rend(); ++it)
    {
        MC_REQUIRE(ctx, at > 0 && KIT::id(*it) == at - 1, "reverse-iteration", "reverse iteration over ", n, " elements yields another at ", at);
        --at;
    }
    MC_REQUIRE(ctx, at == 0, "reverse-iteration", "reverse iteration over ", n, " elements ends ", at, " early");
    ctx.step(2 * n);
    std::vector<size_t> positions;
    for (const size_t i : {size_t{0}, size_t{1}, size_t{126}, size_t{127}, size_t{128}, size_t{254}, size_t{255}, size_t{256}, size_t{257}, size_t{32766}, size_t{32767}, size_t{32768}, size_t{65534},
                 size_t{65535}, size_t{65536}, size_t{65537}, n - 2, n - 1})
    {
        if (i < n)
        {
            positions.push_back(i);
        }
    }
    for (const size_t from : positions)
    {
        MC_REQUIRE(ctx, KIT::id(view.at(from)) == from && KIT::id(view[from]) == from && &span[from] == &data[from], "access", "element ", from, " of ", n, " is another");
        MC_REQUIRE(ctx, span.first(from).size() == from && span.subspan(from).size() == n - from && &span.subspan(from).front() == &data[from] && span.last(from).size() == from, "span-part",
                "part of a span of ", n, " elements at ", from);
        for (const size_t to : positions)
        {
            const auto distance = static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(from);
            auto it = view.begin() + static_cast<std::ptrdiff_t>(from);
            MC_REQUIRE(ctx, KIT::id(it[distance]) == to && KIT::id(*(it + distance)) == to && KIT::id(*(it - -distance)) == to, "iterator-access", "jump from ", from, " to ", to, " of ", n);
            const auto target = view.begin() + static_cast<std::ptrdiff_t>(to);
            MC_REQUIRE(ctx, target - it == distance && (it == target) == (from == to) && (it < target) == (from < to) && (it <= target) == (from <= to), "iterator-compare", "iterators to ",
                    from, " and ", to, " of ", n);
            it += distance;
            MC_REQUIRE(ctx, it == target && KIT::id(*it) == to, "iterator-position", "jump from ", from, " to ", to, " of ", n);
            it -= distance;
            MC_REQUIRE(ctx, it - view.begin() == static_cast<std::ptrdiff_t>(from), "iterator-position", "jump back from ", to, " to ", from, " of ", n);
        }
        for (const size_t past : {n, n + 1, n + 65536, from + 65536, (size_t{1} << 32) + from})
        {
            MC_REQUIRE(ctx, past < n || throwsRuntime([&] { (void)KIT::id(view.at(past)); }), "access-range", "element ", past, " of ", n, " is accessed");
        }
    }
    MC_REQUIRE(ctx, throwsRuntime([&] { (void)KIT::id(*view.end()); }), "end-dereference", "end of ", n, " elements is dereferenced");
    for (const size_t m : positions)
    {
        std::vector<typename KIT::Element> shorter(data.begin(), data.begin() + static_cast<std::ptrdiff_t>(m));
        const auto other = makeView<KIT>(shorter);
        MC_REQUIRE(ctx, !(view == other) && other < view && !(view < other), "view-compare", "views of ", n, " and ", m, " elements");
    }
    const auto same = makeView<KIT>(data);
    MC_REQUIRE(ctx, view == same && !(view < same), "view-compare", "views of the same ", n, " elements");
    ctx.state(n);
}

// every sequence of iterator operations within the range, in lockstep with an index
template <typename KIT>
void iterators(Ctx& ctx)
{
    static const size_t n = 4;
    static const std::vector<typename KIT::Element> data = [] {
        std::vector<typename KIT::Element> d;
        for (size_t i = 0; i < n; ++i)
        {
            d.push_back(KIT::make(i));
        }
        return d;
    }();
    const auto view = makeView<KIT>(data);
    const std::ptrdiff_t start = static_cast<std::ptrdiff_t>(ctx.choose(n + 1));
    const uint32_t depth = ctx.thorough() ? 4 : 3;
    auto it = view.begin() + start;
    std::ptrdiff_t index = start;
    std::string history = str("from ", start);
    for (uint32_t s = 0; s < depth; ++s)
    {
        const uint32_t op = ctx.choose(10);
        const std::ptrdiff_t d = op < 4 ? (op < 2 ? 1 : -1) : static_cast<std::ptrdiff_t>(ctx.choose(2 * n + 1)) - static_cast<std::ptrdiff_t>(n);
        const std::ptrdiff_t target = op == 5 || op == 8 ? index - d : index + d;
        if (target < 0 || target > static_cast<std::ptrdiff_t>(n))
        {
            ctx.skip();
        }
        history += str(" ", op, "(", d, ")");
        ctx.note(history);
        ctx.step();
        std::ptrdiff_t returned = target;
        auto result = it;
        switch (op)
        {
        case 0:
            result = ++it;
            break;
        case 1:
            result = it++;
            returned = index;
            break;
        case 2:
            result = --it;
            break;
        case 3:
            result = it--;
            returned = index;
            break;
        case 4:
            result = (it += d);
            break;
        case 5:
            result = (it -= d);
            break;
        case 6:
            result = it + d;
            it = result;
            break;
        case 7:
            result = d + it;
            it = result;
            break;
        case 8:
            result = it - d;
            it = result;
            break;
        default: // element at an offset
            if (target < static_cast<std::ptrdiff_t>(n))
            {
                MC_REQUIRE(ctx, KIT::id(it[d]) == static_cast<size_t>(target), "iterator-index", history, ": another element");
            }
            it = it + d;
            result = it;
            break;
        }
        index = target;
        MC_REQUIRE(ctx, it - view.begin() == index && view.end() - it == static_cast<std::ptrdiff_t>(n) - index, "iterator-position", history, ": iterator is at ", it - view.begin(), " instead of ",
                index);
        MC_REQUIRE(ctx, result - view.begin() == returned, "iterator-result", history, ": the operator returns position ", result - view.begin(), " instead of ", returned);
        if (index < static_cast<std::ptrdiff_t>(n))
        {
            MC_REQUIRE(ctx, KIT::id(*it) == static_cast<size_t>(index), "iterator-value", history, ": the iterator yields another element");
            MC_REQUIRE(ctx, KIT::id(*(it.operator->().operator->())) == static_cast<size_t>(index), "iterator-arrow", history, ": the iterator yields another element");
        }
        for (std::ptrdiff_t other = 0; other <= static_cast<std::ptrdiff_t>(n); ++other)
        {
            const auto o = view.begin() + other;
            const bool good = (it == o) == (index == other) && (it != o) == (index != other) && (it < o) == (index < other) && (it > o) == (index > other) && (it <= o) == (index <= other) &&
                    (it >= o) == (index >= other) && it - o == index - other;
            MC_REQUIRE(ctx, good, "iterator-compare", history, ": iterators at ", index, " and ", other, " compare wrongly");
        }
        const auto reverse = std::make_reverse_iterator(it);
        MC_REQUIRE(ctx, index == 0 || KIT::id(*reverse) == static_cast<size_t>(index - 1), "iterator-reverse", history, ": reverse iterator yields another element");
        ctx.state(static_cast<uint64_t>(index * 10 + op));
    }
    ctx.sample(history);
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"long-views-varint", longViews<KitVar>, 1}, {"long-views-object", longViews<KitObject>, 1}, {"spans-8", dynamicSpans<uint8_t>, 1}, {"spans-64", dynamicSpans<uint64_t>, 1}, {"static-spans", staticSpans, 1}, {"access-int", access<Kit8>, 1},
                    {"access-varint", access<KitVar>, 1}, {"access-text", access<KitText>, 1}, {"access-bytes", access<KitBytes>, 1}, {"access-bits", access<KitBits>, 1},
                    {"access-bitmask", access<KitEnum>, 1}, {"access-object", access<KitObject>, 1}, {"iterators-int", iterators<Kit8>, 3}, {"iterators-text", iterators<KitText>, 3},
                    {"iterators-bits", iterators<KitBits>, 3}, {"iterators-bitmask", iterators<KitEnum>, 3}, {"iterators-object", iterators<KitObject>, 3}});
}
