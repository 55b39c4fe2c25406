// C32: service and pub/sub data holders carry the payload unchanged.
// mc: level=model_checking opt=0 sources=std_test_object,ppmr_test_object
#include <cstring>
#include <functional>
#include <map>
#include <memory>

#include "mc.h"
#include "objects.h"
#include "tracked.h"
#include "treecmp.h"
#define OBJ_NS ppmr_allocator
#include "objects.inc"
#undef OBJ_NS
#include "zserio/IPubsub.h"
#include "zserio/IService.h"
#include "zserio/PubsubException.h"
#include "zserio/ServiceException.h"
#include "zserio/ppmr/IService.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using obj::Node;
namespace st = ::test_object::std_allocator;
namespace os = ::obj::std_allocator;
namespace pt = ::test_object::ppmr_allocator;
namespace op = ::obj::ppmr_allocator;
using StdAlloc = std::allocator<uint8_t>;
using PpmrAlloc = ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{

template <typename DATA>
std::vector<uint8_t> bytesOf(const DATA& data)
{
    const Span<const uint8_t> span = data.getData();
    return span.empty() ? std::vector<uint8_t>() : std::vector<uint8_t>(span.begin(), span.end());
}

// every sequence of copying, moving, assigning, reading and destroying holders that carry an object
template <typename T, typename ALLOC>
void holders(Ctx& ctx, const std::function<T(Ctx&, uint32_t, const ALLOC&)>& build, const std::function<std::vector<uint8_t>(const T&)>& encode, const std::function<Node(const T&)>& tree,
        const ALLOC& first, const ALLOC& second, const std::function<void(const ALLOC&)>& checkAllocator)
{
    using Holder = BasicIntrospectableServiceData<T, ALLOC>;
    std::unique_ptr<Holder> slots[3];
    std::vector<uint8_t> expected[3];
    Node trees[3];
    const auto put = [&](size_t to, const T& object, bool move, const ALLOC& allocator) {
        expected[to] = encode(object);
        trees[to] = tree(object);
        if (move)
        {
            T source(object, allocator);
            slots[to] = std::make_unique<Holder>(std::move(source), allocator);
        }
        else
        {
            auto source = std::make_unique<T>(object, allocator);
            slots[to] = std::make_unique<Holder>(*source, allocator);
            source.reset(); // the holder has its own
        }
    };
    const T a = build(ctx, 0, first);
    const T b = build(ctx, 2, first);
    put(0, a, ctx.flip(), first);
    put(1, b, ctx.flip(), second);
    std::string trace;
    const uint32_t depth = ctx.thorough() ? 4 : 3;
    for (uint32_t i = 0; i < depth; ++i)
    {
        const uint32_t operation = ctx.choose(7);
        const size_t from = ctx.choose(2);
        const size_t to = 1 - from;
        trace += str(" ", operation, "/", from);
        ctx.note("operations" + trace);
        ctx.step();
        if (!slots[from] && operation != 6)
        {
            ctx.skip();
        }
        switch (operation)
        {
        case 0: // copied over another
            slots[to] = std::make_unique<Holder>(*slots[from]);
            expected[to] = expected[from];
            trees[to] = trees[from];
            break;
        case 1: // moved over another, the source goes away
            slots[to] = std::make_unique<Holder>(std::move(*slots[from]));
            slots[from].reset();
            expected[to] = expected[from];
            trees[to] = trees[from];
            break;
        case 2: // copied, then the source goes away
            slots[to] = std::make_unique<Holder>(*slots[from]);
            slots[from].reset();
            expected[to] = expected[from];
            trees[to] = trees[from];
            break;
        case 3: // assigned
            if (!slots[to])
            {
                ctx.skip();
            }
            *slots[to] = *slots[from];
            expected[to] = expected[from];
            trees[to] = trees[from];
            break;
        case 4: // assigned from one that goes away
            if (!slots[to])
            {
                ctx.skip();
            }
            *slots[to] = std::move(*slots[from]);
            slots[from].reset();
            expected[to] = expected[from];
            trees[to] = trees[from];
            break;
        case 5: // read early, which keeps the data
            (void)slots[from]->getData();
            break;
        default: // replaced by another object
            put(from, from == 0 ? b : a, i % 2 == 0, first);
            break;
        }
        ctx.state(str(operation, from, expected[0].size(), expected[1].size(), slots[0] != nullptr, slots[1] != nullptr));
    }
    for (size_t s = 0; s < 2; ++s)
    {
        if (!slots[s])
        {
            continue;
        }
        const auto introspectable = slots[s]->getIntrospectable();
        MC_REQUIRE(ctx, introspectable != nullptr, "no-introspectable", "after", trace, ": holder ", s, " of an object has no introspectable view");
        MC_REQUIRE(ctx, slots[s]->getIntrospectable() == introspectable, "introspectable-changes", "after", trace, ": another introspectable view each time");
        const std::string difference = treecmp::deep(introspectable, trees[s]);
        MC_REQUIRE(ctx, difference.empty(), "introspectable", "after", trace, ": holder ", s, " shows ", difference);
        for (int twice = 0; twice < 2; ++twice)
        {
            const std::vector<uint8_t> bytes = bytesOf(*slots[s]);
            MC_REQUIRE(ctx, bytes == expected[s], "data", "after", trace, ": holder ", s, " carries ", mc::hex(bytes.data(), bytes.size()), " instead of ", mc::hex(expected[s].data(), expected[s].size()));
        }
        ctx.cases();
    }
    checkAllocator(first);
    if (ctx.wantSample())
    {
        ctx.sample("operations" + trace);
    }
}

template <typename T>
std::vector<uint8_t> encodeStd(const T& object)
{
    bm::Bits bits;
    os::encode(bits, object);
    return bits.bytes();
}
template <typename T>
std::vector<uint8_t> encodePpmr(const T& object)
{
    bm::Bits bits;
    op::encode(bits, object);
    return bits.bytes();
}
template <typename T>
Node treeStd(const T& object)
{
    return os::treeOf(object);
}
template <typename T>
Node treePpmr(const T& object)
{
    return op::treeOf(object);
}

void holdersStd(Ctx& ctx)
{
    const auto nothing = [](const StdAlloc&) {};
    switch (ctx.choose(2))
    {
    case 0:
        return holders<st::WalkerUnion, StdAlloc>(
                ctx, [](Ctx& c, uint32_t from, const StdAlloc& a) { return os::walkerUnion(c.choose(2) + from, a); }, encodeStd<st::WalkerUnion>, treeStd<st::WalkerUnion>, {}, {}, nothing);
    default:
        return holders<st::WalkerNested, StdAlloc>(
                ctx, [](Ctx& c, uint32_t from, const StdAlloc& a) { return st::WalkerNested(os::text(c.flip() ? "" : from == 0 ? "x" : obj::longText(), a), a); },
                [](const st::WalkerNested& o) {
                    bm::Bits bits;
                    bits.putVar(o.text.size(), false, false, 5);
                    bits.putBytes(o.text.data(), o.text.size());
                    return bits.bytes();
                },
                treeStd<st::WalkerNested>, {}, {}, nothing);
    }
}

void holdersPpmr(Ctx& ctx)
{
    tr::begin();
    {
        const PpmrAlloc first(&tr::arena(1));
        const PpmrAlloc second(&tr::arena(2));
        const auto check = [&](const PpmrAlloc&) {
            MC_REQUIRE(ctx, tr::arena(0).allocations() == 0, "default-memory", tr::arena(0).allocations(), " blocks were taken from the default memory resource");
        };
        holders<pt::WalkerUnion, PpmrAlloc>(
                    ctx, [](Ctx& c, uint32_t from, const PpmrAlloc& a) { return op::walkerUnion(c.choose(2) + from, a); }, encodePpmr<pt::WalkerUnion>, treePpmr<pt::WalkerUnion>, first, second, check);
    }
    tr::end(ctx);
}

// every kind of holder for one object: the same bytes, and what each says about its object
template <typename T>
void kinds(Ctx& ctx, const T& object)
{
    const std::vector<uint8_t> expected = encodeStd(object);
    const Node tree = treeStd(object);
    const std::vector<uint8_t> raw(expected);
    std::vector<std::pair<const char*, IServiceDataPtr>> data;
    T copy(object);
    const ObjectServiceData ofObject(copy);
    data.emplace_back("object", std::make_shared<ObjectServiceData>(copy));
    data.emplace_back("object with allocator", std::make_shared<ObjectServiceData>(copy, StdAlloc()));
    data.emplace_back("copied object data", std::make_shared<ObjectServiceData>(ofObject));
    data.emplace_back("introspectable", std::make_shared<IntrospectableServiceData<T>>(copy));
    data.emplace_back("introspectable of a moved object", std::make_shared<IntrospectableServiceData<T>>(T(object)));
    data.emplace_back("introspectable with allocator", std::make_shared<IntrospectableServiceData<T>>(copy, StdAlloc()));
    data.emplace_back("raw", std::make_shared<RawServiceDataHolder>(raw));
    data.emplace_back("moved raw", std::make_shared<RawServiceDataHolder>(std::vector<uint8_t>(raw)));
    data.emplace_back("raw view", std::make_shared<RawServiceDataView>(Span<const uint8_t>(raw.data(), raw.size())));
    copy = T(); // none of them depends on the object any more
    for (size_t i = 0; i < data.size(); ++i)
    {
        ctx.step();
        const IServiceData& d = *data[i].second;
        const bool introspective = i >= 3 && i <= 5;
        const auto view = d.getIntrospectable();
        MC_REQUIRE(ctx, (view != nullptr) == introspective, "introspectable-kind", data[i].first, " data has ", view ? "an" : "no", " introspectable view");
        for (int twice = 0; twice < 3; ++twice)
        {
            const std::vector<uint8_t> bytes = bytesOf(d);
            MC_REQUIRE(ctx, bytes == expected, "kind-data", data[i].first, " data is ", mc::hex(bytes.data(), bytes.size()), " instead of ", mc::hex(expected.data(), expected.size()));
            ctx.cases();
        }
        if (view)
        {
            const std::string difference = treecmp::deep(view, tree);
            MC_REQUIRE(ctx, difference.empty(), "kind-introspectable", data[i].first, " data shows ", difference);
        }
        // what is carried is an object again on the other side
        T out;
        (void)deserializeFromBytes(d.getData(), out);
        MC_REQUIRE(ctx, out == object, "kind-read", data[i].first, " data reads as another object");
    }
}

void kindsOf(Ctx& ctx)
{
    switch (ctx.choose(3))
    {
    case 0:
        return kinds(ctx, os::creatorObject(ctx, 0));
    case 1:
        return kinds(ctx, os::walkerObject(ctx, 0));
    default:
        return kinds(ctx, os::walkerUnion(ctx.choose(3)));
    }
}

// raw payloads of every size
void raw(Ctx& ctx)
{
    static const std::vector<uint32_t> LARGE = {1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, (1U << 20) - 1, 1U << 20, (1U << 20) + 1, (1U << 24) + 1};
    const uint32_t small = ctx.thorough() ? 600 : 300;
    const uint32_t pick = ctx.choose(small + static_cast<uint32_t>(LARGE.size()));
    const uint32_t size = pick < small ? pick : LARGE[pick - small];
    const uint32_t fill = ctx.choose(3);
    std::vector<uint8_t> bytes(size);
    for (size_t i = 0; i < size; ++i)
    {
        bytes[i] = static_cast<uint8_t>(fill == 0 ? 0 : fill == 1 ? 255 : i * 7 + 1);
    }
    std::vector<uint8_t> source(bytes);
    std::vector<std::pair<const char*, IServiceDataPtr>> data;
    data.emplace_back("raw", std::make_shared<RawServiceDataHolder>(source));
    std::vector<uint8_t> toMove(bytes);
    const uint8_t* const where = toMove.data();
    data.emplace_back("moved raw", std::make_shared<RawServiceDataHolder>(std::move(toMove)));
    MC_REQUIRE(ctx, size == 0 || data[1].second->getData().data() == where, "moved-raw", "moved raw data is copied");
    source.assign(size, 0x11);
    {
        const RawServiceDataHolder temporary(bytes);
        data.emplace_back("copied raw", std::make_shared<RawServiceDataHolder>(temporary));
        RawServiceDataHolder second(bytes);
        RawServiceDataHolder third(std::vector<uint8_t>{1, 2, 3});
        third = second;
        data.emplace_back("assigned raw", std::make_shared<RawServiceDataHolder>(std::move(third)));
        const RawServiceDataView view(Span<const uint8_t>(bytes.data(), bytes.size()));
        data.emplace_back("raw view", std::make_shared<RawServiceDataView>(view));
    }
    MC_REQUIRE(ctx, data[4].second->getData().data() == bytes.data(), "view", "a raw view refers to other data");
    for (const auto& d : data)
    {
        ctx.step();
        MC_REQUIRE(ctx, bytesOf(*d.second) == bytes && d.second->getData().size() == size && !d.second->getIntrospectable(), "raw-data", d.first, " data of ", size, " bytes differs");
    }
    tr::begin();
    {
        const PpmrAlloc first(&tr::arena(1));
        const Vector<uint8_t, PpmrAlloc> pmrBytes(bytes.begin(), bytes.end(), first);
        const ppmr::RawServiceDataHolder holder(pmrBytes);
        const ppmr::RawServiceDataHolder moved(Vector<uint8_t, PpmrAlloc>(pmrBytes, first));
        const ppmr::RawServiceDataView view(pmrBytes);
        MC_REQUIRE(ctx, bytesOf(holder) == bytes && bytesOf(moved) == bytes && bytesOf(view) == bytes, "raw-pmr", "raw data with an allocator of ", size, " bytes differs");
        MC_REQUIRE(ctx, tr::arena(0).allocations() == 0, "default-memory", "raw data takes ", tr::arena(0).allocations(), " blocks from the default memory resource");
    }
    tr::end(ctx);
    ctx.state(str(size, "/", fill));
}

// ---------------------------------------------------------------- request and response

// a service as the generator writes it: the response is the request object of the other method's kind
class Service : public IService
{
public:
    IServiceDataPtr callMethod(std::string_view methodName, Span<const uint8_t> requestData, void* context) override
    {
        if (context != nullptr)
        {
            ++*static_cast<int*>(context);
        }
        if (methodName == "object")
        {
            st::CreatorObject request;
            (void)deserializeFromBytes(requestData, request);
            return std::make_shared<ObjectServiceData>(request);
        }
        if (methodName == "introspectable")
        {
            st::CreatorObject request;
            (void)deserializeFromBytes(requestData, request);
            return std::make_shared<IntrospectableServiceData<st::CreatorObject>>(std::move(request));
        }
        if (methodName == "raw")
        {
            return std::make_shared<RawServiceDataHolder>(std::vector<uint8_t>(requestData.begin(), requestData.end()));
        }
        if (methodName == "view")
        {
            return std::make_shared<RawServiceDataView>(requestData);
        }
        throw ServiceException("zserio.Service: Method '") << methodName << "' does not exist!";
    }
};

class Client : public IServiceClient
{
public:
    explicit Client(IService& service) :
            m_service(service)
    {}
    Vector<uint8_t> callMethod(std::string_view methodName, const IServiceData& requestData, void* context) override
    {
        const auto response = m_service.callMethod(methodName, requestData.getData(), context);
        const Span<const uint8_t> data = response->getData();
        return Vector<uint8_t>(data.begin(), data.end());
    }

private:
    IService& m_service;
};

void calls(Ctx& ctx)
{
    const std::vector<const char*> methods = {"object", "introspectable", "raw", "view", "", "objec", "objects", "Object"};
    const size_t method = ctx.choose(8);
    const uint32_t requestKind = ctx.choose(3);
    const bool withContext = ctx.flip();
    const st::CreatorObject object = os::creatorObject(ctx, 0);
    Service service;
    Client client(service);
    int calls = 0;
    IServiceDataPtr request;
    switch (requestKind)
    {
    case 0:
        request = std::make_shared<ObjectServiceData>(object);
        break;
    case 1:
        request = std::make_shared<IntrospectableServiceData<st::CreatorObject>>(object);
        break;
    default:
        request = std::make_shared<RawServiceDataHolder>(serializeToBytes(object));
        break;
    }
    ctx.step();
    std::string result;
    try
    {
        const Vector<uint8_t> response = client.callMethod(methods[method], *request, withContext ? &calls : nullptr);
        result = response == encodeStd(object) ? "same" : "different";
    }
    catch (const ServiceException& e)
    {
        result = e.what();
    }
    const std::string expected = method < 4 ? "same" : str("zserio.Service: Method '", methods[method], "' does not exist!");
    MC_REQUIRE(ctx, result == expected, "call", "calling '", methods[method], "': ", result);
    MC_REQUIRE(ctx, calls == (withContext ? 1 : 0), "context", "the context was not passed");
}

// an in-process publish/subscribe backend behind the interface: each subscriber gets exactly what is published on
// its topic while it is subscribed
class Pubsub : public IPubsub
{
public:
    void publish(std::string_view topic, Span<const uint8_t> data, void* context) override
    {
        (void)context;
        const auto subscriptions = m_subscriptions;
        for (const auto& s : subscriptions)
        {
            if (s.second.first == topic)
            {
                (*s.second.second)(topic, data);
            }
        }
    }
    SubscriptionId subscribe(std::string_view topic, const std::shared_ptr<OnTopicCallback>& callback, void* context) override
    {
        (void)context;
        m_subscriptions[m_next] = {std::string(topic), callback};
        return m_next++;
    }
    void unsubscribe(SubscriptionId id) override
    {
        if (m_subscriptions.erase(id) == 0)
        {
            throw PubsubException("Subscription '") << id << "' doesn't exist!";
        }
    }

private:
    SubscriptionId m_next = 0;
    std::map<SubscriptionId, std::pair<std::string, std::shared_ptr<OnTopicCallback>>> m_subscriptions;
};

class Receiver : public IPubsub::OnTopicCallback
{
public:
    explicit Receiver(std::vector<st::WalkerUnion>& received) :
            m_received(received)
    {}
    void operator()(std::string_view, Span<const uint8_t> data) override
    {
        st::WalkerUnion object;
        (void)deserializeFromBytes(data, object);
        m_received.push_back(object);
    }

private:
    std::vector<st::WalkerUnion>& m_received;
};

void pubsub(Ctx& ctx)
{
    Pubsub backend;
    const char* const topics[] = {"a", "ab"};
    std::vector<st::WalkerUnion> received[2];
    std::vector<st::WalkerUnion> expected[2];
    IPubsub::SubscriptionId ids[2] = {99, 99};
    bool active[2] = {false, false};
    const uint32_t depth = ctx.thorough() ? 7 : 5;
    std::string trace;
    for (uint32_t i = 0; i < depth; ++i)
    {
        const uint32_t operation = ctx.choose(3);
        const size_t which = ctx.choose(2);
        trace += str(" ", operation, topics[which]);
        ctx.note("operations" + trace);
        ctx.step();
        if (operation == 0)
        {
            if (active[which])
            {
                ctx.skip();
            }
            ids[which] = backend.subscribe(topics[which], std::make_shared<Receiver>(received[which]), nullptr);
            active[which] = true;
        }
        else if (operation == 1)
        {
            std::string result = "unsubscribed";
            try
            {
                backend.unsubscribe(ids[which]);
            }
            catch (const PubsubException& e)
            {
                result = e.what();
            }
            MC_REQUIRE(ctx, result == (active[which] ? std::string("unsubscribed") : str("Subscription '", ids[which], "' doesn't exist!")), "unsubscribe", "after", trace, ": ", result);
            active[which] = false;
        }
        else
        {
            const st::WalkerUnion object = os::walkerUnion(i % 3);
            const ObjectServiceData data(object);
            backend.publish(topics[which], data.getData(), nullptr);
            if (active[which])
            {
                expected[which].push_back(object);
            }
        }
        MC_REQUIRE(ctx, received[0] == expected[0] && received[1] == expected[1], "received", "after", trace, ": what was received differs from what was published");
        ctx.state(str(active[0], active[1], received[0].size(), received[1].size()));
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"holders", holdersStd, 3},
                    {"holders-ppmr", holdersPpmr, 3},
                    {"kinds", kindsOf, 3},
                    {"raw", raw, 1},
                    {"calls", calls, 3},
                    {"pubsub", pubsub, 3},
            });
}
