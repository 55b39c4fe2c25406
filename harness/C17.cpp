// C17: walking reports every node once, filters suppress exactly what they are defined to suppress.
// mc: level=model_checking opt=2 sources=std_test_object
#include <algorithm>
#include <memory>
#include <regex>

#include "mc.h"
#include "objects.h"
#include "treecmp.h"
#include "zserio/Walker.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using obj::Node;
namespace to = ::test_object::std_allocator;
namespace ob = ::obj::std_allocator;

namespace
{

// ---------------------------------------------------------------- reference walk

struct Event
{
    char kind; // R root begin, r root end, A a C c array/compound begin/end, V value
    std::string field;
    size_t index;
    const Node* node;

    std::string text() const { return str(kind, " ", field, index == WALKER_NOT_ELEMENT ? "" : str("[", index, "]")); }
};

// what the reference model tells a filter about a node
struct Place
{
    const Node* node;
    size_t index;
    size_t depth; // the root's fields have depth 1
    std::string path;
    bool leaf;
};

// a filter in the terms of its documentation
struct Model
{
    virtual ~Model() = default;
    virtual bool before(const Place& place) = 0;
    virtual bool after(const Place&) { return true; }
};

class Reference
{
public:
    Reference(Model& model, std::vector<Event>& events) :
            m_model(model),
            m_events(events)
    {}
    void walk(const Node& root)
    {
        m_events.push_back({'R', "", WALKER_NOT_ELEMENT, &root});
        fields(root, 1, "");
        m_events.push_back({'r', "", WALKER_NOT_ELEMENT, &root});
    }

private:
    void fields(const Node& compound, size_t depth, const std::string& path)
    {
        for (const Node& child : compound.children)
        {
            if (compound.isChoice && child.name != compound.chosen)
            {
                continue;
            }
            if (!node(child, WALKER_NOT_ELEMENT, depth, path.empty() ? child.name : path + "." + child.name, child.name))
            {
                break;
            }
        }
    }
    bool node(const Node& n, size_t index, size_t depth, const std::string& path, const std::string& field)
    {
        const bool array = n.kind == Node::ARRAY;
        const bool compound = n.kind == Node::COMPOUND;
        const Place place{&n, index, depth, path, !array && !compound};
        if (m_model.before(place))
        {
            m_events.push_back({array ? 'A' : compound ? 'C' : 'V', field, index, &n});
            if (array)
            {
                for (size_t i = 0; i < n.children.size(); ++i)
                {
                    if (!node(n.children[i], i, depth + 1, str(path, "[", i, "]"), field))
                    {
                        break;
                    }
                }
                m_events.push_back({'a', field, index, &n});
            }
            else if (compound)
            {
                fields(n, depth + 1, path);
                m_events.push_back({'c', field, index, &n});
            }
        }
        return m_model.after(place);
    }
    Model& m_model;
    std::vector<Event>& m_events;
};

struct AllModel : Model
{
    bool before(const Place&) override { return true; }
};
struct DepthModel : Model
{
    explicit DepthModel(size_t m) :
            max(m)
    {}
    bool before(const Place& place) override { return place.depth <= max; }
    size_t max;
};
struct LengthModel : Model
{
    explicit LengthModel(size_t m) :
            max(m)
    {}
    bool before(const Place& place) override { return place.index == WALKER_NOT_ELEMENT || place.index < max; }
    size_t max;
};
void pathsOf(const Node& n, const std::string& path, std::vector<std::string>& out)
{
    if (!path.empty())
    {
        out.push_back(path);
    }
    for (size_t i = 0; i < n.children.size(); ++i)
    {
        const Node& child = n.children[i];
        if (n.kind == Node::ARRAY)
        {
            pathsOf(child, str(path, "[", i, "]"), out);
        }
        else if (!n.isChoice || child.name == n.chosen)
        {
            pathsOf(child, path.empty() ? child.name : path + "." + child.name, out);
        }
    }
}
// a node is walked when its path matches or the path of a node below it matches
struct RegexModel : Model
{
    // a literal pattern matches the path it is written for
    explicit RegexModel(const std::string& p, const std::string* literalPath = nullptr) :
            pattern(p),
            literal(literalPath),
            memory(memories()[p])
    {}
    bool before(const Place& place) override
    {
        std::vector<std::string> paths;
        pathsOf(*place.node, place.path, paths);
        return std::any_of(paths.begin(), paths.end(), [this](const std::string& path) { return matches(path); });
    }
    bool matches(const std::string& path)
    {
        if (literal)
        {
            return path == *literal;
        }
        const auto found = memory.find(path);
        if (found != memory.end())
        {
            return found->second;
        }
        return memory[path] = std::regex_match(path, std::regex(pattern));
    }
    static std::map<std::string, std::map<std::string, bool>>& memories()
    {
        static std::map<std::string, std::map<std::string, bool>> out;
        return out;
    }
    std::string pattern;
    const std::string* literal;
    std::map<std::string, bool>& memory;
};
struct AndModel : Model
{
    explicit AndModel(std::vector<Model*> m) :
            models(std::move(m))
    {}
    bool before(const Place& place) override
    {
        bool result = true;
        for (Model* m : models)
        {
            result = m->before(place) && result;
        }
        return result;
    }
    bool after(const Place& place) override
    {
        bool result = true;
        for (Model* m : models)
        {
            result = m->after(place) && result;
        }
        return result;
    }
    std::vector<Model*> models;
};

// refuses at chosen calls, in the order of the walk
struct Script
{
    std::vector<size_t> refusedBefore;
    std::vector<size_t> refusedAfter;
    size_t befores = 0;
    size_t afters = 0;
    bool before() { return std::find(refusedBefore.begin(), refusedBefore.end(), befores++) == refusedBefore.end(); }
    bool after() { return std::find(refusedAfter.begin(), refusedAfter.end(), afters++) == refusedAfter.end(); }
};
struct ScriptModel : Model
{
    explicit ScriptModel(const Script& s) :
            script(s)
    {}
    bool before(const Place& place) override
    {
        calls.push_back(str("b ", place.node->name, place.index));
        return script.before();
    }
    bool after(const Place& place) override
    {
        calls.push_back(str("e ", place.node->name, place.index));
        return script.after();
    }
    Script script;
    std::vector<std::string> calls;
};
class ScriptFilter : public IWalkFilter
{
public:
    explicit ScriptFilter(const Script& s) :
            script(s)
    {}
    bool beforeArray(const IReflectableDataConstPtr& data, const FieldInfo& info) override
    {
        return before(data, info, WALKER_NOT_ELEMENT, 'A');
    }
    bool afterArray(const IReflectableDataConstPtr& data, const FieldInfo& info) override
    {
        return after(data, info, WALKER_NOT_ELEMENT, 'A');
    }
    bool beforeCompound(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index) override
    {
        return before(data, info, index, 'C');
    }
    bool afterCompound(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index) override
    {
        return after(data, info, index, 'C');
    }
    bool beforeValue(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index) override
    {
        return before(data, info, index, 'V');
    }
    bool afterValue(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index) override
    {
        return after(data, info, index, 'V');
    }
    bool before(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index, char kind)
    {
        check(data, info, kind);
        calls.push_back(str("b ", info.schemaName, index));
        return script.before();
    }
    bool after(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index, char kind)
    {
        check(data, info, kind);
        calls.push_back(str("e ", info.schemaName, index));
        return script.after();
    }
    void check(const IReflectableDataConstPtr& data, const FieldInfo&, char kind)
    {
        const char is = !data ? 'V' : data->isArray() ? 'A' : TypeInfoUtil::isCompound(data->getTypeInfo().getSchemaType()) ? 'C' : 'V';
        if (is != kind)
        {
            wrong = str("filter is asked about a node of kind ", is, " by the method for ", kind);
        }
    }
    Script script;
    std::vector<std::string> calls;
    std::string wrong;
};

// ---------------------------------------------------------------- observing the walker

class Observer : public IWalkObserver
{
public:
    explicit Observer(const std::vector<Event>& e) :
            expected(e)
    {}
    void beginRoot(const IReflectableDataConstPtr& data) override { see('R', data, nullptr, WALKER_NOT_ELEMENT); }
    void endRoot(const IReflectableDataConstPtr& data) override { see('r', data, nullptr, WALKER_NOT_ELEMENT); }
    void beginArray(const IReflectableDataConstPtr& data, const FieldInfo& info) override
    {
        see('A', data, &info, WALKER_NOT_ELEMENT);
    }
    void endArray(const IReflectableDataConstPtr& data, const FieldInfo& info) override
    {
        see('a', data, &info, WALKER_NOT_ELEMENT);
    }
    void beginCompound(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index) override
    {
        see('C', data, &info, index);
    }
    void endCompound(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index) override
    {
        see('c', data, &info, index);
    }
    void visitValue(const IReflectableDataConstPtr& data, const FieldInfo& info, size_t index) override
    {
        see('V', data, &info, index);
    }
    void see(char kind, const IReflectableDataConstPtr& data, const FieldInfo* info, size_t index)
    {
        const Event got{kind, info == nullptr ? "" : std::string(info->schemaName), index, nullptr};
        if (!problem.empty())
        {
            return;
        }
        if (at >= expected.size())
        {
            problem = str("reports '", got.text(), "' after the end");
            return;
        }
        const Event& want = expected[at++];
        if (got.kind != want.kind || got.field != want.field || got.index != want.index)
        {
            problem = str("reports '", got.text(), "' instead of '", want.text(), "' as event ", at - 1);
            return;
        }
        const std::string difference = treecmp::shallow(data, *want.node);
        if (!difference.empty())
        {
            problem = str("event ", at - 1, " '", got.text(), "': ", difference);
        }
    }
    std::string finish()
    {
        if (problem.empty() && at != expected.size())
        {
            problem = str("ends before '", expected[at].text(), "'");
        }
        return problem;
    }
    const std::vector<Event>& expected;
    size_t at = 0;
    std::string problem;
};

std::string shapeOf(const std::vector<Event>& events)
{
    std::string out;
    for (const Event& e : events)
    {
        out += e.text() + ";";
    }
    return out;
}

// walks the object twice with the same filter, as a constant and as a variable object
template <typename T>
void compare(Ctx& ctx, T& object, const Node& tree, IWalkFilter* filter, Model& model, const char* key, const std::string& what)
{
    for (uint32_t round = 0; round < 2; ++round)
    {
        std::vector<Event> events;
        Reference(model, events).walk(tree);
        Observer observer(events);
        const IReflectableDataConstPtr data =
                round == 0 ? reflectable(static_cast<const T&>(object)) : IReflectableDataConstPtr(reflectable(object));
        if (filter != nullptr)
        {
            Walker(observer, *filter).walk(data);
        }
        else
        {
            Walker(observer).walk(data);
        }
        ctx.step(events.size());
        const std::string problem = observer.finish();
        MC_REQUIRE(ctx, problem.empty(), key, what, round == 0 ? ", " : ", second walk, ", problem);
        ctx.state(shapeOf(events));
    }
}

// runs the body on every object of the given size
template <typename F>
void onObject(Ctx& ctx, uint32_t walkerSize, uint32_t creatorSize, bool reflectableToo, F&& body)
{
    switch (ctx.choose(reflectableToo ? 3 : 2))
    {
    case 0: {
        to::WalkerObject object = ob::walkerObject(ctx, walkerSize);
        body(object, ob::treeOf(object));
        break;
    }
    case 1: {
        to::CreatorObject object = ob::creatorObject(ctx, creatorSize);
        body(object, ob::treeOf(object));
        break;
    }
    default: {
        to::ReflectableObject object = ob::reflectableObject(ctx, 0);
        body(object, ob::treeOf(object));
        break;
    }
    }
}

void everyNode(Ctx& ctx)
{
    onObject(ctx, ctx.thorough() ? 1 : 2, ctx.thorough() ? 1 : 0, true, [&](auto& object, const Node& tree) {
        AllModel all;
        compare(ctx, object, tree, nullptr, all, "walk", "walk");
        DefaultWalkFilter filter;
        compare(ctx, object, tree, &filter, all, "default-filter", "walk with the default filter");
        DefaultWalkObserver nothing;
        Walker(nothing).walk(reflectable(object));
    });
}

void depths(Ctx& ctx)
{
    onObject(ctx, ctx.thorough() ? 1 : 2, 0, true, [&](auto& object, const Node& tree) {
        for (size_t depth : {size_t{0}, size_t{1}, size_t{2}, size_t{3}, size_t{4}, size_t{5}, size_t{6}, size_t{255}, size_t{256}, size_t{257},
                     size_t{65536}, size_t{1} << 32, ~size_t{0}})
        {
            DepthModel model(depth);
            DepthWalkFilter filter(depth);
            compare(ctx, object, tree, &filter, model, "depth", str("depth ", depth));
        }
    });
}

void lengths(Ctx& ctx)
{
    onObject(ctx, ctx.thorough() ? 1 : 2, 0, false, [&](auto& object, const Node& tree) {
        for (size_t length : {size_t{0}, size_t{1}, size_t{2}, size_t{3}, size_t{256}, size_t{65536}, size_t{1} << 32, ~size_t{0}})
        {
            LengthModel model(length);
            ArrayLengthWalkFilter filter(length);
            compare(ctx, object, tree, &filter, model, "array-length", str("array length ", length));
        }
    });
}

std::string escaped(const std::string& path)
{
    std::string out;
    for (const char c : path)
    {
        if (c == '[' || c == ']' || c == '.')
        {
            out += '\\';
        }
        out += c;
    }
    return out;
}

const std::vector<std::string>& patterns()
{
    static const std::vector<std::string> out = {".*", "", "text", ".*text", ".*\\.text", "nested.*", "nested\\.text", ".*\\]",
            ".*\\[[01]\\]", ".*\\[1\\].*", "unionArray", "unionArray\\[1\\].*", "[a-z]+", "choiceField\\..*", "nope", "[^.]*",
            "[^.]*\\.[^.]*", "optionalUnionArray.*", ".*nestedArray", ".*nestedArray\\[0\\].*"};
    return out;
}

// every path of the object literally, and patterns that match several
void regexes(Ctx& ctx)
{
    const uint32_t which = ctx.choose(static_cast<uint32_t>(patterns().size()) + 1);
    onObject(ctx, 0, 0, true, [&](auto& object, const Node& tree) {
        if constexpr (std::is_same_v<std::decay_t<decltype(object)>, to::CreatorObject>)
        {
            if (!ctx.thorough() && (object.value != 0 || !object.text.empty()))
            {
                ctx.skip(); // values do not matter to paths
            }
        }
        if (which < patterns().size())
        {
            RegexModel model(patterns()[which]);
            RegexWalkFilter filter(patterns()[which].c_str());
            compare(ctx, object, tree, &filter, model, "regex", str("regex ", patterns()[which]));
            return;
        }
        std::vector<std::string> paths;
        pathsOf(tree, "", paths);
        for (const std::string& path : paths)
        {
            const std::string pattern = escaped(path);
            RegexModel model(pattern, &path);
            RegexWalkFilter filter(pattern.c_str());
            compare(ctx, object, tree, &filter, model, "path", str("path ", pattern));
        }
    });
}

// every path of larger objects
void largerPaths(Ctx& ctx)
{
    to::WalkerObject object = ob::walkerObject(ctx, 2);
    const Node tree = ob::treeOf(object);
    std::vector<std::string> paths;
    pathsOf(tree, "", paths);
    for (const std::string& path : paths)
    {
        const std::string pattern = escaped(path);
        RegexModel model(pattern, &path);
        RegexWalkFilter filter(pattern.c_str());
        compare(ctx, object, tree, &filter, model, "path", str("path ", pattern));
    }
}

// arrays with many elements: every element, every bound around the length, paths of elements at the powers of two
void large(Ctx& ctx)
{
    const uint32_t place = ctx.choose(7);
    const uint32_t n = ctx.pick(ob::largeSizes(ctx.thorough()));
    const auto check = [&](auto object, const std::string& array) {
        const Node tree = ob::treeOf(object);
        const std::string what = str(array, " of ", n, " elements");
        AllModel all;
        compare(ctx, object, tree, nullptr, all, "walk", what);
        for (const size_t length : {size_t{0}, size_t{1}, size_t{16}, size_t{255}, size_t{256}, size_t{n} - 1, size_t{n}, size_t{n} + 1})
        {
            LengthModel model(length);
            ArrayLengthWalkFilter filter(length);
            compare(ctx, object, tree, &filter, model, "array-length", str(what, ", array length ", length));
        }
        if (n > (ctx.thorough() ? 2000 : 300))
        {
            return; // every pattern is compared with every path
        }
        std::vector<std::string> paths;
        pathsOf(tree, "", paths);
        for (const std::string& path : paths)
        {
            for (const uint32_t index : {9U, 10U, 16U, 64U, 128U, 256U, n - 1})
            {
                if (path == str(array, "[", index, "]") || path.rfind(str(array, "[", index, "]."), 0) == 0)
                {
                    const std::string pattern = escaped(path);
                    RegexModel model(pattern, &path);
                    RegexWalkFilter filter(pattern.c_str());
                    compare(ctx, object, tree, &filter, model, "path", str(what, ", path ", pattern));
                    break;
                }
            }
        }
    };
    if (place < ob::largeWalkerPlaces)
    {
        check(ob::largeWalker(place, n), ob::largeWalkerName(place));
    }
    else
    {
        check(ob::largeCreator(place - ob::largeWalkerPlaces, n), ob::largeCreatorName(place - ob::largeWalkerPlaces));
    }
}

struct Built
{
    std::unique_ptr<IWalkFilter> filter;
    std::unique_ptr<Model> model;
    std::string name;
};

Built build(uint32_t which)
{
    Built b;
    switch (which)
    {
    case 0:
        b.filter = std::make_unique<DepthWalkFilter>(0);
        b.model = std::make_unique<DepthModel>(0);
        b.name = "depth 0";
        break;
    case 1:
        b.filter = std::make_unique<DepthWalkFilter>(2);
        b.model = std::make_unique<DepthModel>(2);
        b.name = "depth 2";
        break;
    case 2:
        b.filter = std::make_unique<DepthWalkFilter>(3);
        b.model = std::make_unique<DepthModel>(3);
        b.name = "depth 3";
        break;
    case 3:
        b.filter = std::make_unique<ArrayLengthWalkFilter>(0);
        b.model = std::make_unique<LengthModel>(0);
        b.name = "length 0";
        break;
    case 4:
        b.filter = std::make_unique<ArrayLengthWalkFilter>(1);
        b.model = std::make_unique<LengthModel>(1);
        b.name = "length 1";
        break;
    case 5:
        b.filter = std::make_unique<RegexWalkFilter>("unionArray.*");
        b.model = std::make_unique<RegexModel>("unionArray.*");
        b.name = "regex unionArray.*";
        break;
    case 6:
        b.filter = std::make_unique<RegexWalkFilter>(".*\\[1\\].*");
        b.model = std::make_unique<RegexModel>(".*\\[1\\].*");
        b.name = "regex .*[1].*";
        break;
    case 7:
        b.filter = std::make_unique<DefaultWalkFilter>();
        b.model = std::make_unique<AllModel>();
        b.name = "default";
        break;
    default:
        b.filter = std::make_unique<RegexWalkFilter>(".*text");
        b.model = std::make_unique<RegexModel>(".*text");
        b.name = "regex .*text";
        break;
    }
    return b;
}

// every sequence of up to three filters
void combined(Ctx& ctx)
{
    const uint32_t count = ctx.choose(4);
    std::vector<Built> built;
    std::string name;
    for (uint32_t i = 0; i < count; ++i)
    {
        built.push_back(build(ctx.choose(9)));
        name += (i > 0 ? " and " : "") + built.back().name;
    }
    AndWalkFilter::WalkFilters filters;
    std::vector<Model*> models;
    for (const Built& b : built)
    {
        filters.push_back(*b.filter);
        models.push_back(b.model.get());
    }
    AndModel model(models);
    AndWalkFilter filter(filters);
    static std::vector<to::WalkerObject> objects;
    if (objects.empty())
    {
        for (uint32_t i = 0; i < 3; ++i)
        {
            to::WalkerObject object;
            object.identifier = 13;
            object.nested.emplace(to::WalkerNested("n"));
            object.text = "t";
            for (uint32_t k = 0; k < 3; ++k)
            {
                object.unionArray.push_back(ob::walkerUnion((k + 4 * i + 2) % ob::walkerUnionVariants));
            }
            if (i > 0)
            {
                object.optionalUnionArray.emplace();
                object.optionalUnionArray->push_back(ob::walkerUnion(5));
                object.optionalUnionArray->push_back(ob::walkerUnion(1));
            }
            object.choiceSelector = 8;
            object.choiceField.emplace<to::WalkerChoice::Tag::value8>(zserio::UInt8(1));
            objects.push_back(object);
        }
    }
    to::WalkerObject& object = objects[ctx.choose(3)];
    ctx.note(name);
    compare(ctx, object, ob::treeOf(object), &filter, model, "combined", name);
}

// a filter of the user refusing before or after any one or two nodes of the walk
void scripted(Ctx& ctx)
{
    const uint32_t firstAt = ctx.choose(ctx.thorough() ? 60 : 40);
    const bool firstAfter = ctx.flip();
    const uint32_t secondAt = ctx.choose(ctx.thorough() ? 61 : 25); // 0 is none
    const bool secondAfter = secondAt != 0 && ctx.flip();
    Script script;
    (firstAfter ? script.refusedAfter : script.refusedBefore).push_back(firstAt);
    if (secondAt != 0)
    {
        (secondAfter ? script.refusedAfter : script.refusedBefore).push_back(firstAfter == secondAfter ? firstAt + secondAt : secondAt - 1);
    }
    static std::vector<to::CreatorObject> creators;
    if (creators.empty())
    {
        to::CreatorObject object;
        object.nested = ob::creatorNested(1);
        object.nestedArray.push_back(ob::creatorNested(0));
        object.nestedArray.push_back(ob::creatorNested(2));
        object.textArray.push_back("x");
        object.textArray.push_back("y");
        object.externArray.emplace();
        object.optionalNested.emplace(ob::creatorNested(3));
        creators.push_back(object);
    }
    static std::vector<to::WalkerObject> walkers;
    if (walkers.empty())
    {
        to::WalkerObject object;
        object.identifier = 13;
        object.nested.emplace(to::WalkerNested("n"));
        for (uint32_t k = 0; k < 6; ++k)
        {
            object.unionArray.push_back(ob::walkerUnion(5 - k));
        }
        object.optionalUnionArray.emplace();
        object.choiceSelector = 8;
        object.choiceField.emplace<to::WalkerChoice::Tag::value8>(zserio::UInt8(1));
        walkers.push_back(object);
    }
    const auto run = [&](auto& object, const Node& tree) {
        ScriptModel model(script);
        ScriptFilter filter(script);
        std::vector<Event> events;
        Reference(model, events).walk(tree);
        Observer observer(events);
        Walker walker(observer, filter);
        walker.walk(reflectable(object));
        ctx.step(events.size());
        const std::string problem = observer.finish();
        MC_REQUIRE(ctx, problem.empty(), "scripted", problem);
        MC_REQUIRE(ctx, filter.wrong.empty(), "filter-method", filter.wrong);
        MC_REQUIRE(ctx, filter.calls == model.calls, "filter-calls", "filter is asked ", filter.calls.size(), " times instead of ", model.calls.size(),
                " or about other nodes");
        ctx.state(shapeOf(events));
    };
    ctx.note(str("refuse ", firstAfter ? "after " : "before ", firstAt, secondAt != 0 ? secondAfter ? " and after " : " and before " : "", secondAt));
    run(creators[0], ob::treeOf(creators[0]));
    run(walkers[0], ob::treeOf(walkers[0]));
}

// the depth filter asked about nodes of a deep tree, the way the walker asks
void deepFilter(Ctx& ctx)
{
    const size_t depth = ctx.pick(std::vector<size_t>{0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 511, 65534, 65535, 65536, size_t(1) << 32, ~size_t{0}});
    const uint32_t levels = ctx.pick(std::vector<uint32_t>{3, 130, 300, 600, 66000});
    const uint32_t period = 1 + ctx.choose(3); // every how many levels an array
    const to::CreatorObject object;
    const IReflectableDataConstPtr data = reflectable(object);
    const auto& field = typeInfo<to::CreatorObject>().getFields()[0];
    DepthWalkFilter filter(depth);
    for (uint32_t round = 0; round < 2; ++round)
    {
        for (size_t at = 0; at < levels; ++at)
        {
            const bool value = filter.beforeValue(data, field, WALKER_NOT_ELEMENT);
            MC_REQUIRE(ctx, value == (at + 1 <= depth), "deep-value", "value at depth ", at, " with limit ", depth);
            MC_REQUIRE(ctx, filter.afterValue(data, field, WALKER_NOT_ELEMENT), "deep-after", "siblings of a value at depth ", at, " are refused");
            const bool entered = at % period == 0 ? filter.beforeArray(data, field) : filter.beforeCompound(data, field, at);
            MC_REQUIRE(ctx, entered == (at + 1 <= depth), "deep-node", "node at depth ", at, " with limit ", depth);
        }
        for (size_t at = levels; at-- > 0;)
        {
            const bool more = at % period == 0 ? filter.afterArray(data, field) : filter.afterCompound(data, field, at);
            MC_REQUIRE(ctx, more, "deep-after", "siblings at depth ", at, " are refused");
            MC_REQUIRE(ctx, filter.beforeValue(data, field, 0) == (at + 1 <= depth), "deep-value", "value at depth ", at, " with limit ", depth, " on the way back");
        }
    }
    ctx.step(4 * levels);
    ctx.state(str(depth, ",", levels, ",", period));
}

// what cannot be walked
void notCompound(Ctx& ctx)
{
    const uint32_t which = ctx.choose(6);
    std::vector<Event> none;
    Observer observer(none);
    Walker walker(observer);
    to::CreatorObject object;
    object.optionalNested.reset();
    IReflectableDataConstPtr data;
    switch (which)
    {
    case 0:
        break;
    case 1:
        data = reflectable(to::CreatorEnum::ONE);
        break;
    case 2:
        data = reflectable(to::CreatorBitmask());
        break;
    case 3:
        data = reflectable(object)->getField("value");
        break;
    case 4:
        data = reflectable(object)->getField("text");
        break;
    default:
        data = reflectable(object)->getField("optionalNested"); // null
        break;
    }
    ctx.step();
    bool refused = false;
    try
    {
        walker.walk(data);
    }
    catch (const CppRuntimeException&)
    {
        refused = true;
    }
    MC_REQUIRE(ctx, refused && observer.finish().empty(), "not-compound", "walking case ", which, " is not refused: ", observer.problem);
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"every-node", everyNode},
                    {"depths", depths},
                    {"lengths", lengths},
                    {"deep-filter", deepFilter},
                    {"regexes", regexes},
                    {"larger-paths", largerPaths},
                    {"large", large, 2},
                    {"combined", combined},
                    {"scripted", scripted},
                    {"not-compound", notCompound},
            });
}
