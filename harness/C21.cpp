// C21: SQLite connections and columns keep data and transactions intact.
// mc: level=model_checking opt=0 sources=std_test_object libs=sqlite3 variants=default,arch32
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>

#include "mc.h"
#include "objects.h"
#include "sqlitemc.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteUtil.h"
#include "zserio/Types.h"
#include "zserio/View.h"
#include "zserio/pmr/Optional.h"
#include "zserio/pmr/String.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
namespace st = ::test_object::std_allocator;
namespace os = ::obj::std_allocator;
using StdAlloc = std::allocator<uint8_t>;

namespace c21
{
// a compound of as many bits as its parameter says: down to none
struct Bits
{
    uint64_t value = 0;
};
inline bool operator==(const Bits& lhs, const Bits& rhs)
{
    return lhs.value == rhs.value;
}
} // namespace c21

namespace zserio
{
template <>
class View<c21::Bits>
{
public:
    View(const c21::Bits& data, uint8_t bits) :
            m_data(data),
            m_bits(bits)
    {}
    const c21::Bits& m_data;
    uint8_t m_bits;
};
namespace detail
{
template <>
struct ObjectTraits<c21::Bits>
{
    static void validate(const View<c21::Bits>&, std::string_view)
    {}
    static BitSize bitSizeOf(const View<c21::Bits>& view, BitSize)
    {
        return view.m_bits;
    }
    static void write(BitStreamWriter& writer, const View<c21::Bits>& view)
    {
        if (view.m_bits != 0)
        {
            writer.writeUnsignedBits64(view.m_data.value, view.m_bits);
        }
    }
    static View<c21::Bits> read(BitStreamReader& reader, c21::Bits& data, uint8_t bits)
    {
        data.value = bits == 0 ? 0 : reader.readUnsignedBits64(bits);
        return {data, bits};
    }
};
} // namespace detail
} // namespace zserio

namespace
{

using namespace sqlitemc;

// ---------------------------------------------------------------- columns: what is bound is what is read

// how the generated code passes a column's value
template <typename T>
struct Column
{
    static T view(const T& value)
    {
        return value;
    }
    static void read(Optional<T>& column, sqlite3_stmt& stmt, int index)
    {
        detail::readColumn(column, stmt, index);
    }
};
template <>
struct Column<String>
{
    static std::string_view view(const String& value)
    {
        return value.empty() ? std::string_view() : std::string_view(value);
    }
    static void read(Optional<String>& column, sqlite3_stmt& stmt, int index)
    {
        detail::readColumn(column, stmt, index);
    }
};
template <typename V>
struct Column<detail::DynIntWrapper<V>>
{
    using T = detail::DynIntWrapper<V>;
    static View<T> view(const T& value)
    {
        return View<T>(value, static_cast<uint8_t>(sizeof(V) * 8));
    }
    static void read(Optional<T>& column, sqlite3_stmt& stmt, int index)
    {
        detail::readColumn(column, stmt, index);
    }
};
uint8_t g_bits = 0;
template <>
struct Column<c21::Bits>
{
    static View<c21::Bits> view(const c21::Bits& value)
    {
        return View<c21::Bits>(value, g_bits);
    }
    static void read(Optional<c21::Bits>& column, sqlite3_stmt& stmt, int index)
    {
        detail::readColumn(column, stmt, index, g_bits);
    }
};
template <typename T>
struct ObjectColumn
{
    static View<T> view(const T& value)
    {
        return View<T>(value);
    }
    static void read(Optional<T>& column, sqlite3_stmt& stmt, int index)
    {
        detail::readColumn(column, stmt, index);
    }
};
template <>
struct Column<st::CreatorObject> : ObjectColumn<st::CreatorObject>
{};
template <>
struct Column<st::WalkerUnion> : ObjectColumn<st::WalkerUnion>
{};
template <>
struct Column<st::WalkerObject> : ObjectColumn<st::WalkerObject>
{};

template <typename T>
int bindAs(sqlite3_stmt& stmt, int index, const T& value)
{
    const auto& view = Column<T>::view(value);
    const BitSize bitSize = detail::prepareColumn(view);
    return detail::bindColumn(stmt, index, view, bitSize, StdAlloc());
}

template <typename T>
bool isNan(const T& value)
{
    if constexpr (std::is_same_v<T, Float16> || std::is_same_v<T, Float32> || std::is_same_v<T, Float64>)
    {
        return std::isnan(static_cast<double>(value));
    }
    return false;
}

// one value per row, through one statement that is bound again for each; a null between values is null
template <typename T>
void column(Ctx& ctx, const std::string& type, const std::string& typeName, int sqliteType, const std::vector<T>& values)
{
    MC_REQUIRE(ctx, detail::ColumnTraits<T>::TYPE_NAME == typeName, "type-name", "the column type of ", type, " is ", detail::ColumnTraits<T>::TYPE_NAME);
    MC_REQUIRE(ctx, detail::ColumnTraits<T>::TYPE == sqliteType, "type", "the SQLite type of ", type, " is ", static_cast<int>(detail::ColumnTraits<T>::TYPE));
    const size_t index = ctx.choose(static_cast<uint32_t>(values.size()));
    const uint32_t before = ctx.choose(static_cast<uint32_t>(values.size()) + 1); // bound before, in the same statement, to the same place
    const int64_t start = memory().blocks;
    {
        SqliteConnection connection(open(0, ":memory:"));
        connection.executeUpdate(str("CREATE TABLE t(pad INTEGER, c ", detail::ColumnTraits<T>::TYPE_NAME, ", guard TEXT)"));
        {
            std::unique_ptr<sqlite3_stmt, SqliteFinalizer> stmt(connection.prepareStatement("INSERT INTO t VALUES(1, ?, 'g')"));
            for (uint32_t i : {before, static_cast<uint32_t>(values.size()), static_cast<uint32_t>(index)})
            {
                const int result = i < values.size() ? bindAs(*stmt, 1, values[i]) : sqlite3_bind_null(stmt.get(), 1);
                MC_REQUIRE(ctx, result == SQLITE_OK, "bind", "binding a value of ", type, " gives ", result);
                MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_DONE, "bind-step", "a row with a value of ", type, " is refused");
                sqlite3_reset(stmt.get());
                ctx.step();
            }
        }
        std::unique_ptr<sqlite3_stmt, SqliteFinalizer> stmt(connection.prepareStatement("SELECT pad, c, guard FROM t ORDER BY rowid"));
        Optional<T> reused;
        for (uint32_t i : {before, static_cast<uint32_t>(values.size()), static_cast<uint32_t>(index)})
        {
            MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_ROW, "rows", "a row is missing");
            const bool null = sqlite3_column_type(stmt.get(), 1) == SQLITE_NULL;
            // SQLite has no not-a-number: it is a null
            const bool expectNull = i == values.size() || isNan(values[i]);
            MC_REQUIRE(ctx, null == expectNull, "null", "value ", i, " of ", type, " is ", null ? "null" : "not null");
            if (!null)
            {
                MC_REQUIRE(ctx, sqlite3_column_type(stmt.get(), 1) == sqliteType, "stored-type", "value ", i, " of ", type, " is stored as type ", sqlite3_column_type(stmt.get(), 1));
                Optional<T> fresh;
                Column<T>::read(fresh, *stmt, 1);
                MC_REQUIRE(ctx, fresh.has_value() && *fresh == values[i], "value", "value ", i, " of ", type, " is read back different");
                Column<T>::read(reused, *stmt, 1);
                MC_REQUIRE(ctx, reused.has_value() && *reused == values[i], "value-reused", "value ", i, " of ", type, " is read back different over another one");
            }
            MC_REQUIRE(ctx, sqlite3_column_int(stmt.get(), 0) == 1 && std::strcmp(reinterpret_cast<const char*>(sqlite3_column_text(stmt.get(), 2)), "g") == 0, "other-columns",
                    "another column changed");
            ctx.step();
            ctx.cases();
        }
        MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_DONE, "more-rows", "there are more rows");
    }
    MC_REQUIRE(ctx, memory().blocks == start, "memory", "SQLite memory is not released");
    ctx.state(str(type, index, ",", before));
}

template <typename T>
std::vector<T> ints(uint32_t bits, bool isSigned)
{
    using V = typename T::ValueType;
    std::vector<T> out;
    for (const uint32_t b : {1U, 2U, 7U, 8U, 15U, 16U, 31U, 32U, 33U, 53U, 62U, 63U, 64U})
    {
        if (b <= bits)
        {
            const uint64_t max = isSigned ? (UINT64_C(1) << (b - 1)) - 1 : b == 64 ? UINT64_MAX : (UINT64_C(1) << b) - 1;
            out.emplace_back(static_cast<V>(max));
            if (isSigned)
            {
                out.emplace_back(static_cast<V>(-static_cast<int64_t>(max) - 1));
            }
        }
    }
    out.emplace_back(static_cast<V>(0));
    return out;
}

void columns(Ctx& ctx)
{
    switch (ctx.choose(31))
    {
    case 0: return column<Bool>(ctx, "bool", "INTEGER", SQLITE_INTEGER, {false, true});
    case 1: return column<Int1>(ctx, "int:1", "INTEGER", SQLITE_INTEGER, {Int1(0), Int1(-1)});
    case 2: return column<UInt1>(ctx, "bit:1", "INTEGER", SQLITE_INTEGER, {UInt1(0), UInt1(1)});
    case 3: return column<Int8>(ctx, "int8", "INTEGER", SQLITE_INTEGER, ints<Int8>(8, true));
    case 4: return column<UInt8>(ctx, "uint8", "INTEGER", SQLITE_INTEGER, ints<UInt8>(8, false));
    case 5: return column<Int16>(ctx, "int16", "INTEGER", SQLITE_INTEGER, ints<Int16>(16, true));
    case 6: return column<UInt16>(ctx, "uint16", "INTEGER", SQLITE_INTEGER, ints<UInt16>(16, false));
    case 7: return column<Int32>(ctx, "int32", "INTEGER", SQLITE_INTEGER, ints<Int32>(32, true));
    case 8: return column<UInt32>(ctx, "uint32", "INTEGER", SQLITE_INTEGER, ints<UInt32>(32, false));
    case 9: return column<Int64>(ctx, "int64", "INTEGER", SQLITE_INTEGER, ints<Int64>(64, true));
    case 10: return column<UInt64>(ctx, "uint64", "INTEGER", SQLITE_INTEGER, ints<UInt64>(64, false));
    case 11: return column<Int33>(ctx, "int:33", "INTEGER", SQLITE_INTEGER, ints<Int33>(33, true));
    case 12: return column<DynInt8>(ctx, "int<8>", "INTEGER", SQLITE_INTEGER, ints<DynInt8>(8, true));
    case 13: return column<DynUInt16>(ctx, "bit<16>", "INTEGER", SQLITE_INTEGER, ints<DynUInt16>(16, false));
    case 14: return column<DynInt32>(ctx, "int<32>", "INTEGER", SQLITE_INTEGER, ints<DynInt32>(32, true));
    case 15: return column<DynUInt64>(ctx, "bit<64>", "INTEGER", SQLITE_INTEGER, ints<DynUInt64>(64, false));
    case 16: return column<VarInt16>(ctx, "varint16", "INTEGER", SQLITE_INTEGER, ints<VarInt16>(15, true));
    case 17: return column<VarInt>(ctx, "varint", "INTEGER", SQLITE_INTEGER, ints<VarInt>(64, true));
    case 18: return column<VarUInt>(ctx, "varuint", "INTEGER", SQLITE_INTEGER, ints<VarUInt>(64, false));
    case 19: return column<VarSize>(ctx, "varsize", "INTEGER", SQLITE_INTEGER, ints<VarSize>(31, false));
    case 20:
        return column<Float16>(ctx, "float16", "REAL", SQLITE_FLOAT, {Float16(0.0F), Float16(1.0F), Float16(-2.5F), Float16(65504.0F), Float16(5.9604645e-8F), Float16(INFINITY), Float16(-INFINITY), Float16(NAN)});
    case 21:
        return column<Float32>(ctx, "float32", "REAL", SQLITE_FLOAT,
                {Float32(0.0F), Float32(3.0F), Float32(0.1F), Float32(std::numeric_limits<float>::max()), Float32(std::numeric_limits<float>::denorm_min()), Float32(INFINITY), Float32(-INFINITY), Float32(NAN)});
    case 22:
        return column<Float64>(ctx, "float64", "REAL", SQLITE_FLOAT,
                {Float64(0.0), Float64(-7.0), Float64(0.1), Float64(9007199254740993.0), Float64(std::numeric_limits<double>::max()), Float64(std::numeric_limits<double>::lowest()),
                        Float64(std::numeric_limits<double>::denorm_min()), Float64(INFINITY), Float64(-INFINITY), Float64(NAN)});
    case 23: {
        using namespace std::string_literals;
        std::vector<String> values;
        for (const std::string& s : {""s, "a"s, "\0"s, "a\0"s, "\0b"s, "a\0b\0c"s, "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80"s, "'; DROP TABLE t; --"s, "12"s, std::string(40, 'x'), std::string(5000, 'y') + "\0z"s})
        {
            values.emplace_back(s.data(), s.size());
        }
        return column<String>(ctx, "string", "TEXT", SQLITE_TEXT, values);
    }
    case 24:
        return column<st::CreatorEnum>(ctx, "enum int8", "INTEGER", SQLITE_INTEGER, {st::CreatorEnum::ONE, st::CreatorEnum::TWO, st::CreatorEnum::MinusOne});
    case 25: return column<st::CreatorUnsignedEnum>(ctx, "enum uint8", "INTEGER", SQLITE_INTEGER, {st::CreatorUnsignedEnum::ONE, st::CreatorUnsignedEnum::TWO});
    case 26:
        return column<st::CreatorBitmask>(ctx, "bitmask", "INTEGER", SQLITE_INTEGER,
                {st::CreatorBitmask(), st::CreatorBitmask(st::CreatorBitmask::Values::READ), st::CreatorBitmask(st::CreatorBitmask::Values::READ) | st::CreatorBitmask::Values::WRITE});
    case 27: {
        // zero and more bits, whole and broken bytes
        static const uint8_t sizes[] = {0, 1, 7, 8, 9, 63, 64};
        g_bits = sizes[ctx.choose(7)];
        std::vector<c21::Bits> values(2);
        values[1].value = g_bits == 0 ? 0 : g_bits == 64 ? UINT64_MAX : (UINT64_C(1) << g_bits) - 1;
        return column<c21::Bits>(ctx, str(static_cast<int>(g_bits), " bits"), "BLOB", SQLITE_BLOB, values);
    }
    case 28: {
        std::vector<st::WalkerUnion> values;
        for (uint32_t i = 0; i < 3; ++i)
        {
            values.push_back(os::walkerUnion(i));
        }
        return column<st::WalkerUnion>(ctx, "WalkerUnion", "BLOB", SQLITE_BLOB, values);
    }
    case 29: return column<st::WalkerObject>(ctx, "WalkerObject", "BLOB", SQLITE_BLOB, {os::walkerObject(ctx, 0)});
    default: return column<st::CreatorObject>(ctx, "CreatorObject", "BLOB", SQLITE_BLOB, {os::creatorObject(ctx, 0)});
    }
}

// every combination of present and absent columns of different kinds in a row, in every rotation
void rows(Ctx& ctx)
{
    const uint32_t present = ctx.choose(64);
    const int rotation = static_cast<int>(ctx.choose(6));
    const auto place = [&](int i) { return (i + rotation) % 6; };
    SqliteConnection connection(open(0, ":memory:"));
    connection.executeUpdate("CREATE TABLE t(a,b,c,d,e,f)");
    const String text("a\0b", 3);
    const st::WalkerUnion object = os::walkerUnion(1);
    {
        std::unique_ptr<sqlite3_stmt, SqliteFinalizer> stmt(connection.prepareStatement("INSERT INTO t VALUES(?,?,?,?,?,?)"));
        const auto bind = [&](int i, const auto& value) {
            const int result = (present >> i) & 1U ? bindAs(*stmt, place(i) + 1, value) : sqlite3_bind_null(stmt.get(), place(i) + 1);
            MC_REQUIRE(ctx, result == SQLITE_OK, "bind-row", "binding column ", i, " gives ", result);
            ctx.step();
        };
        bind(0, UInt64(UINT64_MAX));
        bind(1, Bool(true));
        bind(2, Float64(0.1));
        bind(3, text);
        bind(4, object);
        bind(5, st::CreatorEnum::MinusOne);
        MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_DONE, "step-row", "the row is refused");
    }
    std::unique_ptr<sqlite3_stmt, SqliteFinalizer> stmt(connection.prepareStatement("SELECT a,b,c,d,e,f FROM t"));
    MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_ROW, "row", "the row is missing");
    const auto check = [&](int i, auto value) {
        using T = decltype(value);
        const bool null = sqlite3_column_type(stmt.get(), place(i)) == SQLITE_NULL;
        MC_REQUIRE(ctx, null != (((present >> i) & 1U) != 0), "null-row", "column ", i, " is ", null ? "null" : "not null");
        if (!null)
        {
            Optional<T> column;
            Column<T>::read(column, *stmt, place(i));
            MC_REQUIRE(ctx, column.has_value() && *column == value, "value-row", "column ", i, " is read back different");
        }
        ctx.step();
        ctx.cases();
    };
    check(0, UInt64(UINT64_MAX));
    check(1, Bool(true));
    check(2, Float64(0.1));
    check(3, text);
    check(4, object);
    check(5, st::CreatorEnum::MinusOne);
    ctx.state(str(present, "/", rotation));
}

// a value that does not serialize is not bound, and nothing of it is left
void invalid(Ctx& ctx)
{
    const bool viaView = ctx.flip();
    const uint8_t bits = static_cast<uint8_t>(1 + ctx.choose(7));
    const int32_t value = static_cast<int32_t>(ctx.choose(256)) - 128;
    const int32_t low = -(1 << (bits - 1));
    const int32_t high = (1 << (bits - 1)) - 1;
    const View<DynInt8> view(DynInt8(static_cast<int8_t>(value)), bits);
    bool refused = false;
    const std::string outcome = attempt([&] {
        try
        {
            if (viaView)
            {
                (void)detail::prepareColumn(view);
            }
            else
            {
                detail::validate(view, "");
            }
        }
        catch (const OutOfRangeException&)
        {
            refused = true;
        }
    });
    ctx.step();
    MC_REQUIRE(ctx, outcome == "ok" && refused == (value < low || value > high), "invalid", "value ", value, " of ", static_cast<int>(bits), " bits is ", refused ? "refused" : "accepted");
    ctx.state(str(static_cast<int>(bits), refused));
}

// ---------------------------------------------------------------- connections: every sequence of operations

struct Model
{
    int db = -1; // which database the connection stands for
    bool internal = true;
    bool inTransaction[2] = {false, false};
    int committed[2] = {0, 0};
    int pending[2] = {0, 0};
    bool used[2] = {false, false};
    std::vector<bool> started; // results of startTransaction not ended yet
    std::string describe() const
    {
        return str(db, internal, inTransaction[0], inTransaction[1], committed[0], committed[1], pending[0], pending[1], started.size());
    }
};

void connections(Ctx& ctx)
{
    const int64_t startBlocks = memory().blocks;
    const uint32_t depth = ctx.thorough() ? 6 : 4;
    struct Databases
    {
        sqlite3* observer[2] = {nullptr, nullptr};
        sqlite3* handle[2] = {nullptr, nullptr};
        bool external[2] = {false, false};
        ~Databases()
        {
            for (int i = 0; i < 2; ++i)
            {
                if (external[i])
                {
                    sqlite3_close(handle[i]);
                }
                sqlite3_close(observer[i]);
            }
        }
    };
    auto databases = std::make_unique<Databases>(); // gone after everything else
    sqlite3** const observer = databases->observer;
    sqlite3** const handle = databases->handle;
    bool* const external = databases->external;
    std::string name[2];
    const auto statementGone = [](sqlite3_stmt* s) { sqlite3_finalize(s); };
    for (int i = 0; i < 2; ++i)
    {
        name[i] = str("file:/mc", i, "?vfs=memdb");
        observer[i] = open(2, name[i].c_str());
        run(observer[i], "CREATE TABLE t(x INTEGER UNIQUE)");
        g_closed[i] = 0;
    }
    {
        Model m;
        std::unique_ptr<sqlite3_stmt, decltype(statementGone)> kept(nullptr, statementGone);
        int keptDb = -1;
        int next = 0;
        auto connection = std::make_unique<SqliteConnection>();
        // what happens to the model when the connection lets its database go
        const auto letGo = [&] {
            if (m.db >= 0 && m.internal)
            {
                // SQLite really closes when the last statement is gone, and rolls an open transaction back; until
                // then it stays as it is
                if (keptDb != m.db)
                {
                    m.pending[m.db] = 0;
                    m.inTransaction[m.db] = false;
                }
            }
            m.db = -1;
            m.internal = true;
        };
        const auto check = [&](const char* when) {
            MC_REQUIRE(ctx, connection->getConnection() == (m.db < 0 ? nullptr : handle[m.db]), "connection", when, ": another connection is held");
            MC_REQUIRE(ctx, connection->getConnectionType() == (m.internal ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION), "connection-type", when,
                    ": the connection type is ", static_cast<int>(connection->getConnectionType()));
            for (int i = 0; i < 2; ++i)
            {
                if (!m.used[i])
                {
                    continue;
                }
                const int64_t visible = number(observer[i], "SELECT count(*) FROM t");
                // (a transaction that has written keeps others of a memory database out)
                MC_REQUIRE(ctx, visible == m.committed[i] || (visible == -1 && m.inTransaction[i]), "committed", when, ": database ", i, " has ", visible, " committed rows instead of ", m.committed[i]);
                const bool held = m.db == i || external[i] || keptDb == i;
                MC_REQUIRE(ctx, g_closed[i] == (held ? 0 : 1), "closed", when, ": database ", i, held ? " is closed" : " is not closed, once", ": ", g_closed[i]);
                if (m.db == i || external[i])
                {
                    MC_REQUIRE(ctx, (sqlite3_get_autocommit(handle[i]) == 0) == m.inTransaction[i], "transaction", when, ": database ", i, " is ", m.inTransaction[i] ? "not " : "", "in a transaction");
                    const int64_t own = number(handle[i], "SELECT count(*) FROM t");
                    MC_REQUIRE(ctx, own == m.committed[i] + m.pending[i], "own-rows", when, ": database ", i, " shows ", own, " rows instead of ", m.committed[i] + m.pending[i]);
                }
            }
        };
        for (uint32_t d = 0; d < depth; ++d)
        {
            const uint32_t op = ctx.choose(12);
            std::string result = "ok";
            std::string expected = "ok";
            const std::string misuse = "bad parameter or other API misuse";
            const auto refusal = [&](bool prepare, const std::string& why) {
                return str("! SqliteConnection::", prepare ? "prepareStatement(): sqlite3_prepare_v2() failed: " : "executeUpdate(): sqlite3_step failed: ", why);
            };
            switch (op)
            {
            case 0:
                letGo();
                connection->reset();
                break;
            case 1:
            case 2: { // a new database, owned or not
                const int which = m.used[0] ? 1 : 0;
                if (m.used[which])
                {
                    ctx.skip();
                }
                m.used[which] = true;
                handle[which] = open(which, name[which].c_str());
                letGo();
                m.db = which;
                m.internal = op == 1;
                external[which] = op == 2;
                if (op == 1 && which == 1)
                {
                    connection->reset(handle[which]); // the default is to own it
                }
                else
                {
                    connection->reset(handle[which], op == 1 ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION);
                }
                break;
            }
            case 3: { // destroyed and replaced by one made for the same database, if that lives on
                const bool was = m.db >= 0 && !m.internal;
                const int db = m.db;
                letGo();
                connection.reset();
                if (was)
                {
                    m.db = db;
                    m.internal = false;
                    connection = std::make_unique<SqliteConnection>(handle[db], SqliteConnection::EXTERNAL_CONNECTION);
                }
                else
                {
                    connection = std::make_unique<SqliteConnection>();
                }
                break;
            }
            case 4: {
                if (m.db < 0)
                {
                    ctx.skip(); // no database to ask
                }
                bool started = false;
                result = attempt([&] { started = connection->startTransaction(); });
                MC_REQUIRE(ctx, started == !m.inTransaction[m.db], "started", "a transaction ", started ? "is started within another" : "is not started");
                m.inTransaction[m.db] = true;
                m.started.push_back(started);
                break;
            }
            case 5: {
                if (m.started.empty())
                {
                    ctx.skip();
                }
                const bool started = m.started.back();
                m.started.pop_back();
                result = attempt([&] { connection->endTransaction(started); });
                if (started && m.db < 0)
                {
                    expected = refusal(true, misuse);
                }
                else if (started && !m.inTransaction[m.db])
                {
                    expected = refusal(false, "SQL logic error"); // none is open
                }
                else if (started)
                {
                    m.inTransaction[m.db] = false;
                    m.committed[m.db] += m.pending[m.db];
                    m.pending[m.db] = 0;
                }
                break;
            }
            case 6:
            case 7:
            case 8:
            case 9: {
                // valid, malformed, refused by a constraint, and a query with a row; in a text that goes on behind the statement
                const std::string sql = op == 6 ? str("INSERT INTO t VALUES(", next, ")") : op == 7 ? "INSERT INTO u VALUES(0)" : op == 8 ? "INSERT INTO t VALUES(NULL), (-1), (-1)" : "SELECT 1";
                const std::string longer = sql + "'garbage";
                result = attempt([&] { connection->executeUpdate(std::string_view(longer.data(), sql.size())); });
                if (m.db < 0)
                {
                    expected = refusal(true, misuse);
                }
                else if (op == 6)
                {
                    ++next;
                    ++(m.inTransaction[m.db] ? m.pending[m.db] : m.committed[m.db]);
                }
                else
                {
                    expected = op == 7 ? refusal(true, "SQL logic error") : op == 8 ? refusal(false, "constraint failed") : refusal(false, "another row available");
                }
                break;
            }
            case 10: { // a statement that outlives what the connection does next
                if (kept)
                {
                    ctx.skip();
                }
                sqlite3_stmt* statement = nullptr;
                result = attempt([&] { statement = connection->prepareStatement("SELECT count(*) FROM t"); });
                if (m.db < 0)
                {
                    expected = refusal(true, misuse);
                }
                else
                {
                    MC_REQUIRE(ctx, statement != nullptr && sqlite3_db_handle(statement) == handle[m.db], "statement", "the statement is not one of the connection");
                    kept.reset(statement);
                    keptDb = m.db;
                    MC_REQUIRE(ctx, sqlite3_step(statement) == SQLITE_ROW && sqlite3_column_int(statement, 0) == m.committed[m.db] + m.pending[m.db], "statement-step",
                            "the statement does not give the number of rows");
                    sqlite3_reset(statement);
                }
                break;
            }
            default:
                if (!kept)
                {
                    ctx.skip();
                }
                MC_REQUIRE(ctx, sqlite3_step(kept.get()) == SQLITE_ROW && sqlite3_column_int(kept.get(), 0) == m.committed[keptDb] + m.pending[keptDb], "statement-lives",
                        "a statement does not give the number of rows any more");
                kept.reset();
                if (m.db != keptDb && !external[keptDb])
                {
                    m.pending[keptDb] = 0;
                    m.inTransaction[keptDb] = false;
                }
                keptDb = -1;
                break;
            }
            ctx.step();
            ctx.cases();
            MC_REQUIRE(ctx, result == expected, "outcome", "operation ", op, " gives \"", result, "\" instead of \"", expected, "\"");
            check(str("after operation ", op).c_str());
            ctx.state(m.describe());
        }
        kept.reset();
        if (keptDb >= 0 && m.db != keptDb && !external[keptDb])
        {
            m.pending[keptDb] = 0;
        }
        keptDb = -1;
        letGo();
        connection.reset();
        for (int i = 0; i < 2; ++i)
        {
            if (m.used[i])
            {
                MC_REQUIRE(ctx, g_closed[i] == (external[i] ? 0 : 1), "closed-at-end", "database ", i, " is closed ", g_closed[i], " times by a destroyed connection");
                if (external[i])
                {
                    MC_REQUIRE(ctx, number(handle[i], "SELECT count(*) FROM t") == m.committed[i] + m.pending[i], "external-rows", "an external database lost its transaction");
                }
            }
        }
    }
    databases.reset();
    MC_REQUIRE(ctx, memory().blocks == startBlocks, "memory-end", memory().blocks - startBlocks, " blocks of SQLite memory are not released");
}

// ---------------------------------------------------------------- SQLite running out of memory anywhere

// also while a stored value is converted to the one that is read
void outOfMemoryReading(Ctx& ctx)
{
    const uint32_t what = ctx.choose(4);
    const bool utf16 = ctx.flip();
    const uint32_t k = 1 + ctx.choose(12);
    const int64_t startBlocks = memory().blocks;
    bool fired = false;
    {
        SqliteConnection connection(open(0, ":memory:"));
        connection.executeUpdate(utf16 ? "PRAGMA encoding = 'UTF-16'" : "PRAGMA encoding = 'UTF-8'");
        connection.executeUpdate("CREATE TABLE t(x TEXT, y BLOB, z INTEGER)");
        const String text(std::string(300, 'x').c_str());
        const st::WalkerUnion object = os::walkerUnion(1);
        {
            std::unique_ptr<sqlite3_stmt, SqliteFinalizer> stmt(connection.prepareStatement("INSERT INTO t VALUES(?, ?, 7)"));
            (void)bindAs(*stmt, 1, text);
            (void)bindAs(*stmt, 2, object);
            MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_DONE, "read-prepare", "the row is refused");
        }
        std::unique_ptr<sqlite3_stmt, SqliteFinalizer> stmt(connection.prepareStatement(what == 2 ? "SELECT x, zeroblob(300), z FROM t" : "SELECT x, y, z FROM t"));
        MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_ROW, "read-row", "the row is missing");
        Optional<String> readText;
        Optional<st::WalkerUnion> readObject;
        Optional<c21::Bits> readBits;
        Optional<Int32> readInt;
        g_bits = 64;
        memory().fired = false;
        memory().countdown = k;
        const std::string result = attempt([&] {
            switch (what)
            {
            case 0: return Column<String>::read(readText, *stmt, 0);
            case 1: return Column<st::WalkerUnion>::read(readObject, *stmt, 1);
            case 2: return Column<c21::Bits>::read(readBits, *stmt, 1);
            default: return Column<Int32>::read(readInt, *stmt, 2);
            }
        });
        memory().countdown = 0;
        fired = memory().fired;
        ctx.step();
        ctx.cases();
        if (result == "ok")
        {
            const bool same = what == 0 ? readText.has_value() && *readText == text
                    : what == 1         ? readObject.has_value() && *readObject == object
                    : what == 2         ? readBits.has_value() && readBits->value == 0
                                        : readInt.has_value() && *readInt == 7;
            MC_REQUIRE(ctx, same, "read-value", "column ", what, " is read back different after a failure that was not reported");
        }
        else
        {
            MC_REQUIRE(ctx, fired, "read-spurious", "column ", what, " cannot be read: ", result);
        }
    }
    MC_REQUIRE(ctx, memory().blocks == startBlocks, "read-memory", "SQLite memory is not released");
    ctx.state(str("r", what, utf16, fired ? k : 0));
    if (!fired)
    {
        ctx.skip();
    }
}

void outOfMemory(Ctx& ctx)
{
    const uint32_t what = ctx.choose(6);
    const uint32_t k = 1 + ctx.choose(ctx.thorough() ? 4000 : 400);
    const int64_t startBlocks = memory().blocks;
    bool fired = false;
    {
        g_closed[0] = 0;
        SqliteConnection connection(open(0, ":memory:"));
        connection.executeUpdate("CREATE TABLE t(x INTEGER, y TEXT, z BLOB)");
        connection.executeUpdate("INSERT INTO t VALUES(1, 'text', NULL)");
        std::string result;
        memory().fired = false;
        const String text(std::string(300, 'x').c_str());
        const st::WalkerUnion object = os::walkerUnion(1);
        std::unique_ptr<sqlite3_stmt, SqliteFinalizer> stmt;
        if (what == 3 || what == 4)
        {
            stmt.reset(connection.prepareStatement("INSERT INTO t VALUES(2, ?, ?)"));
        }
        int bound = SQLITE_OK;
        memory().countdown = k;
        switch (what)
        {
        case 0:
            result = attempt([&] { connection.executeUpdate("INSERT INTO t VALUES(2, 'other', x'00')"); });
            break;
        case 1:
            result = attempt([&] { stmt.reset(connection.prepareStatement("SELECT x, y, z FROM t WHERE x = 1 ORDER BY y")); });
            break;
        case 2:
            result = attempt([&] {
                const bool started = connection.startTransaction();
                connection.executeUpdate("INSERT INTO t VALUES(2, 'other', x'00')");
                connection.endTransaction(started);
            });
            break;
        case 3:
            bound = bindAs(*stmt, 1, text);
            result = bound == SQLITE_OK ? "ok" : "!";
            break;
        case 4:
            bound = bindAs(*stmt, 2, object);
            result = bound == SQLITE_OK ? "ok" : "!";
            break;
        default:
            result = attempt([&] { connection.executeUpdate("DELETE FROM t"); });
            break;
        }
        memory().countdown = 0;
        fired = memory().fired;
        ctx.step();
        ctx.cases();
        // SQLite may do without an allocation; but what fails is reported, and what is reported as done is done
        MC_REQUIRE(ctx, fired || result == "ok", "spurious", "operation ", what, " fails without cause: ", result);
        const bool ok = result == "ok";
        MC_REQUIRE(ctx, ok || what == 3 || what == 4 || result.find("out of memory") != std::string::npos, "reason", "operation ", what, ": ", result);
        if (what == 1)
        {
            MC_REQUIRE(ctx, (stmt != nullptr) == ok, "half-statement", "a statement that failed to be prepared is given out, or the other way round");
        }
        if (what == 3 || what == 4)
        {
            if (ok)
            {
                MC_REQUIRE(ctx, sqlite3_step(stmt.get()) == SQLITE_DONE, "bound-step", "the row is refused");
                const int64_t size = number(connection.getConnection(), what == 3 ? "SELECT length(y) FROM t WHERE x = 2" : "SELECT length(z) FROM t WHERE x = 2");
                MC_REQUIRE(ctx, size == (what == 3 ? 300 : static_cast<int64_t>((detail::bitSizeOf(View<st::WalkerUnion>(object), 0) + 7) / 8)), "bound", "what was bound is not what is stored: ", size);
            }
        }
        stmt.reset();
        if (what == 0 || what == 2 || what == 5)
        {
            const int64_t count = number(connection.getConnection(), "SELECT count(*) FROM t");
            const int64_t done = what == 5 ? 0 : 2;
            const bool open = sqlite3_get_autocommit(connection.getConnection()) == 0;
            MC_REQUIRE(ctx, ok ? count == done && !open : count == 1 || (what == 2 && open), "partial", "operation ", what, " ", ok ? "succeeded" : "failed", " and leaves ", count, " rows");
        }
    }
    MC_REQUIRE(ctx, g_closed[0] == 1, "oom-closed", "the connection is closed ", g_closed[0], " times");
    MC_REQUIRE(ctx, memory().blocks == startBlocks, "oom-memory", memory().blocks - startBlocks, " blocks of SQLite memory are not released");
    ctx.state(str(what, "/", fired ? k : 0));
    if (!fired)
    {
        ctx.skip();
    }
}

} // namespace

int main(int argc, char** argv)
{
    configure();
    return mc::run(argc, argv,
            {
                    {"columns", columns, 1},
                    {"rows", rows, 2},
                    {"invalid", invalid, 2},
                    {"connections", connections, 1},
                    {"out-of-memory", outOfMemory, 1},
                    {"out-of-memory-reading", outOfMemoryReading, 1},
            });
}
