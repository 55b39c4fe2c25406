// C22: SQLite validation sees exactly the tables that exist.
// mc: level=model_checking opt=0 libs=sqlite3
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>

#include "mc.h"
#include "sqlitemc.h"
#include "tracked.h"
#include "zserio/SqliteConnection.h"
#include "zserio/ValidationSqliteUtil.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using namespace sqlitemc;

namespace
{

using StdAlloc = std::allocator<uint8_t>;
using PpmrAlloc = ppmr::PropagatingPolymorphicAllocator<uint8_t>;

struct Column
{
    std::string type;
    bool notNull;
    bool key;
    bool operator==(const Column& other) const
    {
        return type == other.type && notNull == other.notNull && key == other.key;
    }
};
using Columns = std::map<std::string, Column>;

std::string describe(const Columns& columns)
{
    std::string out;
    for (const auto& c : columns)
    {
        out += str(c.first, ":", c.second.type, c.second.notNull ? " NOT NULL" : "", c.second.key ? " KEY" : "", "; ");
    }
    return out;
}

// a connection that none of the queries may change or keep open
class Watched
{
public:
    Watched() :
            m_connection(open(0, ":memory:"))
    {
        m_connection.executeUpdate("ATTACH ':memory:' AS other");
    }
    SqliteConnection& connection()
    {
        return m_connection;
    }
    void run(const std::string& sql)
    {
        m_connection.executeUpdate(sql);
        remember();
    }
    void remember()
    {
        m_changes = sqlite3_total_changes(m_connection.getConnection());
        m_autocommit = sqlite3_get_autocommit(m_connection.getConnection());
        m_tables = tables();
    }
    void check(Ctx& ctx, const char* when)
    {
        MC_REQUIRE(ctx, m_ownStatements || sqlite3_next_stmt(m_connection.getConnection(), nullptr) == nullptr, "statement-left", when, ": a statement is left open");
        MC_REQUIRE(ctx,
                m_changes == sqlite3_total_changes(m_connection.getConnection()) && m_autocommit == sqlite3_get_autocommit(m_connection.getConnection()) && m_tables == tables(), "changed", when,
                ": the database is changed");
    }

private:
    int64_t tables()
    {
        return number(m_connection.getConnection(), "SELECT (SELECT count(*) FROM main.sqlite_master) + 1000 * (SELECT count(*) FROM temp.sqlite_master) + 1000000 * (SELECT count(*) FROM other.sqlite_master)");
    }
    SqliteConnection m_connection;
    int m_changes = 0;
    int m_autocommit = 0;
    int64_t m_tables = 0;

public:
    bool m_ownStatements = false; // a virtual table keeps statements of its own
};

template <typename ALLOC>
Columns columnsOf(const typename ValidationSqliteUtil<ALLOC>::TableSchema& schema, Ctx& ctx)
{
    Columns out;
    for (const auto& entry : schema)
    {
        MC_REQUIRE(ctx, entry.first == entry.second.name, "name", "column ", entry.first, " is described as ", entry.second.name);
        out[std::string(entry.first.data(), entry.first.size())] = {std::string(entry.second.type.data(), entry.second.type.size()), entry.second.isNotNull, entry.second.isPrimaryKey};
    }
    return out;
}

template <typename ALLOC>
void expectTable(Ctx& ctx, Watched& db, const std::string& where, const std::string& table, const Columns& expected, const std::set<std::string>& hidden, int64_t rows, const ALLOC& allocator)
{
    using Util = ValidationSqliteUtil<ALLOC>;
    // texts that go on behind the name
    const std::string longWhere = where + "xyz";
    const std::string longTable = table + "zyx";
    const std::string_view w(longWhere.data(), where.size());
    const std::string_view t(longTable.data(), table.size());
    {
        typename Util::TableSchema schema(allocator);
        Util::getTableSchema(db.connection(), w, t, schema, allocator);
        const Columns got = columnsOf<ALLOC>(schema, ctx);
        MC_REQUIRE(ctx, got == expected, "schema", "table ", where, ".", table, " is reported as ", describe(got), " instead of ", describe(expected));
        db.check(ctx, "getTableSchema");
        ctx.step();
    }
    int64_t count = -1;
    const std::string outcome = attempt([&] { count = static_cast<int64_t>(Util::getNumberOfTableRows(db.connection(), w, t, allocator)); });
    MC_REQUIRE(ctx, rows < 0 ? outcome != "ok" : (outcome == "ok" && count == rows), "rows", "table ", where, ".", table, " has ", count, " rows instead of ", rows, ": ", outcome);
    db.check(ctx, "getNumberOfTableRows");
    ctx.step();
    for (const char* name : {"a", "bb", "c_3", "A", "ab", "b", "hid", "gen", "zz", "rowid"})
    {
        std::string column = name;
        const std::string longer = column + "q";
        if (column == "A" || column == "rowid")
        {
            column = column == "A" ? "a" : "rowid"; // SQLite's names do not depend on case
        }
        const bool present = expected.count(column) != 0 || hidden.count(column) != 0;
        const bool found = Util::isColumnInTable(db.connection(), w, t, std::string_view(longer.data(), std::strlen(name)), allocator);
        MC_REQUIRE(ctx, found == present, "column", "column ", name, " of ", where, ".", table, " is ", found ? "found" : "not found");
        db.check(ctx, "isColumnInTable");
        ctx.step();
        ctx.cases();
    }
}

// ---------------------------------------------------------------- every definition of up to three columns, everywhere

template <typename ALLOC>
void definitions(Ctx& ctx, const ALLOC& allocator)
{
    static const char* const names[] = {"a", "bb", "c_3"};
    static const char* const types[] = {"INTEGER", "REAL", "TEXT", "BLOB", ""};
    const std::string places[] = {"", "other", "temp"};
    const std::string place = places[ctx.choose(3)];
    const uint32_t n = 1 + ctx.choose(3);
    const bool withoutRowid = ctx.flip();
    Columns columns;
    std::string sql;
    std::vector<std::string> keys;
    for (uint32_t i = 0; i < n; ++i)
    {
        const uint32_t reversed = n - 1 - i; // definitions need not be in the order of the names
        // all types for the first, two for the others
        const std::string type = types[i == 0 ? ctx.choose(5) : 2 * ctx.choose(2)];
        const bool notNull = ctx.flip();
        const bool key = ctx.flip();
        sql += str(names[reversed], " ", type, notNull ? " NOT NULL" : "", ", ");
        if (key)
        {
            keys.push_back(names[reversed]);
        }
        columns[names[reversed]] = {type, notNull || (key && withoutRowid), key};
    }
    if (withoutRowid && keys.empty())
    {
        ctx.skip();
    }
    if (keys.empty())
    {
        sql.resize(sql.size() - 2);
    }
    else
    {
        sql += "PRIMARY KEY(";
        for (size_t i = keys.size(); i > 0; --i)
        {
            sql += keys[i - 1] + (i > 1 ? "," : ")");
        }
    }
    const int64_t blocks = memory().blocks;
    {
        Watched db;
        for (const std::string& other : places)
        {
            // in the other places, a table of the same name that is different
            if (other != place)
            {
                db.run(str("CREATE TABLE ", other.empty() ? "main" : other, ".tab(zz BLOB)"));
            }
        }
        db.run(str("CREATE TABLE ", place.empty() ? "main" : place, ".tab(", sql, ")", withoutRowid ? " WITHOUT ROWID" : ""));
        std::set<std::string> hidden;
        if (!withoutRowid)
        {
            hidden.insert("rowid");
        }
        for (const std::string& other : places)
        {
            const std::string where = other.empty() && place.empty() ? "main" : other;
            if (other == place)
            {
                expectTable(ctx, db, place.empty() ? "main" : place, "tab", columns, hidden, 0, allocator);
            }
            else if (!other.empty())
            {
                expectTable(ctx, db, other, "tab", {{"zz", {"BLOB", false, false}}}, {"rowid"}, 0, allocator);
            }
        }
        // without a place, temporary tables come first
        if (place == "temp")
        {
            expectTable(ctx, db, "", "tab", columns, hidden, 0, allocator);
        }
        expectTable(ctx, db, "", "nowhere", {}, {}, -1, allocator);
        expectTable(ctx, db, "other", "nowhere", {}, {}, -1, allocator);
        for (int query = 0; query < 3; ++query)
        {
            using Util = ValidationSqliteUtil<ALLOC>;
            typename Util::TableSchema schema(allocator);
            bool found = false;
            const std::string outcome = attempt([&] {
                if (query == 0)
                {
                    Util::getTableSchema(db.connection(), "absent", "tab", schema, allocator);
                }
                else if (query == 1)
                {
                    (void)Util::getNumberOfTableRows(db.connection(), "absent", "tab", allocator);
                }
                else
                {
                    found = Util::isColumnInTable(db.connection(), "absent", "tab", "zz", allocator);
                }
            });
            MC_REQUIRE(ctx, (outcome == "ok") == (query == 2) && !found && schema.empty(), "absent", "query ", query, " of a database that is not attached: ", outcome);
            db.check(ctx, "absent database");
        }
    }
    MC_REQUIRE(ctx, memory().blocks == blocks, "memory", "SQLite memory is not released");
    ctx.state(str(place, sql, withoutRowid));
}

void definitionsStd(Ctx& ctx)
{
    definitions(ctx, StdAlloc());
}

// all of its memory comes from the given allocator
void definitionsPpmr(Ctx& ctx)
{
    tr::begin();
    definitions(ctx, PpmrAlloc(&tr::arena(1)));
    MC_REQUIRE(ctx, tr::arena(0).allocations() == 0, "allocator", tr::arena(0).allocations(), " allocations are not from the given allocator");
    tr::end(ctx);
}

// ---------------------------------------------------------------- rows, hidden and generated columns, virtual tables and views

void special(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(6);
    const int64_t blocks = memory().blocks;
    const std::string place = ctx.flip() ? "other" : "main";
    {
        Watched db;
        const StdAlloc a;
        switch (kind)
        {
        case 0: // declared hidden is a type like any other in an ordinary table
            db.run(str("CREATE TABLE ", place, ".tab(a INTEGER, hid HIDDEN TEXT)"));
            expectTable(ctx, db, place, "tab", {{"a", {"INTEGER", false, false}}, {"hid", {"HIDDEN TEXT", false, false}}}, {"rowid"}, 0, a);
            break;
        case 1: // generated ones are not in the table's information
            db.run(str("CREATE TABLE ", place, ".tab(a INTEGER, gen INTEGER AS (a + 1), hid INTEGER AS (a + 2) STORED)"));
            db.run(str("INSERT INTO ", place, ".tab(a) VALUES(1)"));
            expectTable(ctx, db, place, "tab", {{"a", {"INTEGER", false, false}}}, {"rowid", "gen", "hid"}, 1, a);
            break;
        case 2: // neither is a virtual table's hidden language identification
            if (sqlite3_compileoption_used("ENABLE_FTS4") == 0 && sqlite3_compileoption_used("ENABLE_FTS3") == 0)
            {
                ctx.skip();
            }
            db.m_ownStatements = true;
            db.run(str("CREATE VIRTUAL TABLE ", place, ".tab USING fts4(a TEXT NOT NULL, bb, languageid='hid')"));
            db.run(str("INSERT INTO ", place, ".tab(a, bb) VALUES('x', 'y')"));
            db.run(str("INSERT INTO ", place, ".tab(a, bb) VALUES('x', 'z')"));
            expectTable(ctx, db, place, "tab", {{"a", {"", false, false}}, {"bb", {"", false, false}}}, {"rowid", "hid"}, 2, a);
            break;
        case 3:
            db.run(str("CREATE TABLE ", place, ".t(a INTEGER NOT NULL, bb TEXT)"));
            db.run(str("INSERT INTO ", place, ".t VALUES(1, 'x')"));
            db.run(str("CREATE VIEW ", place, ".tab AS SELECT a, bb, a + 1 AS c_3 FROM t"));
            expectTable(ctx, db, place, "tab", {{"a", {"INTEGER", false, false}}, {"bb", {"TEXT", false, false}}, {"c_3", {"", false, false}}}, {"rowid"}, 1, a);
            break;
        case 4: { // what is in the schema already stays
            using Util = ValidationSqliteUtil<StdAlloc>;
            db.run(str("CREATE TABLE ", place, ".tab(a INTEGER, bb TEXT)"));
            db.run(str("CREATE TABLE ", place, ".tab2(c_3 BLOB NOT NULL)"));
            Util::TableSchema schema;
            Util::getTableSchema(db.connection(), place, "tab", schema, a);
            Util::getTableSchema(db.connection(), place, "tab2", schema, a);
            const Columns got = columnsOf<StdAlloc>(schema, ctx);
            MC_REQUIRE(ctx, (got == Columns{{"a", {"INTEGER", false, false}}, {"bb", {"TEXT", false, false}}, {"c_3", {"BLOB", true, false}}}), "collect", "columns of two tables: ", describe(got));
            ctx.step(2);
            break;
        }
        default: { // a database that another connection keeps locked
            using Util = ValidationSqliteUtil<StdAlloc>;
            sqlite3* writer = open(1, "file:/mc22?vfs=memdb");
            run(writer, "CREATE TABLE tab(a INTEGER)");
            {
                SqliteConnection reader(open(1, "file:/mc22?vfs=memdb"));
                run(writer, "BEGIN EXCLUSIVE");
                run(writer, "INSERT INTO tab VALUES(1)");
                Util::TableSchema schema;
                const std::string schemaOutcome = attempt([&] { Util::getTableSchema(reader, "", "tab", schema, a); });
                const std::string rowsOutcome = attempt([&] { (void)Util::getNumberOfTableRows(reader, "", "tab", a); });
                MC_REQUIRE(ctx, schemaOutcome.find("database is locked") != std::string::npos && schema.empty(), "locked-schema", "the schema of a locked database: ", schemaOutcome);
                MC_REQUIRE(ctx, rowsOutcome.find("database is locked") != std::string::npos, "locked-rows", "the rows of a locked database: ", rowsOutcome);
                run(writer, "COMMIT");
                MC_REQUIRE(ctx, Util::getNumberOfTableRows(reader, "", "tab", a) == 1, "unlocked", "the rows of a database that was locked");
                // known columns, but the rows cannot be counted
                run(writer, "BEGIN EXCLUSIVE");
                run(writer, "INSERT INTO tab VALUES(2)");
                const std::string again = attempt([&] { (void)Util::getNumberOfTableRows(reader, "", "tab", a); });
                MC_REQUIRE(ctx, again.find("database is locked") != std::string::npos, "locked-again", "the rows of a locked database: ", again);
                run(writer, "ROLLBACK");
                ctx.step(4);
            }
            sqlite3_close(writer);
            break;
        }
        }
    }
    MC_REQUIRE(ctx, memory().blocks == blocks, "memory", "SQLite memory is not released");
    ctx.state(str(kind, place));
}

// every sequence of changes of the rows
void rows(Ctx& ctx)
{
    const int64_t blocks = memory().blocks;
    {
        Watched db;
        const StdAlloc a;
        db.run("CREATE TABLE main.tab(a INTEGER)");
        db.run("CREATE TABLE other.tab(a INTEGER)");
        int64_t count[2] = {0, 0};
        int64_t before[2] = {0, 0};
        bool open = false;
        const uint32_t depth = ctx.thorough() ? 6 : 4;
        for (uint32_t i = 0; i < depth; ++i)
        {
            const uint32_t op = ctx.choose(6);
            switch (op)
            {
            case 0:
                db.run("INSERT INTO main.tab VALUES(NULL)");
                ++count[0];
                break;
            case 1:
                db.run("INSERT INTO other.tab VALUES(1),(1),(2)");
                count[1] += 3;
                break;
            case 2:
                db.run("DELETE FROM main.tab");
                count[0] = 0;
                break;
            case 3:
                db.run("INSERT INTO main.tab SELECT 1 FROM other.tab");
                count[0] += count[1];
                break;
            case 4:
                db.run(open ? "COMMIT" : "BEGIN");
                open = !open;
                before[0] = count[0];
                before[1] = count[1];
                break;
            default:
                if (!open)
                {
                    ctx.skip();
                }
                db.run("ROLLBACK");
                open = false;
                count[0] = before[0];
                count[1] = before[1];
                break;
            }
            for (int d = 0; d < 2; ++d)
            {
                const int64_t got = static_cast<int64_t>(ValidationSqliteUtil<StdAlloc>::getNumberOfTableRows(db.connection(), d == 0 ? "main" : "other", "tab", a));
                MC_REQUIRE(ctx, got == count[d], "count", "database ", d, " has ", got, " rows instead of ", count[d]);
                const int64_t plain = static_cast<int64_t>(ValidationSqliteUtil<StdAlloc>::getNumberOfTableRows(db.connection(), "", "tab", a));
                MC_REQUIRE(ctx, plain == count[0], "count-main", "the main database has ", plain, " rows instead of ", count[0]);
                db.check(ctx, "count");
                ctx.cases();
            }
            ctx.step();
            ctx.state(str(count[0], ",", count[1], ",", open));
        }
    }
    MC_REQUIRE(ctx, memory().blocks == blocks, "memory", "SQLite memory is not released");
}

void typeNames(Ctx& ctx)
{
    const int type = static_cast<int>(ctx.choose(12)) - 3;
    const std::string expected = type == SQLITE_INTEGER ? "INTEGER" : type == SQLITE_FLOAT ? "REAL" : type == SQLITE_TEXT ? "TEXT" : type == SQLITE_BLOB ? "BLOB" : "NULL";
    const std::string got = ValidationSqliteUtil<StdAlloc>::sqliteColumnTypeName(type);
    ctx.step();
    MC_REQUIRE(ctx, got == expected, "type-name", "type ", type, " is called ", got);
    ctx.state(got);
}

// ---------------------------------------------------------------- an allocation fails: SQLite's or the given allocator's

void faults(Ctx& ctx)
{
    using Util = ValidationSqliteUtil<PpmrAlloc>;
    const uint32_t query = ctx.choose(4);
    const bool utf16 = ctx.flip();
    const bool sqlite = ctx.flip();
    const uint32_t k = 1 + ctx.choose(sqlite ? 150 : 40);
    tr::begin();
    const int64_t blocks = memory().blocks;
    bool fired = false;
    {
        SqliteConnection connection(open(0, ":memory:"));
        if (utf16)
        {
            connection.executeUpdate("PRAGMA encoding = 'UTF-16'");
        }
        connection.executeUpdate("CREATE TABLE tab(a INTEGER PRIMARY KEY, a_column_with_a_long_name_of_its_own SOME_LONG_AND_STRANGE_TYPE_NAME NOT NULL)");
        connection.executeUpdate("INSERT INTO tab VALUES(1, 2)");
        const PpmrAlloc allocator(&tr::arena(1));
        {
            Util::TableSchema schema(allocator);
            int64_t count = -1;
            bool found = false;
            bool fault = false;
            const std::string outcome = [&] {
                memory().fired = false;
                memory().countdown = sqlite ? k : 0;
                std::string out;
                fault = tr::faulty(sqlite ? 0 : k, [&] {
                    out = attempt([&] {
                        switch (query)
                        {
                        case 0:
                            Util::getTableSchema(connection, "main", "tab", schema, allocator);
                            break;
                        case 1:
                            count = static_cast<int64_t>(Util::getNumberOfTableRows(connection, "main", "tab", allocator));
                            break;
                        case 2:
                            found = Util::isColumnInTable(connection, "main", "tab", "a_column_with_a_long_name_of_its_own", allocator);
                            break;
                        default:
                            found = Util::isColumnInTable(connection, "main", "tab", "no_column_with_a_long_name_of_its_own", allocator);
                            break;
                        }
                    });
                });
                memory().countdown = 0;
                return out;
            }();
            fired = sqlite ? memory().fired : tr::st().fired;
            MC_REQUIRE(ctx, sqlite || fault == fired, "swallowed", "query ", query, " swallows a failing allocation");
            const bool done = !fault && outcome == "ok";
            MC_REQUIRE(ctx, done || fired, "spurious", "query ", query, " fails without cause: ", outcome);
            if (done)
            {
                MC_REQUIRE(ctx, query != 0 || schema.size() == 2, "partial-schema", "the schema has ", schema.size(), " columns after a failure that was not reported");
                MC_REQUIRE(ctx, query != 1 || count == 1, "partial-rows", "the table has ", count, " rows after a failure that was not reported");
                MC_REQUIRE(ctx, query != 2 || found || sqlite, "partial-column", "the column is not found");
                MC_REQUIRE(ctx, query != 3 || !found, "partial-no-column", "a column is found that does not exist");
            }
            for (const auto& entry : schema)
            {
                MC_REQUIRE(ctx, entry.first == "a" || entry.first == "a_column_with_a_long_name_of_its_own", "wrong-name", "column ", entry.first, " does not exist");
            }
            MC_REQUIRE(ctx, sqlite3_next_stmt(connection.getConnection(), nullptr) == nullptr, "statement-left-fault", "a statement is left open");
        }
        ctx.step();
        ctx.cases();
    }
    MC_REQUIRE(ctx, memory().blocks == blocks, "memory-fault", "SQLite memory is not released");
    tr::end(ctx);
    ctx.state(str(query, utf16, sqlite, fired ? k : 0));
    if (!fired)
    {
        ctx.skip();
    }
}

// tables with many rows and tables with many columns
void large(Ctx& ctx)
{
    static const std::vector<uint32_t> counts = {127, 128, 255, 256, 257, 999, 1000, 1024, 1999, 2000, 4097, 32767, 32768, 65535, 65536, 70001};
    const uint32_t n = ctx.pick(counts);
    const bool attached = ctx.flip();
    const char* const where = attached ? "other" : "main";
    const StdAlloc a;
    Watched db;
    if (ctx.flip())
    {
        db.run(str("CREATE TABLE ", where, ".tab(a INTEGER)"));
        db.run(str("INSERT INTO ", where, ".tab WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x + 1 FROM c WHERE x < ", n, ") SELECT x FROM c"));
        const uint64_t got = ValidationSqliteUtil<StdAlloc>::getNumberOfTableRows(db.connection(), where, "tab", a);
        MC_REQUIRE(ctx, got == n, "rows", n, " rows are reported as ", got);
        db.check(ctx, "getNumberOfTableRows");
        ctx.step();
        ctx.state(Ctx::mix(n, attached));
        return;
    }
    if (n > 2000)
    {
        ctx.skip(); // SQLite allows no more columns
    }
    std::string definition;
    Columns expected;
    for (uint32_t i = 0; i < n; ++i)
    {
        // names of many lengths
        const std::string name = str("c", i, "_", std::string(i % 7 == 0 ? i % 300 : 0, 'x'));
        const std::string type = i % 3 == 0 ? "TEXT" : i % 3 == 1 ? "INTEGER" : "BLOB";
        definition += str(i == 0 ? "" : ", ", name, " ", type, i % 5 == 0 ? " NOT NULL" : "", i == n - 1 ? " PRIMARY KEY" : "");
        expected[name] = Column{type, i % 5 == 0, i == n - 1};
    }
    db.run(str("CREATE TABLE ", where, ".tab(", definition, ")"));
    ValidationSqliteUtil<StdAlloc>::TableSchema schema(a);
    ValidationSqliteUtil<StdAlloc>::getTableSchema(db.connection(), where, "tab", schema, a);
    const Columns got = columnsOf<StdAlloc>(schema, ctx);
    MC_REQUIRE(ctx, got == expected, "schema", "a table of ", n, " columns is reported with ", got.size());
    db.check(ctx, "getTableSchema");
    for (const auto& column : expected)
    {
        MC_REQUIRE(ctx, ValidationSqliteUtil<StdAlloc>::isColumnInTable(db.connection(), where, "tab", column.first, a), "column", "column ", column.first, " of ", n, " is not found");
        MC_REQUIRE(ctx, !ValidationSqliteUtil<StdAlloc>::isColumnInTable(db.connection(), where, "tab", column.first + "z", a), "column", "column ", column.first, "z of ", n, " is found");
        ctx.cases(2);
    }
    ctx.step();
    ctx.state(Ctx::mix(n, 2 + (attached ? 1 : 0)));
}

} // namespace

int main(int argc, char** argv)
{
    configure();
    return mc::run(argc, argv,
            {
                    {"definitions", definitionsStd, 2},
                    {"definitions-ppmr", definitionsPpmr, 2},
                    {"special", special, 1},
                    {"rows", rows, 2},
                    {"large", large, 1},
                    {"type-names", typeNames, 1},
                    {"faults", faults, 1},
            });
}
