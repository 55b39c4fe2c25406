// SQLite with accounted and failing allocations, and connections that report when they are closed.
#ifndef VERIF_SQLITEMC_H
#define VERIF_SQLITEMC_H

#include <cstdlib>
#include <functional>
#include <string>

#include "mc.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteException.h"

namespace sqlitemc
{

using mc::str;
using zserio::SqliteException;

// ---------------------------------------------------------------- SQLite with failing allocations

struct Memory
{
    uint32_t countdown = 0; // 0: none fails
    bool fired = false;
    int64_t blocks = 0;
};
inline Memory& memory()
{
    static Memory m;
    return m;
}
inline bool due()
{
    Memory& m = memory();
    if (m.countdown > 0 && --m.countdown == 0)
    {
        m.fired = true;
        return true;
    }
    return false;
}
inline void* xMalloc(int n)
{
    if (due())
    {
        return nullptr;
    }
    auto* p = static_cast<int64_t*>(std::malloc(static_cast<size_t>(n) + 16));
    *p = n;
    ++memory().blocks;
    return p + 2;
}
inline void xFree(void* p)
{
    if (p != nullptr)
    {
        --memory().blocks;
        std::free(static_cast<int64_t*>(p) - 2);
    }
}
inline void* xRealloc(void* p, int n)
{
    if (due())
    {
        return nullptr;
    }
    auto* q = static_cast<int64_t*>(std::realloc(static_cast<int64_t*>(p) - 2, static_cast<size_t>(n) + 16));
    *q = n;
    return q + 2;
}
inline int xSize(void* p)
{
    return p == nullptr ? 0 : static_cast<int>(*(static_cast<int64_t*>(p) - 2));
}
inline int xRoundup(int n)
{
    return (n + 7) & ~7;
}
inline int xInit(void*)
{
    return SQLITE_OK;
}
inline void xShutdown(void*)
{}

inline void configure()
{
    static sqlite3_mem_methods methods = {xMalloc, xFree, xRealloc, xSize, xRoundup, xInit, xShutdown, nullptr};
    sqlite3_config(SQLITE_CONFIG_MALLOC, &methods);
    sqlite3_config(SQLITE_CONFIG_URI, 1);
    sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0);
    sqlite3_initialize();
}

// ---------------------------------------------------------------- the databases

inline int g_closed[3];

inline void closed(void* which)
{
    ++*static_cast<int*>(which);
}
inline void nothing(sqlite3_context*, int, sqlite3_value**)
{}

// the connection counts in g_closed when it is really closed
inline sqlite3* open(int which, const char* name)
{
    sqlite3* db = nullptr;
    if (sqlite3_open_v2(name, &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE | SQLITE_OPEN_URI, nullptr) != SQLITE_OK)
    {
        std::abort();
    }
    sqlite3_create_function_v2(db, "closing", 0, SQLITE_UTF8, &g_closed[which], nothing, nullptr, nullptr, closed);
    return db;
}

inline void run(sqlite3* db, const std::string& sql)
{
    char* message = nullptr;
    if (sqlite3_exec(db, sql.c_str(), nullptr, nullptr, &message) != SQLITE_OK)
    {
        fprintf(stderr, "%s: %s\n", sql.c_str(), message);
        std::abort();
    }
}
inline int64_t number(sqlite3* db, const std::string& sql)
{
    sqlite3_stmt* stmt = nullptr;
    if (sqlite3_prepare_v2(db, sql.c_str(), -1, &stmt, nullptr) != SQLITE_OK || sqlite3_step(stmt) != SQLITE_ROW)
    {
        sqlite3_finalize(stmt);
        return -1;
    }
    const int64_t out = sqlite3_column_int64(stmt, 0);
    sqlite3_finalize(stmt);
    return out;
}

__attribute__((noinline)) inline std::string attempt(const std::function<void()>& f)
{
    try
    {
        f();
    }
    catch (const SqliteException& e)
    {
        return str("! ", e.what());
    }
    return "ok";
}

} // namespace sqlitemc

#endif
