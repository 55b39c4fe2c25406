// Bounded explicit exploration engine: depth-first enumeration of every resolution of every choice a scenario
// makes, executed on the real code. A scenario is a deterministic function of its choices, so a list of choices
// replays it. Work is split over forked workers by choice prefix; the current choices live in shared memory, so
// that a crash (sanitizer abort, signal) or a hang is reported with the choices that led to it.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{

struct SkipPath {}; // this path is not part of the space (or belongs to another worker)

struct Failure
{
    std::string key; // stable identity of what failed, matched against the known findings
    std::string msg;
};

struct Shared;

class Ctx
{
public:
    // picks one of n alternatives 0..n-1; every one is explored
    uint32_t choose(uint32_t n);
    // picks one of the values
    template <typename T>
    const T& pick(const std::vector<T>& values)
    {
        return values[choose(static_cast<uint32_t>(values.size()))];
    }
    bool flip() { return choose(2) != 0; }

    // records one transition (operation executed on the implementation and on the model)
    void step(uint64_t n = 1) { m_transitions += n; }
    // records a visited model state
    void state(uint64_t hash);
    void state(const std::string& text) { state(hashOf(text)); }
    // counts additional cases evaluated inside one execution
    void cases(uint64_t n = 1) { m_cases += n; }
    // keeps a short description as a sample of what was covered (first few executions and a spread of later ones)
    bool wantSample() const { return m_wantSample; }
    void sample(const std::string& text);
    // names what this execution does; printed when it fails
    void note(const std::string& text);

    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    [[noreturn]] void skip() { throw SkipPath(); }
    void require(bool cond, const char* key, const std::string& msg)
    {
        if (!cond)
        {
            fail(key, msg);
        }
    }

    bool thorough() const { return m_thorough; }
    bool replaying() const { return m_replaying; }

    static uint64_t hashOf(const std::string& text);
    static uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        return h * 0xff51afd7ed558ccdULL;
    }

    // engine internals
    std::vector<uint32_t> m_prefix;
    std::vector<std::pair<uint32_t, uint32_t>> m_path;
    uint32_t m_worker = 0;
    uint32_t m_workers = 1;
    uint32_t m_splitDepth = 2;
    uint64_t m_splitHash = 0;
    bool m_thorough = false;
    bool m_replaying = false;
    bool m_wantSample = false;
    uint64_t m_transitions = 0;
    uint64_t m_cases = 0;
    uint64_t m_executions = 0;
    bool m_statesSaturated = false;
    std::unordered_set<uint64_t> m_states;
    std::vector<std::string> m_samples;
    std::string m_note;
    Shared* m_shared = nullptr;
    uint32_t m_scenario = 0;
};

struct Scenario
{
    const char* name;
    std::function<void(Ctx&)> body;
    uint32_t splitDepth = 2; // number of leading choices that distribute the work over the workers
};

int run(int argc, char** argv, const std::vector<Scenario>& scenarios);

// operator new of the harness throws std::bad_alloc above this many bytes in one request
extern size_t g_allocCap;
extern uint64_t g_maxAlloc; // largest single request since last reset
extern uint64_t g_newCount; // number of operator new requests so far
extern int64_t g_liveAllocs; // number of operator new blocks not yet deleted
extern int64_t g_failAllocAt; // when > 0: counts down, the allocation that reaches 0 throws std::bad_alloc

template <typename... ARGS>
__attribute__((noinline)) std::string str(const ARGS&... args)
{
    std::ostringstream os;
    (os << ... << args);
    return os.str();
}

std::string hex(const void* data, size_t size);

} // namespace mc

#define MC_REQUIRE(ctx, cond, key, ...) \
    do \
    { \
        if (!(cond)) \
        { \
            (ctx).fail(key, mc::str(__VA_ARGS__)); \
        } \
    } while (false)

#endif
