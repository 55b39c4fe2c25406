#include "mc.h"

#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <new>
#include <typeinfo>

namespace mc
{

constexpr uint32_t MAX_PATH = 512;

struct Shared
{
    volatile uint64_t executions;
    volatile uint32_t scenario;
    volatile uint32_t pathLen;
    volatile uint32_t path[MAX_PATH];
    char note[2048];
};

size_t g_allocCap = size_t(1) << 28;
uint64_t g_maxAlloc = 0;
int64_t g_liveAllocs = 0;
uint64_t g_newCount = 0;
int64_t g_failAllocAt = 0;

uint64_t Ctx::hashOf(const std::string& text)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : text)
    {
        h = (h ^ ch) * 1099511628211ULL;
    }
    return mix(h, text.size());
}

uint32_t Ctx::choose(uint32_t n)
{
    if (n == 0)
    {
        throw SkipPath();
    }
    const size_t depth = m_path.size();
    uint32_t value = 0;
    if (depth < m_prefix.size())
    {
        value = m_prefix[depth];
        if (value >= n)
        {
            throw SkipPath(); // only possible for a replay made for another version of the scenario
        }
    }
    m_path.emplace_back(value, n);
    if (m_shared && depth < MAX_PATH)
    {
        m_shared->path[depth] = value;
        m_shared->pathLen = static_cast<uint32_t>(depth + 1);
    }
    if (depth < m_splitDepth)
    {
        m_splitHash = mix(m_splitHash, value + 1);
    }
    if (depth + 1 == m_splitDepth && !m_replaying && m_workers > 1 && (m_splitHash >> 20) % m_workers != m_worker)
    {
        throw SkipPath();
    }
    return value;
}

void Ctx::state(uint64_t hash)
{
    if (m_states.size() < 3000000)
    {
        m_states.insert(hash);
    }
    else
    {
        m_statesSaturated = true;
    }
}

void Ctx::sample(const std::string& text)
{
    if (m_samples.size() < 12 && m_wantSample)
    {
        m_samples.push_back(text.substr(0, 400));
    }
}

void Ctx::note(const std::string& text)
{
    m_note = text;
    if (m_shared)
    {
        std::strncpy(m_shared->note, text.c_str(), sizeof(m_shared->note) - 1);
    }
}

void Ctx::fail(const std::string& key, const std::string& msg)
{
    throw Failure{key, msg};
}

std::string hex(const void* data, size_t size)
{
    static const char* digits = "0123456789abcdef";
    std::string out;
    const unsigned char* bytes = static_cast<const unsigned char*>(data);
    for (size_t i = 0; i < size && i < 200; ++i)
    {
        out.push_back(digits[bytes[i] >> 4]);
        out.push_back(digits[bytes[i] & 15]);
    }
    return out;
}

static std::string jsonEscape(const std::string& text)
{
    std::string out;
    for (unsigned char ch : text)
    {
        if (ch == '"' || ch == '\\')
        {
            out.push_back('\\');
            out.push_back(static_cast<char>(ch));
        }
        else if (ch < 0x20 || ch >= 0x7f)
        {
            char buf[8];
            std::snprintf(buf, sizeof(buf), "\\u%04x", ch);
            out += buf;
        }
        else
        {
            out.push_back(static_cast<char>(ch));
        }
    }
    return out;
}

static std::string pathText(const std::vector<uint32_t>& path)
{
    std::string out;
    for (size_t i = 0; i < path.size(); ++i)
    {
        out += (i ? "," : "") + std::to_string(path[i]);
    }
    return out;
}

static void writeViolation(const std::string& file, const std::string& scenario, const std::vector<uint32_t>& path,
        const std::string& key, const std::string& msg, const std::string& note)
{
    const std::string tmp = file + ".tmp"; // renamed when complete, this process may be stopped meanwhile
    std::ofstream os(tmp);
    os << "{\"scenario\": \"" << jsonEscape(scenario) << "\", \"choices\": [" << pathText(path) << "], \"key\": \""
       << jsonEscape(key) << "\", \"message\": \"" << jsonEscape(msg) << "\", \"note\": \"" << jsonEscape(note)
       << "\"}\n";
    os.close();
    std::rename(tmp.c_str(), file.c_str());
}

// runs the scenario once for ctx.m_prefix; returns false when the path was skipped
static bool execute(Ctx& ctx, const Scenario& scenario, std::string& failKey, std::string& failMsg)
{
    ctx.m_path.clear();
    ctx.m_splitHash = 0x1234567;
    ctx.m_splitDepth = scenario.splitDepth;
    ctx.m_note.clear();
    if (ctx.m_shared)
    {
        ctx.m_shared->pathLen = 0;
        ctx.m_shared->note[0] = 0;
    }
    failKey.clear();
    failMsg.clear();
    g_failAllocAt = 0;
    try
    {
        scenario.body(ctx);
    }
    catch (const SkipPath&)
    {
        g_failAllocAt = 0;
        return false;
    }
    catch (const Failure& failure)
    {
        failKey = failure.key;
        failMsg = failure.msg;
    }
    catch (const std::exception& e)
    {
        failKey = "unexpected-exception";
        failMsg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    }
    catch (...)
    {
        failKey = "unexpected-exception";
        failMsg = "unexpected exception of unknown type";
    }
    g_failAllocAt = 0;
    // a path shorter than the split depth belongs to worker 0
    if (failKey.empty() && ctx.m_path.size() < ctx.m_splitDepth && ctx.m_worker != 0 && !ctx.m_replaying)
    {
        return false;
    }
    return true;
}

static bool advance(Ctx& ctx)
{
    std::vector<uint32_t> next;
    size_t len = ctx.m_path.size();
    while (len > 0 && ctx.m_path[len - 1].first + 1 >= ctx.m_path[len - 1].second)
    {
        --len;
    }
    if (len == 0)
    {
        return false;
    }
    for (size_t i = 0; i + 1 < len; ++i)
    {
        next.push_back(ctx.m_path[i].first);
    }
    next.push_back(ctx.m_path[len - 1].first + 1);
    ctx.m_prefix = std::move(next);
    return true;
}

static std::set<std::string> knownKeys()
{
    std::set<std::string> keys;
    const char* env = std::getenv("MC_KNOWN");
    std::string text = env ? env : "";
    size_t pos = 0;
    while (pos < text.size())
    {
        size_t end = text.find(';', pos);
        if (end == std::string::npos)
        {
            end = text.size();
        }
        if (end > pos)
        {
            keys.insert(text.substr(pos, end - pos));
        }
        pos = end + 1;
    }
    return keys;
}

static int workerMain(Ctx& ctx, const std::vector<Scenario>& scenarios, const std::string& outDir,
        const std::string& only)
{
    const std::set<std::string> known = knownKeys();
    std::set<std::string> knownSeen;
    std::string perScenario;
    for (size_t s = 0; s < scenarios.size(); ++s)
    {
        if (!only.empty() && only != scenarios[s].name)
        {
            continue;
        }
        ctx.m_prefix.clear();
        ctx.m_scenario = static_cast<uint32_t>(s);
        ctx.m_shared->scenario = static_cast<uint32_t>(s);
        uint64_t executions = 0;
        const uint64_t transitionsBefore = ctx.m_transitions;
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        uint64_t nextSample = 1;
        while (true)
        {
            std::string key, msg;
            ctx.m_wantSample = (executions + 1 == nextSample);
            const bool counted = execute(ctx, scenarios[s], key, msg);
            if (counted)
            {
                ++executions;
                ++ctx.m_executions;
                if (executions >= nextSample)
                {
                    nextSample = nextSample * 37 + 1;
                }
            }
            ctx.m_shared->executions = ctx.m_shared->executions + 1;
            if (!key.empty())
            {
                if (known.count(key))
                {
                    knownSeen.insert(key);
                }
                else
                {
                    std::vector<uint32_t> path;
                    for (const auto& p : ctx.m_path)
                    {
                        path.push_back(p.first);
                    }
                    writeViolation(outDir + "/violation." + std::to_string(ctx.m_worker) + ".json",
                            scenarios[s].name, path, key, msg, ctx.m_note);
                    return 3;
                }
            }
            if (!advance(ctx))
            {
                break;
            }
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        char buf[256];
        std::snprintf(buf, sizeof(buf), "%s{\"name\": \"%s\", \"executions\": %" PRIu64 ", \"transitions\": %" PRIu64
                ", \"seconds\": %.1f}", perScenario.empty() ? "" : ", ", scenarios[s].name, executions,
                ctx.m_transitions - transitionsBefore,
                double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec));
        perScenario += buf;
    }

    std::ofstream os(outDir + "/worker." + std::to_string(ctx.m_worker) + ".json");
    os << "{\"executions\": " << ctx.m_executions << ", \"transitions\": " << ctx.m_transitions
       << ", \"cases\": " << ctx.m_cases << ", \"saturated\": " << (ctx.m_statesSaturated ? "true" : "false")
       << ", \"known\": [";
    bool first = true;
    for (const auto& key : knownSeen)
    {
        os << (first ? "" : ", ") << '"' << jsonEscape(key) << '"';
        first = false;
    }
    os << "], \"scenarios\": [" << perScenario << "], \"samples\": [";
    for (size_t i = 0; i < ctx.m_samples.size(); ++i)
    {
        os << (i ? ", " : "") << '"' << jsonEscape(ctx.m_samples[i]) << '"';
    }
    os << "]}\n";
    os.close();
    std::ofstream st(outDir + "/states." + std::to_string(ctx.m_worker) + ".bin", std::ios::binary);
    for (uint64_t h : ctx.m_states)
    {
        st.write(reinterpret_cast<const char*>(&h), 8);
    }
    return 0;
}

static double cpuSeconds(pid_t pid)
{
    char name[64];
    std::snprintf(name, sizeof(name), "/proc/%d/stat", static_cast<int>(pid));
    std::ifstream is(name);
    std::string text((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    const size_t pos = text.rfind(')');
    if (pos == std::string::npos)
    {
        return -1;
    }
    unsigned long ut = 0, st = 0;
    if (std::sscanf(text.c_str() + pos + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) != 2)
    {
        return -1;
    }
    return double(ut + st) / double(sysconf(_SC_CLK_TCK));
}

int run(int argc, char** argv, const std::vector<Scenario>& scenarios)
{
    std::string outDir = ".";
    std::string replayScenario, replayPath, only;
    bool replay = false;
    uint32_t workers = 8;
    bool thorough = false;
    double hangCpu = 100;
    for (int i = 1; i < argc; ++i)
    {
        const std::string arg = argv[i];
        if (arg == "--out" && i + 1 < argc)
        {
            outDir = argv[++i];
        }
        else if (arg == "--workers" && i + 1 < argc)
        {
            workers = static_cast<uint32_t>(std::atoi(argv[++i]));
        }
        else if (arg == "--thorough")
        {
            thorough = true;
        }
        else if (arg == "--only" && i + 1 < argc)
        {
            only = argv[++i];
        }
        else if (arg == "--replay" && i + 2 < argc)
        {
            replay = true;
            replayScenario = argv[++i];
            replayPath = argv[++i];
        }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);

    if (replay)
    {
        for (const Scenario& scenario : scenarios)
        {
            if (replayScenario == scenario.name)
            {
                Ctx ctx;
                ctx.m_thorough = thorough;
                ctx.m_replaying = true;
                std::istringstream is(replayPath);
                std::string part;
                while (std::getline(is, part, ','))
                {
                    if (!part.empty())
                    {
                        ctx.m_prefix.push_back(static_cast<uint32_t>(std::stoul(part)));
                    }
                }
                std::string key, msg;
                execute(ctx, scenario, key, msg);
                std::printf("note: %s\n", ctx.m_note.c_str());
                if (!key.empty())
                {
                    std::printf("FAILED key=%s\n%s\n", key.c_str(), msg.c_str());
                    return 3;
                }
                std::printf("no failure\n");
                return 0;
            }
        }
        std::printf("no such scenario\n");
        return 2;
    }

    std::vector<pid_t> pids(workers);
    std::vector<Shared*> shared(workers);
    for (uint32_t w = 0; w < workers; ++w)
    {
        shared[w] = static_cast<Shared*>(
                mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    for (uint32_t w = 0; w < workers; ++w)
    {
        const pid_t pid = fork();
        if (pid == 0)
        {
            Ctx ctx;
            ctx.m_worker = w;
            ctx.m_workers = workers;
            ctx.m_thorough = thorough;
            ctx.m_shared = shared[w];
            const int rc = workerMain(ctx, scenarios, outDir, only);
            fflush(nullptr);
            _exit(rc);
        }
        pids[w] = pid;
    }

    int result = 0;
    uint32_t running = workers;
    std::vector<uint64_t> lastExec(workers, 0);
    std::vector<double> cpuAtChange(workers, 0);
    std::vector<bool> done(workers, false);
    std::vector<bool> hung(workers, false);
    while (running > 0)
    {
        int status = 0;
        const pid_t pid = waitpid(-1, &status, WNOHANG);
        if (pid <= 0)
        {
            usleep(20000);
            static int tick = 0;
            if (++tick % 50 == 0)
            {
                for (uint32_t w = 0; w < workers; ++w)
                {
                    if (done[w])
                    {
                        continue;
                    }
                    const double cpu = cpuSeconds(pids[w]);
                    const uint64_t exec = shared[w]->executions;
                    if (exec != lastExec[w])
                    {
                        lastExec[w] = exec;
                        cpuAtChange[w] = cpu;
                    }
                    else if (cpu >= 0 && cpu - cpuAtChange[w] > hangCpu)
                    {
                        hung[w] = true;
                        kill(pids[w], SIGKILL);
                    }
                }
            }
            continue;
        }
        for (uint32_t w = 0; w < workers; ++w)
        {
            if (pids[w] != pid)
            {
                continue;
            }
            done[w] = true;
            --running;
            const bool clean = WIFEXITED(status) && WEXITSTATUS(status) == 0;
            if (!clean)
            {
                result = 3;
                if (!(WIFEXITED(status) && WEXITSTATUS(status) == 3))
                {
                    // crash or hang: the choices are in the shared memory
                    std::vector<uint32_t> path;
                    for (uint32_t i = 0; i < shared[w]->pathLen && i < MAX_PATH; ++i)
                    {
                        path.push_back(uint32_t(shared[w]->path[i]));
                    }
                    std::string msg;
                    const char* key = "crash";
                    if (hung[w])
                    {
                        msg = "execution does not terminate";
                        key = "hang";
                    }
                    else if (WIFSIGNALED(status))
                    {
                        msg = str("killed by signal ", WTERMSIG(status));
                        if (WTERMSIG(status) == SIGKILL)
                        {
                            key = "killed";
                        }
                    }
                    else
                    {
                        msg = str("terminated with exit code ", WEXITSTATUS(status),
                                " (sanitizer report on standard error)");
                    }
                    writeViolation(outDir + "/violation." + std::to_string(w) + ".json",
                            scenarios[shared[w]->scenario].name, path, key, msg,
                            std::string(shared[w]->note));
                }
                // the first violation ends the run
                for (uint32_t v = 0; v < workers; ++v)
                {
                    if (!done[v])
                    {
                        kill(pids[v], SIGKILL);
                        waitpid(pids[v], nullptr, 0);
                        done[v] = true;
                        --running;
                    }
                }
            }
        }
    }
    return result;
}

} // namespace mc

static void* mcAlloc(size_t size)
{
    if (size > mc::g_maxAlloc)
    {
        mc::g_maxAlloc = size;
    }
    if (size > mc::g_allocCap)
    {
        throw std::bad_alloc();
    }
    if (mc::g_failAllocAt > 0 && --mc::g_failAllocAt == 0)
    {
        throw std::bad_alloc();
    }
    void* ptr = std::malloc(size ? size : 1);
    if (!ptr)
    {
        throw std::bad_alloc();
    }
    ++mc::g_liveAllocs;
    ++mc::g_newCount;
    return ptr;
}

void* operator new(size_t size) { return mcAlloc(size); }
void* operator new[](size_t size) { return mcAlloc(size); }
void* operator new(size_t size, const std::nothrow_t&) noexcept
{
    try { return mcAlloc(size); } catch (...) { return nullptr; }
}
void* operator new[](size_t size, const std::nothrow_t&) noexcept
{
    try { return mcAlloc(size); } catch (...) { return nullptr; }
}
void operator delete(void* ptr) noexcept { if (ptr) --mc::g_liveAllocs; std::free(ptr); }
void operator delete[](void* ptr) noexcept { if (ptr) --mc::g_liveAllocs; std::free(ptr); }
void operator delete(void* ptr, size_t) noexcept { if (ptr) --mc::g_liveAllocs; std::free(ptr); }
void operator delete[](void* ptr, size_t) noexcept { if (ptr) --mc::g_liveAllocs; std::free(ptr); }
void operator delete(void* ptr, const std::nothrow_t&) noexcept { if (ptr) --mc::g_liveAllocs; std::free(ptr); }
void operator delete[](void* ptr, const std::nothrow_t&) noexcept { if (ptr) --mc::g_liveAllocs; std::free(ptr); }
