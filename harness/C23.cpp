// C23: file helpers store and load exact contents or report failure.
// mc: level=fault_enumeration opt=1 sources=std_test_object libs=dl
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include "mc.h"
#include "objects.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/FileUtil.h"
#include "zserio/SerializeUtil.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
namespace to = ::test_object::std_allocator;
namespace ob = ::obj::std_allocator;

// ---------------------------------------------------------------- the calls the C++ library makes on the files of this check

namespace
{

enum class Fault
{
    NONE,
    OPEN_EACCES,
    OPEN_EMFILE,
    WRITE_ENOSPC,
    WRITE_EIO,
    WRITE_EINTR,
    WRITE_ONE, // one byte only, then normally
    WRITE_HALF, // half of it, then normally
    WRITE_HALF_ENOSPC, // half of it, then no space
    CLOSE_EIO,
    CLOSE_ENOSPC,
    READ_EIO,
    READ_EINTR,
    READ_ONE,
    READ_HALF,
    READ_END, // file has been cut meanwhile
    READ_HALF_END, // half of it, the rest has been cut
    READ_ONE_END,
    READ_HALF_EIO, // half of it, then errors
    SEEK_EIO,
};

struct Injector
{
    bool armed = false;
    std::string watched; // path
    int fd = -1;
    FILE* file = nullptr;
    Fault fault = Fault::NONE;
    int at = 0; // which call of the fault's kind
    int seen = 0;
    bool fired = false;
    bool full = false; // no space from now on
    uint64_t calls = 0;
} inj;

bool due(bool kind)
{
    if (!kind)
    {
        return false;
    }
    return inj.seen++ == inj.at ? (inj.fired = true) : false;
}

template <typename F>
F next(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

FILE* openFile(const char* name, const char* symbol, const char* path, const char* mode)
{
    (void)name;
    static auto real = next<FILE* (*)(const char*, const char*)>(symbol);
    const bool mine = inj.armed && inj.watched == path;
    if (mine)
    {
        ++inj.calls;
        if (due(inj.fault == Fault::OPEN_EACCES || inj.fault == Fault::OPEN_EMFILE))
        {
            errno = inj.fault == Fault::OPEN_EACCES ? EACCES : EMFILE;
            return nullptr;
        }
    }
    FILE* file = real(path, mode);
    if (mine && file != nullptr)
    {
        inj.file = file;
        inj.fd = fileno(file);
    }
    return file;
}

ssize_t writing(int fd, size_t size, const std::function<ssize_t(size_t)>& real)
{
    if (!inj.armed || fd != inj.fd)
    {
        return real(size);
    }
    ++inj.calls;
    if (inj.full)
    {
        errno = ENOSPC;
        return -1;
    }
    if (!due(inj.fault >= Fault::WRITE_ENOSPC && inj.fault <= Fault::WRITE_HALF_ENOSPC))
    {
        return real(size);
    }
    switch (inj.fault)
    {
    case Fault::WRITE_ENOSPC:
        inj.full = true;
        errno = ENOSPC;
        return -1;
    case Fault::WRITE_EIO:
        errno = EIO;
        return -1;
    case Fault::WRITE_EINTR:
        errno = EINTR;
        return -1;
    case Fault::WRITE_ONE:
        return real(size > 0 ? 1 : 0);
    case Fault::WRITE_HALF_ENOSPC:
        inj.full = true;
        return real((size + 1) / 2);
    default:
        return real((size + 1) / 2);
    }
}

} // namespace

extern "C" FILE* fopen(const char* path, const char* mode)
{
    return openFile("fopen", "fopen", path, mode);
}
extern "C" FILE* fopen64(const char* path, const char* mode)
{
    return openFile("fopen64", "fopen64", path, mode);
}
extern "C" ssize_t write(int fd, const void* data, size_t size)
{
    static auto real = next<ssize_t (*)(int, const void*, size_t)>("write");
    return writing(fd, size, [&](size_t n) { return real(fd, data, n); });
}
extern "C" ssize_t writev(int fd, const struct iovec* parts, int count)
{
    static auto real = next<ssize_t (*)(int, const struct iovec*, int)>("writev");
    static auto realWrite = next<ssize_t (*)(int, const void*, size_t)>("write");
    size_t total = 0;
    for (int i = 0; i < count; ++i)
    {
        total += parts[i].iov_len;
    }
    return writing(fd, total, [&](size_t n) -> ssize_t {
        if (n == total)
        {
            return real(fd, parts, count);
        }
        std::string all;
        for (int i = 0; i < count; ++i)
        {
            all.append(static_cast<const char*>(parts[i].iov_base), parts[i].iov_len);
        }
        return realWrite(fd, all.data(), n);
    });
}
extern "C" ssize_t read(int fd, void* data, size_t size)
{
    static auto real = next<ssize_t (*)(int, void*, size_t)>("read");
    if (!inj.armed || fd != inj.fd)
    {
        return real(fd, data, size);
    }
    ++inj.calls;
    if (inj.full)
    {
        errno = EIO;
        return inj.fault == Fault::READ_HALF_EIO ? -1 : 0;
    }
    if (!due(inj.fault >= Fault::READ_EIO && inj.fault <= Fault::READ_HALF_EIO))
    {
        return real(fd, data, size);
    }
    switch (inj.fault)
    {
    case Fault::READ_EIO:
        errno = EIO;
        return -1;
    case Fault::READ_EINTR:
        errno = EINTR;
        return -1;
    case Fault::READ_ONE:
        return real(fd, data, size > 0 ? 1 : 0);
    case Fault::READ_HALF:
        return real(fd, data, (size + 1) / 2);
    case Fault::READ_ONE_END:
        inj.full = true;
        return real(fd, data, size > 0 ? 1 : 0);
    case Fault::READ_HALF_END:
    case Fault::READ_HALF_EIO:
        inj.full = true;
        return real(fd, data, (size + 1) / 2);
    default:
        inj.full = true;
        return 0;
    }
}
extern "C" off_t lseek(int fd, off_t offset, int whence)
{
    static auto real = next<off_t (*)(int, off_t, int)>("lseek");
    if (inj.armed && fd == inj.fd)
    {
        ++inj.calls;
        if (due(inj.fault == Fault::SEEK_EIO))
        {
            errno = EIO;
            return -1;
        }
    }
    return real(fd, offset, whence);
}
extern "C" off64_t lseek64(int fd, off64_t offset, int whence)
{
    return lseek(fd, offset, whence);
}
extern "C" int fclose(FILE* file)
{
    static auto real = next<int (*)(FILE*)>("fclose");
    const bool mine = inj.armed && file == inj.file;
    if (mine)
    {
        ++inj.calls;
        inj.file = nullptr;
        inj.fd = -1;
    }
    const int result = real(file);
    if (mine && due(inj.fault == Fault::CLOSE_EIO || inj.fault == Fault::CLOSE_ENOSPC))
    {
        errno = inj.fault == Fault::CLOSE_EIO ? EIO : ENOSPC;
        return EOF;
    }
    return result;
}

namespace
{

// ---------------------------------------------------------------- a scratch directory of one execution

class Scratch
{
public:
    Scratch()
    {
        char name[] = "/tmp/verif-c23-XXXXXX";
        if (mkdtemp(name) == nullptr)
        {
            throw std::runtime_error("no scratch directory");
        }
        m_path = name;
    }
    ~Scratch()
    {
        DIR* dir = opendir(m_path.c_str());
        while (const dirent* entry = dir != nullptr ? readdir(dir) : nullptr)
        {
            const std::string name = entry->d_name;
            if (name != "." && name != "..")
            {
                const std::string path = m_path + "/" + name;
                if (unlink(path.c_str()) != 0)
                {
                    (void)rmdir(path.c_str());
                }
            }
        }
        if (dir != nullptr)
        {
            closedir(dir);
        }
        (void)rmdir(m_path.c_str());
    }
    Scratch(const Scratch&) = delete;
    Scratch& operator=(const Scratch&) = delete;
    std::string operator/(const std::string& name) const { return m_path + "/" + name; }

private:
    std::string m_path;
};

// content by plain system calls; "<none>" when there is no such file
std::string contentOf(const std::string& path)
{
    const int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0)
    {
        return "<none>";
    }
    std::string out;
    char buffer[65536];
    for (ssize_t n = 0; (n = read(fd, buffer, sizeof(buffer))) > 0;)
    {
        out.append(buffer, static_cast<size_t>(n));
    }
    close(fd);
    return out;
}

void store(const std::string& path, const std::string& content)
{
    const int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, content.data(), content.size()) != static_cast<ssize_t>(content.size()))
    {
        throw std::runtime_error("cannot prepare " + path);
    }
    close(fd);
}

size_t openFiles()
{
    size_t n = 0;
    for (int fd = 0; fd < 256; ++fd)
    {
        n += fcntl(fd, F_GETFD) != -1;
    }
    return n;
}

__attribute__((noinline)) std::string thrown(const std::function<void()>& f)
{
    try
    {
        f();
    }
    catch (const CppRuntimeException&)
    {
        return "library";
    }
    catch (const std::exception& e)
    {
        return str("other: ", e.what());
    }
    catch (...)
    {
        return "other";
    }
    return "";
}

std::string pattern(size_t size)
{
    std::string out(size, '\0');
    uint32_t x = 12345;
    for (char& c : out)
    {
        x = x * 1664525 + 1013904223;
        c = static_cast<char>(x >> 24);
    }
    return out;
}

std::string shortened(const std::string& s)
{
    return str(s.size(), " bytes ", mc::hex(s.data(), std::min<size_t>(s.size(), 16)));
}

// ---------------------------------------------------------------- operations

// an operation that writes a file: what it is to contain and how to write it
struct Writer
{
    std::string name;
    std::string expected;
    uint32_t unusedBits; // of the last byte, not compared
    std::function<void(std::string_view)> run;
    std::function<std::string(std::string_view)> readBack; // error text when what is read differs; throws what the reader throws
};

to::CreatorObject objectOf(uint32_t size)
{
    to::CreatorObject o{to::CreatorObject::allocator_type()};
    o.value = 0xabcdef01U;
    o.nested = ob::creatorNested(2);
    o.text = String(size, 't');
    o.textArray.resize(size % 7, String("element"));
    o.optionalBool.emplace(true);
    return o;
}

std::string bytesText(const BitBuffer& buffer)
{
    return std::string(reinterpret_cast<const char*>(buffer.getBuffer()), buffer.getByteSize());
}

std::vector<Writer> writers()
{
    std::vector<Writer> out;
    const auto readBuffer = [](const std::string& data, uint32_t unused) {
        return [data, unused](std::string_view file) -> std::string {
            const BitBuffer read = readBufferFromFile(file);
            if (read.getBitSize() != data.size() * 8)
            {
                return str(read.getBitSize(), " bits instead of ", data.size() * 8);
            }
            std::string got = bytesText(read);
            std::string want = data;
            if (unused > 0)
            {
                got.back() = static_cast<char>(static_cast<uint8_t>(got.back()) >> unused);
                want.back() = static_cast<char>(static_cast<uint8_t>(want.back()) >> unused);
            }
            return got == want ? "" : "other bytes";
        };
    };
    for (size_t size : {0, 1, 2, 4095, 4096, 8190, 8191, 8192, 8193, 20000, 70000})
    {
        const std::string data = pattern(size);
        out.push_back({str("bytes ", size), data, 0, [data](std::string_view file) { writeBufferToFile(reinterpret_cast<const uint8_t*>(data.data()), data.size(), file); }, readBuffer(data, 0)});
    }
    for (size_t bits : {0, 1, 7, 8, 9, 15, 17, 65529, 65537})
    {
        const std::string data = pattern((bits + 7) / 8);
        const uint32_t unused = static_cast<uint32_t>((8 - bits % 8) % 8);
        out.push_back({str("bits ", bits), data, unused, [data, bits](std::string_view file) { writeBufferToFile(reinterpret_cast<const uint8_t*>(data.data()), bits, BitsTag(), file); }, readBuffer(data, unused)});
        out.push_back({str("bit buffer ", bits), data, unused,
                [data, bits](std::string_view file) {
                    writeBufferToFile(BitBuffer(Span<const uint8_t>(reinterpret_cast<const uint8_t*>(data.data()), data.size()), bits), file);
                },
                readBuffer(data, unused)});
    }
    for (uint32_t size : {0, 5, 9000, 30000})
    {
        const to::CreatorObject object = objectOf(size);
        bm::Bits bits;
        ob::encode(bits, object);
        const auto bytes = bits.bytes();
        const std::string encoded(bytes.begin(), bytes.end());
        const auto readObject = [object](std::string_view file) -> std::string {
            to::CreatorObject data{to::CreatorObject::allocator_type()};
            const auto view = deserializeFromFile(file, data);
            if (!(data == object) || !(view == View<to::CreatorObject>(object)))
            {
                return "another object";
            }
            const auto dataView = deserializeFromFile<to::CreatorObject>(file);
            return dataView == View<to::CreatorObject>(object) ? "" : "another data view";
        };
        out.push_back({str("object ", size), encoded, 0, [object](std::string_view file) { serializeToFile(object, file); }, readObject});
        out.push_back({str("view ", size), encoded, 0, [object](std::string_view file) { serializeToFile(View<to::CreatorObject>(object), file); }, readObject});
        const String json = toJsonString(object, 2);
        out.push_back({str("json ", size), std::string(json.c_str(), json.size()), 0, [object](std::string_view file) { toJsonFile(object, file, 2); },
                [object](std::string_view file) -> std::string {
                    return fromJsonFile<to::CreatorObject>(file) == object ? "" : "another object";
                }});
    }
    return out;
}

const std::vector<Writer>& allWriters()
{
    static const std::vector<Writer> out = writers();
    return out;
}

bool sameContent(const Writer& w, std::string got)
{
    std::string want = w.expected;
    if (got.size() == want.size() && w.unusedBits > 0 && !got.empty())
    {
        got.back() = static_cast<char>(static_cast<uint8_t>(got.back()) >> w.unusedBits);
        want.back() = static_cast<char>(static_cast<uint8_t>(want.back()) >> w.unusedBits);
    }
    return got == want;
}

struct Arm
{
    Arm(const std::string& path, Fault fault, int at)
    {
        inj = {};
        inj.watched = path;
        inj.fault = fault;
        inj.at = at;
        inj.armed = true;
    }
    ~Arm() { inj.armed = false; }
};

// ---------------------------------------------------------------- scenarios

const std::vector<std::string>& earlier()
{
    static const std::vector<std::string> out = {"<none>", "", "old", std::string(100000, 'o')};
    return out;
}

void roundTrip(Ctx& ctx)
{
    const Writer& w = ctx.pick(allWriters());
    const std::string& before = ctx.pick(earlier());
    const std::vector<std::string> names = {"f", "a b.c", "\xc3\xa9\xe2\x82\xac", ".hidden", std::string(255, 'n'), "%s%n", "trailing."};
    const std::string name = ctx.pick(names);
    const bool slice = ctx.flip(); // the name is a part of a longer text
    ctx.note(str(w.name, " into '", name.substr(0, 10), "' over ", before.size(), slice ? " name is a slice" : ""));
    const Scratch scratch;
    const std::string path = scratch / name;
    if (before != "<none>")
    {
        store(path, before);
    }
    const std::string longer = path + "X/nowhere";
    const std::string_view file = slice ? std::string_view(longer).substr(0, path.size()) : std::string_view(path);
    const size_t open = openFiles();
    ctx.step(2);
    std::string error = thrown([&]() { w.run(file); });
    MC_REQUIRE(ctx, error.empty(), "refused", w.name, " cannot be written: ", error);
    const std::string got = contentOf(path);
    MC_REQUIRE(ctx, sameContent(w, got), "content", w.name, ": file holds ", shortened(got), " instead of ", shortened(w.expected));
    std::string difference;
    error = thrown([&]() { difference = w.readBack(file); });
    MC_REQUIRE(ctx, error.empty() && difference.empty(), "read-back", w.name, ": reading back gives ", difference, error);
    MC_REQUIRE(ctx, openFiles() == open, "open-files", w.name, ": files stay open");
    MC_REQUIRE(ctx, contentOf(path) == got, "content-kept", w.name, ": reading changes the file");
    ctx.state(str(w.name, name, before.size()));
}

// every fault of the table at every call of its kind
void writeFaults(Ctx& ctx)
{
    const Writer& w = ctx.pick(allWriters());
    const std::string before = ctx.pick(std::vector<std::string>{"<none>", std::string(100000, 'o')});
    const Fault fault = ctx.pick(std::vector<Fault>{Fault::OPEN_EACCES, Fault::OPEN_EMFILE, Fault::WRITE_ENOSPC, Fault::WRITE_EIO, Fault::WRITE_EINTR, Fault::WRITE_ONE, Fault::WRITE_HALF,
            Fault::WRITE_HALF_ENOSPC, Fault::CLOSE_EIO, Fault::CLOSE_ENOSPC});
    const int at = static_cast<int>(ctx.choose(ctx.thorough() ? 40 : 12));
    const Scratch scratch;
    const std::string path = scratch / "file";
    if (before != "<none>")
    {
        store(path, before);
    }
    const size_t open = openFiles();
    std::string error;
    bool fired = false;
    uint64_t calls = 0;
    {
        const Arm arm(path, fault, at);
        error = thrown([&]() { w.run(path); });
        fired = inj.fired;
        calls = inj.calls;
    }
    if (!fired && at > 0)
    {
        ctx.skip(); // there are fewer calls of the kind
    }
    ctx.note(str(w.name, " fault ", static_cast<int>(fault), " at call ", at));
    ctx.step(calls);
    const std::string got = contentOf(path);
    MC_REQUIRE(ctx, openFiles() == open, "open-files", w.name, ": files stay open");
    MC_REQUIRE(ctx, error.empty() || error == "library", "other-exception", w.name, ": ", error);
    const bool harmless = !fired || fault == Fault::WRITE_EINTR || fault == Fault::WRITE_ONE || fault == Fault::WRITE_HALF;
    if (error.empty())
    {
        MC_REQUIRE(ctx, sameContent(w, got), "silent-loss", w.name, ": returned normally but the file holds ", shortened(got), " instead of ", shortened(w.expected));
        MC_REQUIRE(ctx, harmless || fault == Fault::WRITE_HALF_ENOSPC, "silent-failure", w.name, ": returned normally although the file system refused");
    }
    else
    {
        MC_REQUIRE(ctx, !harmless, "false-failure", w.name, ": refused although everything could be written");
    }
    // later without a fault
    error = thrown([&]() { w.run(path); });
    MC_REQUIRE(ctx, error.empty() && sameContent(w, contentOf(path)), "retry", w.name, ": writing again fails after a failure: ", error);
    ctx.state(str(w.name, static_cast<int>(fault), at));
}

void readFaults(Ctx& ctx)
{
    const Writer& w = ctx.pick(allWriters());
    const Fault fault = ctx.pick(std::vector<Fault>{Fault::OPEN_EACCES, Fault::OPEN_EMFILE, Fault::READ_EIO, Fault::READ_EINTR, Fault::READ_ONE, Fault::READ_HALF, Fault::READ_END, Fault::READ_HALF_END, Fault::READ_ONE_END, Fault::READ_HALF_EIO, Fault::SEEK_EIO});
    const int at = static_cast<int>(ctx.choose(ctx.thorough() ? 24 : 10));
    const Scratch scratch;
    const std::string path = scratch / "file";
    store(path, w.expected);
    const size_t open = openFiles();
    std::string error;
    std::string difference;
    bool fired = false;
    uint64_t calls = 0;
    {
        const Arm arm(path, fault, at);
        error = thrown([&]() { difference = w.readBack(path); });
        fired = inj.fired;
        calls = inj.calls;
    }
    if (!fired && at > 0)
    {
        ctx.skip();
    }
    ctx.note(str("reading ", w.name, " fault ", static_cast<int>(fault), " at call ", at));
    ctx.step(calls);
    MC_REQUIRE(ctx, openFiles() == open, "open-files", w.name, ": files stay open");
    MC_REQUIRE(ctx, error.empty() || error == "library", "other-exception", w.name, ": ", error);
    MC_REQUIRE(ctx, difference.empty(), "wrong-data", w.name, ": returned normally with ", difference);
    const bool harmless = !fired || fault == Fault::READ_EINTR || fault == Fault::READ_ONE || fault == Fault::READ_HALF;
    MC_REQUIRE(ctx, error.empty() || !harmless, "false-failure", w.name, ": refused although everything could be read");
    MC_REQUIRE(ctx, contentOf(path) == w.expected, "content-kept", w.name, ": reading changes the file");
    error = thrown([&]() { difference = w.readBack(path); });
    MC_REQUIRE(ctx, error.empty() && difference.empty(), "retry", w.name, ": reading again fails after a failure: ", error, difference);
    ctx.state(str(w.name, static_cast<int>(fault), at));
}

struct Limit
{
    Limit(int resource, rlim_t value) :
            m_resource(resource)
    {
        (void)std::signal(SIGXFSZ, SIG_IGN);
        (void)getrlimit(static_cast<__rlimit_resource>(m_resource), &m_saved);
        rlimit changed = m_saved;
        changed.rlim_cur = value;
        (void)setrlimit(static_cast<__rlimit_resource>(m_resource), &changed);
    }
    ~Limit() { (void)setrlimit(static_cast<__rlimit_resource>(m_resource), &m_saved); }
    Limit(const Limit&) = delete;
    Limit& operator=(const Limit&) = delete;
    int m_resource;
    rlimit m_saved{};
};

// the real file system refuses after every number of bytes, whatever calls the helper makes
void fullAt(Ctx& ctx)
{
    const Writer& w = ctx.pick(allWriters());
    std::vector<size_t> limits;
    const size_t size = w.expected.size();
    for (size_t l : {size_t{0}, size_t{1}, size_t{2}, size / 2, size - 2, size - 1, size, size + 1, size_t{4096}, size_t{8191}, size_t{8192}, size_t{16384}})
    {
        if (l <= size + 1 && std::find(limits.begin(), limits.end(), l) == limits.end())
        {
            limits.push_back(l);
        }
    }
    if (size <= 400)
    {
        limits.clear();
        for (size_t l = 0; l <= size + 1; ++l)
        {
            limits.push_back(l);
        }
    }
    const size_t limit = ctx.pick(limits);
    ctx.note(str(w.name, " limit ", limit));
    const Scratch scratch;
    const std::string path = scratch / "file";
    ctx.step();
    std::string error;
    {
        const Limit limited(RLIMIT_FSIZE, limit);
        error = thrown([&]() { w.run(path); });
    }
    MC_REQUIRE(ctx, error.empty() || error == "library", "other-exception", w.name, ": ", error);
    MC_REQUIRE(ctx, error.empty() == (size <= limit), "limit", w.name, ": ", size, " bytes into a file of at most ", limit, error.empty() ? " reported as written" : " refused");
    if (error.empty())
    {
        MC_REQUIRE(ctx, sameContent(w, contentOf(path)), "content", w.name, ": file does not hold what was written");
    }
    ctx.state(str(w.name, limit));
}

// places no file can be written to or read from
void badPlaces(Ctx& ctx)
{
    const Writer& w = ctx.pick(allWriters());
    const uint32_t place = ctx.choose(8);
    const Scratch scratch;
    std::string path = scratch / "file";
    bool writable = false;
    bool readable = false;
    store(scratch / "plain", "x");
    switch (place)
    {
    case 0: // no such directory
        path = scratch / "missing/file";
        break;
    case 1: // a directory
        path = scratch / "directory";
        (void)mkdir(path.c_str(), 0700);
        break;
    case 2: // below a file
        path = scratch / "plain/file";
        break;
    case 3: // too long
        path = scratch / std::string(256, 'n');
        break;
    case 4: // empty name
        path = "";
        break;
    case 5: // circular link
        (void)symlink("file", path.c_str());
        break;
    case 6: // link to a place that can be written
        (void)symlink("target", path.c_str());
        writable = true;
        readable = false;
        break;
    default: // always full
        path = "/dev/full";
        writable = w.expected.empty();
        readable = true; // endless, not read
        break;
    }
    ctx.note(str(w.name, " place ", place));
    ctx.step();
    const size_t open = openFiles();
    if (!readable)
    {
        const std::string error = thrown([&]() { (void)w.readBack(path); });
        MC_REQUIRE(ctx, error == "library", "read-nothing", w.name, " read from place ", place, ": '", error, "'");
    }
    const std::string error = thrown([&]() { w.run(path); });
    MC_REQUIRE(ctx, error == (writable ? "" : "library"), "write-nowhere", w.name, " written to place ", place, ": '", error, "'");
    MC_REQUIRE(ctx, openFiles() == open, "open-files", w.name, ": files stay open");
    MC_REQUIRE(ctx, contentOf(scratch / "plain") == "x", "other-file", "another file was changed");
    ctx.state(str(w.name, place));
}

// every length of a serialized object's file: an object or the library's exception
void cutFiles(Ctx& ctx)
{
    const uint32_t size = ctx.pick(std::vector<uint32_t>{0, 5});
    const to::CreatorObject object = objectOf(size);
    bm::Bits bits;
    ob::encode(bits, object);
    const auto bytes = bits.bytes();
    const bool json = ctx.flip();
    const String text = toJsonString(object, 0);
    const std::string all = json ? std::string(text.c_str(), text.size()) : std::string(bytes.begin(), bytes.end());
    const uint32_t cut = ctx.choose(static_cast<uint32_t>(all.size()));
    ctx.note(str(json ? "json" : "binary", " file cut to ", cut));
    ctx.step();
    const Scratch scratch;
    const std::string path = scratch / "file";
    store(path, all.substr(0, cut));
    const size_t open = openFiles();
    to::CreatorObject data{to::CreatorObject::allocator_type()};
    const std::string error = thrown([&]() {
        if (json)
        {
            data = fromJsonFile<to::CreatorObject>(path);
        }
        else
        {
            (void)deserializeFromFile(path, data);
        }
    });
    MC_REQUIRE(ctx, error == "library", "cut-file", "a file cut to ", cut, " of ", all.size(), " bytes: '", error, "'");
    MC_REQUIRE(ctx, openFiles() == open, "open-files", "files stay open");
    ctx.state(str(json, size, cut));
}

// a file whose size does not fit 32 bits or looks like an error code in them
void hugeFile(Ctx& ctx)
{
    const std::vector<uint64_t> sizes = ctx.thorough() ? std::vector<uint64_t>{0xffffffffULL, 0x80000000ULL, 0x100000000ULL} : std::vector<uint64_t>{0xffffffffULL};
    const uint64_t size = ctx.pick(sizes);
    ctx.note(str("file of ", size, " bytes"));
    ctx.step();
    const Scratch scratch;
    const std::string path = scratch / "huge";
    store(path, "begin");
    if (truncate(path.c_str(), static_cast<off_t>(size - 3)) != 0)
    {
        ctx.skip(); // file system without files of this size
    }
    const int fd = open(path.c_str(), O_WRONLY | O_APPEND);
    const bool prepared = write(fd, "end", 3) == 3;
    close(fd);
    if (!prepared)
    {
        ctx.skip();
    }
    const size_t cap = mc::g_allocCap;
    mc::g_allocCap = ~size_t{0};
    std::string bad;
    const std::string error = thrown([&]() {
        const BitBuffer buffer = readBufferFromFile(path);
        if (buffer.getBitSize() != size * 8 || std::memcmp(buffer.getBuffer(), "begin\0", 6) != 0 || std::memcmp(buffer.getBuffer() + size - 4, "\0end", 4) != 0)
        {
            bad = str(buffer.getBitSize(), " bits");
        }
    });
    mc::g_allocCap = cap;
    MC_REQUIRE(ctx, error.empty() && bad.empty(), "huge", "file of ", size, " bytes: ", error, bad);
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"round-trip", roundTrip},
                    {"write-faults", writeFaults},
                    {"read-faults", readFaults},
                    {"full-at", fullAt},
                    {"bad-places", badPlaces},
                    {"cut-files", cutFiles},
                    {"huge-file", hugeFile, 1},
            });
}
