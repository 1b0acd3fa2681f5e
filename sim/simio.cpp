#ifndef _GNU_SOURCE
#    define _GNU_SOURCE
#endif
#include "simio.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim
{
fs_t fs;
in_t in;
} // namespace sim
using sim::fs;

extern "C" int __real_open(const char*, int, ...);
extern "C" int __real_close(int);
namespace
{
constexpr int max_fd = 4096;
bool          sim_fd[max_fd]; // descriptors opened through the seam
struct Map
{
    char*       p;
    std::size_t len;
};
Map  maps[64];
bool ours(int fd)
{
    return fs.on && fd >= 0 && fd < max_fd && sim_fd[fd];
}
bool misbehave(const char* what)
{
    if (fs.fault_pct == 0)
        return false;
    return sim::chance(fs.fault_pct, what);
}
int fail(const char* kind, int e)
{
    ++fs.hard;
    sim::fault(kind);
    errno = e;
    return -1;
}
void maybe_mutate(int fd)
{
    if (fs.mutate_armed && !fs.mutated && sim::chance(60, "mutate now"))
    {
        fs.mutated = true;
        int w      = __real_open(fs.path.c_str(), O_WRONLY | O_TRUNC);
        (void)fd;
        if (w >= 0)
        {
            // NOLINTNEXTLINE
            (void)!write(w, fs.mutate_to.data(), fs.mutate_to.size());
            __real_close(w);
        }
        sim::fault("file-changed-by-other-process");
    }
}
} // namespace

extern "C"
{
int     __real_open(const char*, int, ...);
int     __real_open64(const char*, int, ...);
int     __real_openat(int, const char*, int, ...);
off_t   __real_lseek(int, off_t, int);
off64_t __real_lseek64(int, off64_t, int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off64_t);
ssize_t __real_readv(int, const iovec*, int);
void*   __real_mmap(void*, size_t, int, int, int, off_t);
void*   __real_mmap64(void*, size_t, int, int, int, off64_t);
int     __real_munmap(void*, size_t);
int     __real_close(int);
int     __real_fstat(int, struct stat*);
int     __real_fstat64(int, struct stat64*);
int     __real_stat(const char*, struct stat*);
int     __real_stat64(const char*, struct stat64*);
FILE*   __real_fopen(const char*, const char*);
FILE*   __real_fopen64(const char*, const char*);
FILE*   __real_fdopen(int, const char*);
int     __real_fclose(FILE*);

static void restore_fd0()
{
    int fd = __real_open("/dev/null", O_RDONLY);
    if (fd > 0)
    {
        dup2(fd, 0);
        __real_close(fd);
    }
}
static int sim_open(const char* path, int flags)
{
    static const int errs[] = {ENOENT, EACCES, ENOTDIR, ELOOP, EPERM, EMFILE, ENFILE, EINTR, EIO, ENOMEM};
    if (misbehave("open"))
    {
        int e = errs[sim::choose(sizeof(errs) / sizeof(*errs), "open errno")];
        fs.open_failed = true;
        fs.open_errno  = e;
        char k[40];
        switch (e)
        {
        case ENOENT: return fail("open:ENOENT", e);
        case EACCES: return fail("open:EACCES", e);
        case ENOTDIR: return fail("open:ENOTDIR", e);
        case ELOOP: return fail("open:ELOOP", e);
        case EPERM: return fail("open:EPERM", e);
        case EMFILE: return fail("open:EMFILE", e);
        case ENFILE: return fail("open:ENFILE", e);
        case EINTR: return fail("open:EINTR", e);
        case EIO: return fail("open:EIO", e);
        default: return fail("open:ENOMEM", e);
        }
    }
    fs.open_failed = false;
    int fd = __real_open(path, flags);
    if (fd < 0)
    {
        fs.open_failed = true;
        fs.open_errno  = errno;
        return fd;
    }
    if (fd != 0 && sim::choose(8, "standard input closed") == 7)
    {
        // A process without standard input gets descriptor 0.
        if (dup2(fd, 0) == 0)
        {
            __real_close(fd);
            fd = 0;
            sim::fault("open:descriptor-0");
        }
    }
    if (fd < max_fd)
        sim_fd[fd] = true;
    ++fs.fds;
    sim::ev("open ok");
    return fd;
}
static bool sim_path(const char* path)
{
    return fs.on && fs.path == path;
}
int __wrap_open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (sim_path(path) && (flags & O_ACCMODE) == O_RDONLY)
        return sim_open(path, flags);
    return __real_open(path, flags, mode);
}
int __wrap_open64(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (sim_path(path) && (flags & O_ACCMODE) == O_RDONLY)
        return sim_open(path, flags);
    return __real_open64(path, flags, mode);
}
int __wrap_openat(int d, const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (sim_path(path))
        return sim_open(path, flags);
    return __real_openat(d, path, flags, mode);
}
off_t __wrap_lseek(int fd, off_t o, int w)
{
    if (ours(fd))
    {
        if (misbehave("lseek"))
            return fail("lseek:fail", sim::choose(2, "lseek errno") ? EOVERFLOW : ESPIPE);
        auto r = __real_lseek(fd, o, w);
        sim::ev("lseek %lld %d -> %lld", (long long)o, w, (long long)r);
        return r;
    }
    return __real_lseek(fd, o, w);
}
off64_t __wrap_lseek64(int fd, off64_t o, int w)
{
    return __wrap_lseek(fd, o, w);
}
static ssize_t sim_read(int fd, void* p, size_t n, off_t at, bool positioned)
{
    maybe_mutate(fd);
    if (misbehave("read"))
    {
        switch (sim::choose(4, "read fault"))
        {
        case 0: return fail("read:EIO", EIO);
        case 1: return fail("read:EINTR", EINTR);
        case 2: {
            // A short transfer: fewer bytes than asked for, at least one.
            if (n > 1)
            {
                ++fs.soft;
                sim::fault("read:short");
                n = 1 + size_t(sim::choose(n - 1, "short length"));
            }
            break;
        }
        default: return fail("read:ENOMEM", ENOMEM);
        }
    }
    ssize_t r = positioned ? __real_pread(fd, p, n, at) : __real_read(fd, p, n);
    sim::ev("read %zu -> %lld", n, (long long)r);
    return r;
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (ours(fd))
        return sim_read(fd, p, n, 0, false);
    return __real_read(fd, p, n);
}
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o)
{
    if (ours(fd))
        return sim_read(fd, p, n, o, true);
    return __real_pread(fd, p, n, o);
}
ssize_t __wrap_pread64(int fd, void* p, size_t n, off64_t o)
{
    return __wrap_pread(fd, p, n, o);
}
ssize_t __wrap_readv(int fd, const iovec* v, int n)
{
    if (ours(fd) && n > 0)
        return sim_read(fd, v[0].iov_base, v[0].iov_len, 0, false);
    return __real_readv(fd, v, n);
}
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off)
{
    if (ours(fd))
    {
        if (misbehave("mmap"))
        {
            fail("mmap:fail", sim::choose(2, "mmap errno") ? ENODEV : ENOMEM);
            return MAP_FAILED;
        }
        auto p = __real_mmap(a, len, prot, flags, fd, off);
        sim::ev("mmap %zu", len);
        if (p != MAP_FAILED)
            for (auto& m : maps)
                if (!m.p)
                {
                    m = {static_cast<char*>(p), len};
                    ++fs.maps;
                    break;
                }
        return p;
    }
    return __real_mmap(a, len, prot, flags, fd, off);
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off64_t off)
{
    return __wrap_mmap(a, len, prot, flags, fd, off);
}
int __wrap_munmap(void* p, size_t len)
{
    constexpr size_t page = 4096;
    for (auto& m : maps)
        if (m.p == p && p)
        {
            if ((len + page - 1) / page != (m.len + page - 1) / page)
                break; // leaves a part mapped: stays in the ledger
            m.p = nullptr;
            --fs.maps;
            break;
        }
    return __real_munmap(p, len);
}
int __wrap_close(int fd)
{
    if (ours(fd))
    {
        sim_fd[fd] = false;
        --fs.fds;
        int r      = __real_close(fd);
        if (fd == 0)
            restore_fd0();
        // The descriptor is gone in any case; close itself may still report an error.
        if (misbehave("close"))
        {
            ++fs.soft;
            sim::fault("close:EINTR");
            errno = EINTR;
            return -1;
        }
        return r;
    }
    if (fs.on && fd >= 0)
        // Might by now be somebody else's.
        sim::violate("foreign-close", "close(%d), which is not an open descriptor of the caller", fd);
    return __real_close(fd);
}
int __wrap_fstat(int fd, struct stat* s)
{
    if (ours(fd) && misbehave("fstat"))
        return fail("fstat:fail", EIO);
    return __real_fstat(fd, s);
}
int __wrap_fstat64(int fd, struct stat64* s)
{
    if (ours(fd) && misbehave("fstat"))
        return fail("fstat:fail", EIO);
    return __real_fstat64(fd, s);
}
int __wrap_stat(const char* p, struct stat* s)
{
    if (sim_path(p) && misbehave("stat"))
        return fail("stat:fail", EIO);
    return __real_stat(p, s);
}
int __wrap_stat64(const char* p, struct stat64* s)
{
    if (sim_path(p) && misbehave("stat"))
        return fail("stat:fail", EIO);
    return __real_stat64(p, s);
}

// A FILE over a simulated descriptor, for code that prefers the C library.
static ssize_t ck_read(void* c, char* p, size_t n)
{
    return __wrap_read(int(intptr_t(c)), p, n);
}
static int ck_seek(void* c, off64_t* o, int w)
{
    auto r = __wrap_lseek(int(intptr_t(c)), *o, w);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
static int ck_close(void* c)
{
    --fs.files;
    return __wrap_close(int(intptr_t(c)));
}
static FILE* sim_file(int fd)
{
    cookie_io_functions_t f = {ck_read, nullptr, ck_seek, ck_close};
    auto                  r = fopencookie(reinterpret_cast<void*>(intptr_t(fd)), "r", f);
    if (r)
        ++fs.files;
    return r;
}
FILE* __wrap_fopen(const char* path, const char* mode)
{
    if (sim_path(path))
    {
        int fd = sim_open(path, O_RDONLY);
        return fd < 0 ? nullptr : sim_file(fd);
    }
    return __real_fopen(path, mode);
}
FILE* __wrap_fopen64(const char* path, const char* mode)
{
    return __wrap_fopen(path, mode);
}
FILE* __wrap_fdopen(int fd, const char* mode)
{
    if (ours(fd))
        return sim_file(fd);
    return __real_fdopen(fd, mode);
}
int __wrap_fclose(FILE* f)
{
    return __real_fclose(f);
}
} // extern "C"

namespace sim
{
void fs_begin(const std::string& path, unsigned fault_pct)
{
    fs           = fs_t();
    fs.path      = path;
    fs.fault_pct = fault_pct;
    for (auto& m : maps)
        m.p = nullptr;
    std::memset(sim_fd, 0, sizeof sim_fd);
    fs.on = true;
}
void fs_end()
{
    fs.on = false;
    // Clean up what the code under test left behind, so that runs stay independent.
    for (int i = 0; i < max_fd; ++i)
        if (sim_fd[i])
        {
            __real_close(i);
            sim_fd[i] = false;
            if (i == 0)
                restore_fd0();
        }
    for (auto& m : maps)
        if (m.p)
        {
            __real_munmap(m.p, m.len);
            m.p = nullptr;
        }
}

//=== stdin ===//
namespace
{
FILE* real_stdin;
FILE* cur_stdin;
char* cur_buf;
ssize_t in_read(void*, char* p, size_t n)
{
    ++in.reads;
    if (in.pos >= in.error_at)
    {
        in.errored = true;
        fault(in.error_no == EINTR ? "stdin:EINTR" : "stdin:EIO");
        errno = in.error_no;
        return -1;
    }
    if (in.pos == in.data.size())
    {
        if (in.eof_seen && !in.after_eof.empty())
        {
            fault("stdin:data-after-eof");
            size_t k = std::min(n, in.after_eof.size());
            std::memcpy(p, in.after_eof.data(), k);
            in.after_eof.erase(0, k);
            return ssize_t(k);
        }
        in.eof_seen = true;
        ev("stdin eof");
        return 0;
    }
    size_t k = std::min(n, in.data.size() - in.pos);
    k        = std::min(k, in.error_at - in.pos);
    if (in.line_mode)
    {
        auto nl = in.data.find('\n', in.pos);
        if (nl != std::string::npos)
            k = std::min(k, nl + 1 - in.pos);
    }
    if (k > in.max_chunk || choose(4, "full chunk?") == 0)
        k = 1 + size_t(choose(std::min(k, in.max_chunk), "stdin chunk"));
    std::memcpy(p, in.data.data() + in.pos, k);
    in.pos += k;
    ev("stdin %zu", k);
    return ssize_t(k);
}
} // namespace
void stdin_begin(std::size_t bufsize)
{
    untracked u;
    cookie_io_functions_t f = {in_read, nullptr, nullptr, nullptr};
    cur_stdin               = fopencookie(nullptr, "r", f);
    cur_buf                 = nullptr;
    if (bufsize == 0)
        std::setvbuf(cur_stdin, nullptr, _IONBF, 0);
    else
    {
        cur_buf = static_cast<char*>(std::malloc(bufsize));
        std::setvbuf(cur_stdin, cur_buf, _IOFBF, bufsize);
    }
    real_stdin = stdin;
    stdin      = cur_stdin;
}
void stdin_end()
{
    stdin = real_stdin;
    std::fclose(cur_stdin);
    std::free(cur_buf);
}

//=== output ===//
namespace
{
ssize_t out_write(void* c, const char* p, size_t n)
{
    auto& o = *static_cast<out_t*>(c);
    ++o.writes;
    untracked u;
    if (o.fault_pct && chance(o.fault_pct, "write"))
    {
        ++o.faults;
        switch (choose(3, "write fault"))
        {
        case 0:
            fault("write:EIO");
            errno = EIO;
            return 0;
        case 1:
            fault("write:EINTR");
            errno = EINTR;
            return 0;
        default:
            fault("write:short");
            n = n ? size_t(choose(n, "short write")) : 0;
            o.accepted.append(p, n);
            return ssize_t(n);
        }
    }
    if (o.accepted.size() + n > o.capacity)
    {
        ++o.faults;
        fault("write:ENOSPC");
        n = o.capacity - std::min(o.capacity, o.accepted.size());
        o.accepted.append(p, n);
        errno = ENOSPC;
        return ssize_t(n);
    }
    o.accepted.append(p, n);
    return ssize_t(n);
}
} // namespace
FILE* out_open(out_t& o, int bufmode, std::size_t bufsize)
{
    untracked             u;
    cookie_io_functions_t f = {nullptr, out_write, nullptr, nullptr};
    auto                  r = fopencookie(&o, "w", f);
    std::setvbuf(r, nullptr, bufmode, bufsize);
    return r;
}
} // namespace sim
