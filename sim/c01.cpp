// C01: read_file is all-or-nothing under any OS behaviour.
#include "ledger.hpp"
#include "model.hpp"
#include "simio.hpp"
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <lexy/input/file.hpp>
#include <sys/stat.h>
#include <unistd.h>

const char* const   sim::property_id = "C01";
const std::uint64_t sim::step_limit  = 100000000;

namespace
{
using sim::choose;

std::string scratch_path()
{
    static std::string p = [] {
        auto d = std::getenv("LEXYSIM_SCRATCH");
        return std::string(d ? d : "/tmp") + "/c01." + std::to_string(getpid());
    }();
    return p;
}
void write_file(const std::string& content)
{
    int fd = ::open(scratch_path().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ::write(fd, content.data(), content.size()) != ssize_t(content.size()))
        std::abort();
    ::close(fd);
}

std::string make_content(std::size_t width)
{
    static const std::size_t anchors[] = {0, 1, 4096, 32768, 8192, 4096 * 9, 65536, 100000, 2, 3, 4};
    std::size_t n = 0;
    switch (choose(4, "size kind"))
    {
    case 0: n = sim::small(300, "size"); break;
    case 1: n = sim::small(5000, "size"); break;
    default: {
        auto a = anchors[choose(sizeof(anchors) / sizeof(*anchors), "anchor")];
        if (choose(40, "large") == 39)
            a = std::size_t(65536) << (1 + choose(4, "large shift"));
        auto d = choose(9, "delta");
        n      = d <= 4 ? a + d : (a > d - 4 ? a - (d - 4) : a);
        break;
    }
    }
    auto          k = choose(6, "content kind");
    std::uint64_t x = choose(1u << 16, "content seed") * 2654435761u + 1;
    std::string   s(n, 'a');
    for (auto& c : s)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        auto r = unsigned(x >> 33);
        switch (k)
        {
        case 0: c = char('a' + r % 26); break;
        case 1: c = char(r); break;
        case 2: c = r % 7 == 0 ? '\n' : r % 11 == 0 ? '\r' : char('0' + r % 10); break;
        case 3: c = r % 3 == 0 ? '\0' : r % 5 == 0 ? char(0x1A) : char(r); break;
        case 4: c = r % 4 == 0 ? char(0xFF) : r % 5 == 0 ? char(0xFE) : char(r); break;
        default: c = char(r % 3); break;
        }
    }
    static const std::string_view boms[]
        = {"", std::string_view("\xEF\xBB\xBF", 3), std::string_view("\xFF\xFE", 2), std::string_view("\xFE\xFF", 2),
           std::string_view("\xFF\xFE\0\0", 4), std::string_view("\0\0\xFE\xFF", 4), std::string_view("\0\0\xFE\x01", 4),
           std::string_view("\xEF\xBB", 2), std::string_view("\0\0\xFE\0", 4)};
    auto bom = boms[choose(sizeof(boms) / sizeof(*boms), "bom")];
    if (!bom.empty())
    {
        // Overwrite, or prefix.
        if (choose(2, "bom place"))
            s = std::string(bom) + s;
        else
            s.replace(0, std::min(bom.size(), s.size()), bom.substr(0, std::min(bom.size(), s.size())));
    }
    if (width == 1 || choose(8, "torn unit") != 7)
        s.resize(s.size() / width * width);
    return s;
}

struct Setup
{
    std::string content, other;
    bool        exists = true, dir = false, notdir = false, mutate = false;
    unsigned    pct = 0;
};

const char* name(lexy::file_error e)
{
    switch (e)
    {
    case lexy::file_error::os_error: return "os_error";
    case lexy::file_error::file_not_found: return "file_not_found";
    case lexy::file_error::permission_denied: return "permission_denied";
    default: return "?";
    }
}

template <typename Encoding, lexy::encoding_endianness E, typename Res>
void attempt(const Setup& s, Res* res)
{
    auto path = scratch_path();
    if (!s.exists)
        path += ".missing";
    else if (s.dir)
        path = path.substr(0, path.rfind('/'));
    else if (s.notdir)
        path += "/x";

    sim::heap_reset();
    unsigned long alloc_fail = 0;
    if (s.pct && sim::chance(25, "fail an allocation"))
        alloc_fail = 1 + choose(3, "which allocation");
    sim::resource* r = nullptr;
    if constexpr (!std::is_void_v<Res>)
    {
        r          = res;
        r->count   = 0;
        r->fail_at = alloc_fail && choose(2, "where") ? alloc_fail : 0;
        r->failed  = 0;
        if (!r->fail_at)
            sim::heap.fail_at = alloc_fail;
    }
    else
        sim::heap.fail_at = alloc_fail;

    sim::fs_begin(path, s.pct);
    sim::fs.mutate_armed = s.mutate;
    sim::fs.mutate_to    = s.other;
    bool threw           = false;
    auto held            = [&](const char* when) {
        if (sim::fs.files)
            sim::violate("stream-leak", "%d stream(s) still open %s", sim::fs.files, when);
        if (sim::fs.fds)
            sim::violate("fd-leak", "%d file descriptor(s) still open %s", sim::fs.fds, when);
        if (sim::fs.maps)
            sim::violate("mapping-leak", "%d mapping(s) still held %s", sim::fs.maps, when);
    };
    auto alloc_failed = [&] { return sim::heap.failed + (r ? r->failed : 0); };
    {
        auto call = [&] {
            sim::tracked t;
            if constexpr (std::is_void_v<Res>)
                return lexy::read_file<Encoding, E>(path.c_str());
            else
                return lexy::read_file<Encoding, E, Res>(path.c_str(), res);
        };
        using result_t = decltype(call());
        alignas(result_t) unsigned char storage[sizeof(result_t)];
        result_t*                       result = nullptr;
        try
        {
            result = ::new (static_cast<void*>(storage)) result_t(call());
        }
        catch (std::bad_alloc&)
        {
            threw = true;
        }
        sim::fs.on = false;

        if (threw)
        {
            sim::ev("threw");
            sim::probe("threw");
            if (!alloc_failed())
                sim::violate("spurious-exception", "exception without an allocation failure");
            held("after an exception");
            if (sim::heap.live)
                sim::violate("heap-leak", "%llu heap block(s) left after an exception",
                             (unsigned long long)sim::heap.live);
            if (r)
                r->expect_empty("after an exception");
        }
        else
        {
            auto& res_ = *result;
            held("after the call");
            if (res_)
            {
                auto& buf = res_.buffer();
                auto  got_ok = [&](const std::string& c) { return same_units<Encoding>(buf, c, E); };
                sim::ev("success %zu", buf.size());
                sim::probe(s.content.size() > 32768  ? "success:large"
                           : s.content.size() > 4096 ? "success:medium"
                                                     : "success:small");
                if (sim::fs.soft || sim::fs.hard)
                    sim::probe("success-despite-fault");
                if (s.content.size() % sizeof(typename Encoding::char_type) != 0 && !sim::fs.mutated)
                    sim::violate("torn-unit", "success for a file that ends inside a code unit");
                if (!s.exists || s.dir || s.notdir)
                    sim::violate("phantom-success", "success for a path that is no file");
                if (alloc_failed())
                    sim::probe("success-despite-alloc-failure");
                bool ok = got_ok(s.content) || (sim::fs.mutated && got_ok(s.other));
                if (!ok)
                    sim::violate("content-mismatch",
                                 "success, but %zu unit(s) that are not the file's content (file: %zu "
                                 "bytes, faults: %u hard, %u short)",
                                 buf.size(), s.content.size(), sim::fs.hard, sim::fs.soft);
                // Readable up to the end.
                auto          rd   = buf.reader();
                std::size_t   seen = 0;
                while (rd.peek() != decltype(rd)::encoding::eof() && seen <= buf.size())
                {
                    rd.bump();
                    ++seen;
                }
                if (seen > buf.size())
                    sim::violate("no-end", "the buffer has no end");
                if (seen != buf.size()
                    && decltype(rd)::encoding::to_int_type(buf.data()[seen])
                           != decltype(rd)::encoding::eof())
                    sim::violate("early-end", "the buffer ends early");
                if (r && buf.data() && !r->owns(buf.data()))
                    sim::violate("wrong-resource", "the buffer's memory is not from the caller's resource");
                if (r ? sim::heap.live != 0 : sim::heap.live > 1)
                    sim::violate("heap-leak", "%llu heap block(s) left after success",
                                 (unsigned long long)sim::heap.live);
            }
            else
            {
                auto e = res_.error();
                sim::ev("error %s", name(e));
                sim::probe(name(e));
                bool injected = sim::fs.hard || sim::fs.soft || sim::fs.mutated || alloc_failed();
                auto expect   = lexy::file_error::os_error;
                if (sim::fs.open_failed)
                {
                    int oe = sim::fs.open_errno;
                    if (oe == ENOENT || oe == ENOTDIR || oe == ELOOP)
                        expect = lexy::file_error::file_not_found;
                    else if (oe == EACCES || oe == EPERM)
                        expect = lexy::file_error::permission_denied;
                }
                else if (!injected && s.exists && !s.dir && !s.notdir
                         && s.content.size() % sizeof(typename Encoding::char_type) == 0)
                    sim::violate("spurious-error", "error %s although nothing failed (file of %zu bytes)", name(e),
                                 s.content.size());
                if (e != expect)
                    sim::violate("wrong-category", "error %s instead of %s (errno %d)", name(e), name(expect),
                                 sim::fs.open_errno);
                if (sim::heap.live)
                    sim::violate("heap-leak", "%llu heap block(s) left after an error",
                                 (unsigned long long)sim::heap.live);
                if (r)
                    r->expect_empty("after an error");
            }
            res_.~result_t();
            if (sim::heap.live)
                sim::violate("heap-leak", "%llu heap block(s) left after the result is gone",
                             (unsigned long long)sim::heap.live);
            if (r)
                r->expect_empty("after the result is gone");
        }
    }
    sim::fs_end();
    // The state reached: outcome class.
    sim::state(sim::hash(std::to_string(s.content.size() / 512) + "/" + std::to_string(sizeof(typename Encoding::char_type)) + "/"
                         + std::to_string(int(E)) + (threw ? "t" : "") + std::to_string(sim::fs.hard * 16 + sim::fs.soft)
                         + "/" + std::to_string(sim::fs.open_errno) + "/" + std::to_string(alloc_fail)));
}

template <typename Encoding, lexy::encoding_endianness E>
void with_resource(const Setup& s, sim::resource& r)
{
    if (choose(2, "resource"))
        attempt<Encoding, E, sim::resource>(s, &r);
    else
        attempt<Encoding, E, void>(s, nullptr);
}
} // namespace

void sim::run_once()
{
    sim::resource r;
    auto          enc = choose(11, "encoding");
    std::size_t   w   = enc < 5 ? 1 : enc < 8 ? 2 : 4;
    auto          n   = 1 + choose(3, "calls");
    for (std::uint64_t i = 0; i <= n; ++i)
    {
        Setup s;
        s.content = make_content(w);
        auto k    = choose(12, "path kind");
        if (i == n)
            k = 0; // the last call: faults have stopped, it has to succeed
        else
        {
            s.pct = std::uint32_t(choose(3, "fault level")) * 20;
            if (k == 11)
                s.exists = false;
            else if (k == 10)
                s.dir = true;
            else if (k == 9)
                s.notdir = true;
            else if (k == 8 && s.content.size() <= 32768 && s.content.size() > 0
                     && s.content.size() % w == 0)
            {
                // Somebody appends to or truncates the file while it is read.
                s.mutate = true;
                s.other  = choose(2, "grow or shrink")
                               ? s.content + std::string(w * (1 + choose(40, "growth")), 'z')
                               : s.content.substr(0, choose(s.content.size(), "shrink") / w * w);
            }
        }
        sim::ev("call %llu: %zu bytes, encoding %llu, faults %u%%, kind %llu", (unsigned long long)i, s.content.size(),
                (unsigned long long)enc, s.pct, (unsigned long long)k);
        write_file(s.content);
        using E = lexy::encoding_endianness;
        switch (enc)
        {
        case 0: with_resource<lexy::default_encoding, E::bom>(s, r); break;
        case 1: with_resource<lexy::utf8_encoding, E::bom>(s, r); break;
        case 2: with_resource<lexy::utf8_char_encoding, E::bom>(s, r); break;
        case 3: with_resource<lexy::utf8_encoding, E::little>(s, r); break;
        case 4: with_resource<lexy::byte_encoding, E::big>(s, r); break;
        case 5: with_resource<lexy::utf16_encoding, E::bom>(s, r); break;
        case 6: with_resource<lexy::utf16_encoding, E::little>(s, r); break;
        case 7: with_resource<lexy::utf16_encoding, E::big>(s, r); break;
        case 8: with_resource<lexy::utf32_encoding, E::bom>(s, r); break;
        case 9: with_resource<lexy::utf32_encoding, E::little>(s, r); break;
        default: with_resource<lexy::utf32_encoding, E::big>(s, r); break;
        }
    }
    ::unlink(scratch_path().c_str());
}
