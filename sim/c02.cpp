// C02: reading stdin is exact for every delivery schedule.
#include "ledger.hpp"
#include "model.hpp"
#include "simio.hpp"
#include <cerrno>
#include <lexy/input/file.hpp>
#include <lexy_ext/compiler_explorer.hpp>

const char* const   sim::property_id = "C02";
const std::uint64_t sim::step_limit  = 100000000;

namespace
{
using sim::choose;

std::string make_content()
{
    std::size_t n = 0;
    switch (choose(4, "size kind"))
    {
    case 0: n = sim::small(40, "size"); break;
    case 1: n = sim::small(3000, "size"); break;
    default: {
        // Around the sizes at which a doubling buffer is full.
        auto a = std::size_t(125) << choose(8, "anchor shift");
        if (choose(3, "pow2") == 0)
            a = std::size_t(128) << choose(8, "anchor shift");
        if (choose(25, "large") == 24)
            a = (choose(2, "large anchor") ? std::size_t(125) : 128) << (8 + choose(4, "large shift"));
        auto d = choose(9, "delta");
        n      = d <= 4 ? a + d : a - (d - 4);
        break;
    }
    }
    auto          k = choose(4, "content kind");
    std::uint64_t x = choose(1u << 16, "content seed") * 2654435761u + 1;
    std::string   s(n, 'a');
    std::size_t   idx = 0;
    for (auto& c : s)
    {
        x      = x * 6364136223846793005ull + 1442695040888963407ull;
        auto r = unsigned(x >> 33);
        switch (k)
        {
        case 0: c = char('a' + idx % 26); break;
        case 1: c = char(r); break;
        case 2: c = r % 9 == 0 ? '\n' : char('0' + r % 10); break;
        default: c = r % 3 == 0 ? '\0' : r % 5 == 0 ? char(0x1A) : r % 7 == 0 ? char(0xFF) : char(r); break;
        }
        ++idx;
    }
    static const std::string_view boms[]
        = {"", "", std::string_view("\xEF\xBB\xBF", 3), std::string_view("\xFF\xFE", 2), std::string_view("\xFE\xFF", 2),
           std::string_view("\xFF\xFE\0\0", 4), std::string_view("\0\0\xFE\xFF", 4)};
    s.insert(0, boms[choose(7, "bom")]);
    return s;
}

template <typename Call, typename Check>
void guarded(sim::resource& r, Call call, Check check)
{
    using result_t = decltype(call());
    alignas(result_t) unsigned char storage[sizeof(result_t)];
    result_t*                       res = nullptr;
    try
    {
        sim::tracked t;
        res = ::new (static_cast<void*>(storage)) result_t(call());
    }
    catch (std::bad_alloc&)
    {
        sim::ev("threw");
        sim::probe("threw");
        if (!sim::heap.failed && !r.failed)
            sim::violate("spurious-exception", "exception without an allocation failure");
        if (sim::heap.live)
            sim::violate("heap-leak", "%llu heap block(s) left after an exception", (unsigned long long)sim::heap.live);
        r.expect_empty("after an exception");
        return;
    }
    check(*res);
    res->~result_t();
    if (sim::heap.live)
        sim::violate("heap-leak", "%llu heap block(s) left", (unsigned long long)sim::heap.live);
    r.expect_empty("at the end");
}

template <typename Encoding, lexy::encoding_endianness E>
void read_std(sim::resource& r, const std::string& want, bool may_fail)
{
    auto check = [&](auto& res) {
        bool torn = want.size() % sizeof(typename Encoding::char_type) != 0;
        if (res)
        {
            sim::ev("success %zu", res.buffer().size());
            sim::probe("success");
            if (sim::in.errored)
                sim::violate("error-swallowed", "success although a read failed after %zu of %zu bytes", sim::in.pos,
                             sim::in.data.size());
            if (torn)
                sim::violate("torn-unit", "success for a stream that ends inside a code unit");
            if (!same_units<Encoding>(res.buffer(), want, E))
                sim::violate("content-mismatch", "%zu unit(s) returned that are not the %zu bytes delivered",
                             res.buffer().size(), want.size());
        }
        else
        {
            sim::ev("error %d", int(res.error()));
            sim::probe("error");
            if (!may_fail && !sim::in.errored && !torn)
                sim::violate("spurious-error", "error although every read succeeded");
            if (res.error() != lexy::file_error::os_error)
                sim::violate("wrong-category", "read error reported as category %d", int(res.error()));
        }
    };
    if (choose(2, "resource"))
        guarded(r, [&] { return lexy::read_stdin<Encoding, E>(&r); }, check);
    else
        guarded(r, [&] { return lexy::read_stdin<Encoding, E>(); }, check);
}
} // namespace

void sim::run_once()
{
    sim::resource r;
    sim::in           = sim::in_t();
    sim::in.data      = make_content();
    auto          how = choose(9, "reader");
    auto          n   = sim::in.data.size();
    static const std::size_t chunks[] = {100000, 1, 7, 512, 1000, 4096, 8192};
    sim::in.max_chunk = chunks[choose(7, "max chunk")];
    if (sim::in.max_chunk == 1 && n > 3000)
        sim::in.max_chunk = 33;
    sim::in.line_mode = choose(2, "line mode");
    bool err          = how != 8 && sim::chance(25, "read error");
    if (err)
    {
        sim::in.error_at = choose(2, "error near end") ? n - std::min<std::size_t>(n, choose(3, "from end"))
                                                       : std::size_t(choose(n + 1, "error at"));
        sim::in.error_no = choose(2, "errno") ? EINTR : EIO;
    }
    if (sim::chance(20, "terminal"))
        sim::in.after_eof = "AFTER-EOF";
    static const std::size_t bufs[] = {4096, 0, 1, 16, 1000, 65536};
    sim::heap_reset();
    sim::stdin_begin(bufs[choose(6, "stdio buffer")]);
    bool alloc_fail = sim::chance(20, "fail an allocation");
    if (alloc_fail)
    {
        auto k = 1 + choose(6, "which allocation");
        if (choose(2, "where"))
            r.fail_at = k;
        else
            sim::heap.fail_at = k;
    }
    sim::ev("%zu bytes, chunk %zu, reader %llu, error at %zd", n, sim::in.max_chunk, (unsigned long long)how,
            ssize_t(sim::in.error_at));

    using E       = lexy::encoding_endianness;
    auto one_call = [&](const std::string& want) {
        switch (how)
        {
        case 0: read_std<lexy::default_encoding, E::bom>(r, want, false); break;
        case 1: read_std<lexy::utf8_encoding, E::bom>(r, want, false); break;
        case 2: read_std<lexy::byte_encoding, E::little>(r, want, false); break;
        case 3: read_std<lexy::utf16_encoding, E::bom>(r, want, false); break;
        case 4: read_std<lexy::utf16_encoding, E::big>(r, want, false); break;
        case 5: read_std<lexy::utf32_encoding, E::bom>(r, want, false); break;
        case 6: read_std<lexy::utf32_encoding, E::little>(r, want, false); break;
        case 7: read_std<lexy::ascii_encoding, E::big>(r, want, false); break;
        default:
            guarded(r, [] { return lexy_ext::compiler_explorer_input(); },
                    [&](auto& buf) {
                        sim::ev("ce %zu", buf.size());
                        sim::probe("compiler-explorer");
                        if (!same_units<lexy::utf8_encoding>(buf, want, E::little))
                            sim::violate("content-mismatch", "%zu unit(s) returned, %zu bytes delivered", buf.size(),
                                         want.size());
                    });
            break;
        }
    };
    one_call(sim::in.data);
    bool clean = !sim::in.errored && !sim::heap.failed && !r.failed;
    if (clean && choose(2, "read again"))
    {
        sim::probe("second-read");
        one_call("");
    }
    sim::state(sim::hash(std::to_string(n / 64) + "/" + std::to_string(sim::in.reads) + "/" + std::to_string(how)
                         + (err ? "e" : "") + (clean ? "c" : "")));
    sim::stdin_end();
}
