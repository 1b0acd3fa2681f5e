// C05: buffers own their memory exactly once under any history and allocation failure.
#include "ledger.hpp"
#include "sim.hpp"
#include <array>
#include <lexy/action/match.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <memory>
#include <optional>

const char* const   sim::property_id = "C05";
const std::uint64_t sim::step_limit  = 100000000;

namespace
{
using sim::choose;

struct any_ascii
{
    static constexpr auto rule = lexy::dsl::while_(lexy::dsl::ascii::character) + lexy::dsl::eof;
};
struct until_nl
{
    static constexpr auto rule = lexy::dsl::until(LEXY_LIT("\n")).or_eof() + lexy::dsl::any;
};

template <typename Encoding>
std::basic_string<typename Encoding::char_type> make_text()
{
    using char_type = typename Encoding::char_type;
    std::size_t n = 0;
    switch (choose(3, "size kind"))
    {
    case 0: n = sim::small(12, "size"); break;
    case 1: n = choose(40, "size"); break;
    default: n = sim::small(2000, "size"); break;
    }
    if (choose(1500, "huge") == 1499)
        n = 65528 + choose(16, "huge delta");
    auto                         k = choose(3, "text kind");
    std::uint64_t                x = choose(1 << 16, "text seed") * 2654435761u + 11;
    std::basic_string<char_type> s;
    for (std::size_t i = 0; i < n; ++i)
    {
        x      = x * 6364136223846793005ull + 1442695040888963407ull;
        auto r = std::uint32_t(x >> 33);
        std::uint32_t v = k == 0 ? 'a' + i % 26 : k == 1 ? r % 128 : r;
        if (k == 2 && sizeof(char_type) == 4)
            v %= 0x110000;
        if (k == 1 && std::is_same_v<Encoding, lexy::ascii_encoding>)
            v %= 128;
        auto c = char_type(v);
        if (Encoding::to_int_type(c) == Encoding::eof())
            c = char_type('E');
        s += c;
    }
    return s;
}

// The two kinds of memory resource behind one interface.
template <typename Res>
struct World;
template <>
struct World<sim::resource>
{
    sim::resource r0{0}, r1{1}, r2{r0}, r3{2};
    sim::resource* all[4] = {&r0, &r1, &r2, &r3};

    sim::resource* pick() { return all[choose(4, "resource")]; }
    std::uint64_t  failures()
    {
        std::uint64_t n = 0;
        for (auto r : all)
            n += r->failed;
        return n;
    }
    void arm(std::uint64_t in)
    {
        for (auto r : all)
        {
            r->count          = 0;
            r->fail_at        = in;
            r->fail_all_after = in != 0;
        }
    }
    bool owned(sim::resource* r, const void* p) { return r->owns(p); }
    void expect_empty()
    {
        for (auto r : all)
            r->expect_empty("at the end of the history");
    }
    bool equal(sim::resource* a, sim::resource* b) { return *a == *b; }
};
template <>
struct World<void>
{
    void*         pick() { return nullptr; }
    std::uint64_t failures() { return sim::heap.failed; }
    void          arm(std::uint64_t in)
    {
        sim::heap.fail_at        = in ? sim::heap.count + in : 0;
        sim::heap.fail_all_after = in != 0;
    }
    bool owned(void*, const void*) { return true; }
    void expect_empty()
    {
        if (sim::heap.live)
            sim::violate("heap-leak", "%llu heap block(s) left at the end of the history", (unsigned long long)sim::heap.live);
    }
    bool equal(void*, void*) { return true; }
};

template <typename Encoding, typename Res>
struct History
{
    using buffer    = lexy::buffer<Encoding, Res>;
    using char_type = typename Encoding::char_type;
    using string    = std::basic_string<char_type>;

    struct Slot
    {
        alignas(buffer) unsigned char mem[sizeof(buffer)];
        bool                          live = false;
        string                        want;
        Res*                          res = nullptr;
        buffer&                       get() { return *reinterpret_cast<buffer*>(mem); }
    };
    struct Block
    {
        const char_type* p;
        std::size_t      n;
        Res*             res;
        string           want;
    };
    static constexpr std::size_t slots = 5;
    std::array<Slot, slots>      s;
    std::vector<Block>           loose; // released, not yet adopted
    World<Res>                   w;

    void verify(std::size_t i, const char* when)
    {
        auto& sl = s[i];
        if (!sl.live)
            return;
        auto& b = sl.get();
        if (b.size() != sl.want.size())
            sim::violate("wrong-size", "%s: buffer %zu has %zu characters instead of %zu", when, i, b.size(), sl.want.size());
        if (b.size() && std::char_traits<char_type>::compare(b.data(), sl.want.data(), b.size()) != 0)
            sim::violate("wrong-content", "%s: buffer %zu does not hold the characters it was given", when, i);
        if (b.data() && !w.owned(sl.res, b.data()))
            sim::violate("resource-switched", "%s: the memory of buffer %zu is not from its resource", when, i);
        for (std::size_t j = 0; j < i; ++j)
            if (s[j].live && b.data() && s[j].get().data() == b.data())
                sim::violate("shared-block", "%s: buffers %zu and %zu own the same block", when, i, j);
    }
    void verify_all(const char* when)
    {
        for (std::size_t i = 0; i < slots; ++i)
            verify(i, when);
    }
    void read_to_end(std::size_t i)
    {
        auto& sl = s[i];
        auto  rd = sl.get().reader();
        auto  m  = rd.current();
        for (std::size_t k = 0; k < sl.want.size(); ++k)
        {
            auto c = rd.peek();
            if (c == Encoding::eof() || c != Encoding::to_int_type(sl.want[k]))
                sim::violate("unreadable", "reading buffer %zu gives another character at %zu of %zu", i, k, sl.want.size());
            rd.bump();
        }
        if (rd.peek() != Encoding::eof())
            sim::violate("unreadable", "reading buffer %zu does not end after %zu characters", i, sl.want.size());
        rd.reset(m);
        if (!sl.want.empty() && rd.peek() != Encoding::to_int_type(sl.want[0]))
            sim::violate("unreadable", "reset reader of buffer %zu sees another character", i);
        // The block-wise readers look past the end: the padding has to be there.
        if constexpr (!std::is_same_v<Encoding, lexy::byte_encoding>)
        {
            bool ascii = true;
            for (auto c : sl.want)
                ascii = ascii && Encoding::to_int_type(c) < 128 && Encoding::to_int_type(c) >= 0;
            bool m1 = bool(lexy::match<any_ascii>(sl.get()));
            if (m1 != ascii)
                sim::violate("unreadable", "an all-ASCII match over buffer %zu says %d instead of %d", i, m1, ascii);
        }
        if (!lexy::match<until_nl>(sl.get()))
            sim::violate("unreadable", "until over buffer %zu failed", i);
        sim::probe("read-to-end");
    }
    std::size_t any_slot(const char* l) { return std::size_t(choose(slots, l)); }

    // Runs op; if it throws, everything must be as before.
    template <typename Op>
    bool attempt(Op op)
    {
        bool fail   = sim::chance(12, "fail an allocation");
        auto before = w.failures();
        w.arm(fail ? 1 + choose(2, "which allocation") : 0);
        bool ok = true;
        try
        {
            sim::tracked t;
            op();
        }
        catch (std::bad_alloc&)
        {
            ok = false;
            if (w.failures() == before)
                sim::violate("spurious-exception", "an operation threw without an allocation failure");
            sim::probe("operation-threw");
        }
        catch (...)
        {
            sim::violate("wrong-exception", "another exception arrived than the one thrown");
        }
        w.arm(0);
        if (ok && w.failures() != before)
            sim::violate("failure-swallowed", "an allocation failed but the operation did not report it");
        return ok;
    }
    template <typename Make>
    void construct(std::size_t i, Res* res, const string& want, Make make)
    {
        auto& sl = s[i];
        if (attempt([&] { ::new (static_cast<void*>(sl.mem)) buffer(make()); }))
        {
            sl.live = true;
            sl.want = want;
            sl.res  = res;
        }
    }
    void destroy(std::size_t i)
    {
        sim::tracked t;
        s[i].get().~buffer();
        s[i].live = false;
        std::memset(s[i].mem, 0xCC, sizeof(s[i].mem));
    }
    void resync(std::size_t i)
    {
        // A moved-from buffer may hold anything it can own; it must still be consistent.
        auto& b = s[i].get();
        if (!b.data() && b.size())
            sim::violate("moved-from", "a moved-from buffer claims %zu characters but has none", b.size());
        s[i].want.assign(b.data() ? b.data() : s[i].want.data(), b.size());
    }

    void step()
    {
        auto i = any_slot("slot");
        auto op = choose(16, "op");
        sim::ev("op %llu on %zu", (unsigned long long)op, i);
        if (op <= 6)
        {
            if (s[i].live)
                destroy(i);
            auto res  = w.pick();
            auto text = make_text<Encoding>();
            // Exact-size heap copy: reading past it is seen.
            std::unique_ptr<char_type[]> src(new char_type[text.size()]);
            std::copy(text.begin(), text.end(), src.get());
            auto p = src.get();
            auto n = text.size();
            switch (op)
            {
            case 0: construct(i, res, text, [&] { return buffer(p, n, res); }); break;
            case 1: construct(i, res, text, [&] { return buffer(p, p + n, res); }); break;
            case 2:
                construct(i, res, text, [&] {
                    typename buffer::builder b(n, res);
                    if (b.size() != n)
                        sim::violate("builder-size", "builder of %zu has %zu", n, b.size());
                    std::copy(p, p + n, b.data());
                    return std::move(b).finish();
                });
                break;
            case 3: // abandoned builder
                attempt([&] {
                    typename buffer::builder b(n, res);
                    std::copy(p, p + n / 2, b.data());
                });
                break;
            case 4: {
                construct(i, res, text, [&] { return buffer(text, res); });
                break;
            }
            case 5: {
                string empty;
                construct(i, res, empty, [&] { return buffer(res); });
                break;
            }
            default:
                if constexpr (std::is_same_v<Encoding, lexy::utf16_encoding> || std::is_same_v<Encoding, lexy::utf32_encoding>)
                {
                    bool        big = choose(2, "big endian");
                    std::string raw;
                    for (auto c : text)
                        for (std::size_t k = 0; k < sizeof(char_type); ++k)
                            raw += char(std::uint32_t(c) >> (8 * (big ? sizeof(char_type) - 1 - k : k)));
                    std::unique_ptr<char[]> rp(new char[raw.size()]);
                    std::copy(raw.begin(), raw.end(), rp.get());
                    construct(i, res, text, [&] {
                        if constexpr (std::is_void_v<Res>)
                            return big ? lexy::make_buffer_from_raw<Encoding, lexy::encoding_endianness::big>(rp.get(), raw.size())
                                       : lexy::make_buffer_from_raw<Encoding, lexy::encoding_endianness::little>(rp.get(), raw.size());
                        else
                            return big ? lexy::make_buffer_from_raw<Encoding, lexy::encoding_endianness::big>(rp.get(), raw.size(), res)
                                       : lexy::make_buffer_from_raw<Encoding, lexy::encoding_endianness::little>(rp.get(), raw.size(), res);
                    });
                }
                else if constexpr (std::is_same_v<Encoding, lexy::utf8_encoding>)
                {
                    auto q = reinterpret_cast<const char*>(p);
                    construct(i, res, text, [&] { return choose(2, "secondary") ? buffer(q, n, res) : buffer(q, q + n, res); });
                }
                break;
            }
        }
        else if (op == 7) // copy construct
        {
            auto j = any_slot("from");
            if (i != j && s[j].live)
            {
                if (s[i].live)
                    destroy(i);
                if (choose(2, "with resource"))
                {
                    auto res = w.pick();
                    construct(i, res, s[j].want, [&] { return buffer(s[j].get(), res); });
                }
                else
                    construct(i, s[j].res, s[j].want, [&] { return buffer(s[j].get()); });
            }
        }
        else if (op == 8) // move construct
        {
            auto j = any_slot("from");
            if (i != j && s[j].live)
            {
                if (s[i].live)
                    destroy(i);
                construct(i, s[j].res, s[j].want, [&] { return buffer(std::move(s[j].get())); });
                resync(j);
            }
        }
        else if (op <= 10) // copy assign
        {
            auto j = any_slot("from");
            if (s[i].live && s[j].live)
            {
                auto want = s[j].want;
                if (attempt([&] { s[i].get() = s[j].get(); }))
                    s[i].want = want;
                sim::probe(i == j ? "self-copy" : w.equal(s[i].res, s[j].res) ? "copy-assign" : "copy-assign-foreign");
            }
        }
        else if (op <= 12) // move assign
        {
            auto j = any_slot("from");
            if (s[i].live && s[j].live)
            {
                auto want = s[j].want;
                if (attempt([&] {
                        auto& from = s[j].get();
                        s[i].get() = std::move(from);
                    }))
                {
                    if (i != j)
                    {
                        s[i].want = want;
                        resync(j);
                    }
                    else
                        resync(i);
                    sim::probe(w.equal(s[i].res, s[j].res) ? "move-assign" : "move-assign-foreign");
                }
            }
        }
        else if (op == 13) // release
        {
            if (s[i].live && s[i].get().data())
            {
                auto        n = s[i].get().size();
                sim::tracked t;
                auto        p = std::move(s[i].get()).release();
                sim::heap.track = false;
                loose.push_back({p, n, s[i].res, s[i].want});
                s[i].want.clear();
                if (s[i].get().size() != 0 || s[i].get().data() != nullptr)
                    sim::violate("released", "a released buffer still holds something");
                sim::probe("release");
            }
        }
        else if (op == 14) // adopt
        {
            if (!loose.empty())
            {
                auto b = sim::pick(loose, "block");
                for (std::size_t k = 0; k < loose.size(); ++k)
                    if (loose[k].p == b.p)
                    {
                        loose.erase(loose.begin() + long(k));
                        break;
                    }
                if (s[i].live)
                    destroy(i);
                construct(i, b.res, b.want, [&] { return buffer::adopt(b.p, b.n, b.res); });
                sim::probe("adopt");
            }
        }
        else if (s[i].live)
        {
            if (choose(2, "destroy"))
                destroy(i);
            else
                read_to_end(i);
        }
        verify_all("after an operation");
    }

    void run()
    {
        sim::heap_reset();
        auto n = 2 + sim::small(40, "operations");
        for (std::size_t k = 0; k < n; ++k)
            step();
        for (std::size_t i = 0; i < slots; ++i)
            if (s[i].live)
                read_to_end(i);
        verify_all("at the end");
        std::uint64_t h = n / 4;
        for (auto& sl : s)
            h = h * 131 + (sl.live ? 1 + sl.want.size() / 4 : 0);
        sim::state(h * 7 + sizeof(char_type) + loose.size() * 1000003);
        for (auto& b : loose) // what was released belongs to us: adopt and drop
        {
            sim::tracked t;
            auto         x = buffer::adopt(b.p, b.n, b.res);
            (void)x;
        }
        for (std::size_t i = 0; i < slots; ++i)
            if (s[i].live)
                destroy(i);
        w.expect_empty();
    }
};

template <typename Encoding>
void with_resource()
{
    if (choose(4, "default resource") == 3)
    {
        auto h = std::make_unique<History<Encoding, void>>();
        h->run();
    }
    else
    {
        auto h = std::make_unique<History<Encoding, sim::resource>>();
        h->run();
    }
}
} // namespace

void sim::run_once()
{
    switch (choose(6, "encoding"))
    {
    case 0: with_resource<lexy::utf8_encoding>(); break;
    case 1: with_resource<lexy::default_encoding>(); break;
    case 2: with_resource<lexy::utf16_encoding>(); break;
    case 3: with_resource<lexy::utf32_encoding>(); break;
    case 4: with_resource<lexy::ascii_encoding>(); break;
    default: with_resource<lexy::byte_encoding>(); break;
    }
}
