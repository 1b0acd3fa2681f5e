// C03: the interactive shell delivers every typed character exactly once, in order.
#include "simio.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <lexy/input_location.hpp>
#include <lexy_ext/shell.hpp>
#include <memory>
#include <new>

const char* const   sim::property_id = "C03";
const std::uint64_t sim::step_limit  = 100000000;

namespace
{
using sim::choose;

// What happened on the prompt's side, seen by the checker.
struct Log
{
    unsigned primary = 0, continuation = 0, eof = 0, read_line = 0, reads = 0, done = 0;
};

//=== the simulated user ===//
template <typename CharT>
struct User
{
    using string = std::basic_string<CharT>;
    std::vector<string> lines; // each ends in a newline, except possibly the last
    std::size_t         line = 0, off = 0;
    bool                closed        = false; // what is_open() reports
    bool                close_eagerly = false; // is_open() turns false right after the last character
    std::size_t         error_in      = std::size_t(-1); // line whose reading fails ...
    std::size_t         error_after   = 0;               // ... after that many characters
    string              delivered;                       // since the current input was started
    string              written;
    unsigned            messages = 0, message_done = 0, last_kind = 0;
    Log                 log;
};

template <typename Encoding>
struct SimPrompt
{
    using encoding  = Encoding;
    using char_type = typename Encoding::char_type;
    User<char_type>* u;

    void primary_prompt() { ++u->log.primary; sim::ev("primary"); }
    void continuation_prompt() { ++u->log.continuation; sim::ev("continuation"); }
    void eof_prompt() { ++u->log.eof; sim::ev("eof prompt"); }
    bool is_open() const { return !u->closed; }

    struct read_line_callback
    {
        User<char_type>* u;
        std::size_t      operator()(char_type* buffer, std::size_t size)
        {
            ++u->log.reads;
            sim::untracked un;
            if (size == 0)
                sim::violate("empty-read", "the shell asked for zero characters");
            if (u->closed || u->line == u->lines.size())
            {
                u->closed = true;
                sim::ev("read -> closed");
                return 0;
            }
            auto& l = u->lines[u->line];
            auto  n = std::min(size, l.size() - u->off);
            bool  fail = u->line == u->error_in && u->off + n > u->error_after;
            if (fail)
            {
                n         = u->error_after > u->off ? u->error_after - u->off : 0;
                u->closed = true;
                sim::fault("prompt:read-error");
            }
            std::copy(l.begin() + long(u->off), l.begin() + long(u->off + n), buffer);
            u->delivered.append(l, u->off, n);
            u->off += n;
            if (!fail && u->off == l.size())
            {
                bool nl = !l.empty() && l.back() == CharT_nl();
                u->off  = 0;
                ++u->line;
                if (!nl)
                {
                    sim::fault("prompt:unterminated-line");
                    if (n < size)
                        u->closed = true; // short read without newline: the input has ended
                }
                else if (u->close_eagerly && u->line == u->lines.size())
                    u->closed = true;
            }
            sim::ev("read %zu -> %zu", size, n);
            return n;
        }
        static char_type CharT_nl() { return char_type('\n'); }
        void             done() && { ++u->log.done; }
    };
    auto read_line()
    {
        ++u->log.read_line;
        return read_line_callback{u};
    }

    struct write_message_callback
    {
        User<char_type>* u;
        void             operator()(const char_type* buffer, std::size_t size)
        {
            sim::untracked un;
            u->written.append(buffer, size);
        }
        void done() && { ++u->message_done; }
    };
    auto write_message(unsigned kind = 0)
    {
        ++u->messages;
        u->last_kind = kind;
        return write_message_callback{u};
    }
};

template <typename CharT>
std::basic_string<CharT> make_line(bool terminated)
{
    std::size_t n = 0;
    switch (choose(5, "line length kind"))
    {
    case 0: n = sim::small(6, "line"); break;
    case 1: n = sim::small(200, "line"); break;
    case 2: {
        auto a = (std::size_t(1024) - 24) / sizeof(CharT);
        a <<= choose(3, "double");
        n = a + choose(7, "delta");
        n -= std::min<std::size_t>(n, 4);
        break;
    }
    case 3: {
        auto a = (std::size_t(1024) - 24) / sizeof(CharT) - 128;
        n      = a + choose(9, "delta") - std::min<std::size_t>(a, 5);
        break;
    }
    default: n = sim::small(4000, "line"); break;
    }
    if (choose(300, "huge line") == 299)
        n = 65530 + choose(12, "huge delta");
    std::basic_string<CharT> s;
    auto                     alphabet = choose(3, "alphabet");
    for (std::size_t i = 0; i < n; ++i)
    {
        auto c = alphabet == 0 ? 'a' + (i * 7 + n) % 26
                               : alphabet == 1 ? (i * 13 + 1) % 255 : (i % 5 == 0 ? 0 : 0x30 + i % 50);
        if (c == '\n')
            c = 'N';
        s += CharT(sizeof(CharT) > 1 && alphabet == 1 ? c + 0x100 : c);
    }
    if (terminated)
        s += CharT('\n');
    return s;
}

// Sees the prompt's effects: simulated user directly, or the default prompt through stdin/stdout.
template <typename Shell, typename World>
void session(Shell& shell, World& w)
{
    using input_t   = decltype(shell.prompt_for_input());
    using encoding  = typename input_t::encoding;
    using char_type = typename encoding::char_type;
    using string    = std::basic_string<char_type>;
    using marker    = typename input_t::marker;

    auto inputs = 1 + choose(3, "inputs");
    for (std::uint64_t in = 0; in < inputs; ++in)
    {
        w.begin_input();
        sim::heap_reset();
        if (sim::chance(15, "fail an allocation"))
            sim::heap.fail_at = 1 + choose(4, "which allocation");
        std::unique_ptr<input_t> input;
        auto                     before = w.counts();
        try
        {
            sim::tracked t;
            auto         i = shell.prompt_for_input();
            sim::heap.track = false;
            input           = std::make_unique<input_t>(i);
        }
        catch (std::bad_alloc&)
        {
            if (!sim::heap.failed)
                sim::violate("spurious-exception", "exception without an allocation failure");
            sim::probe("threw-in-prompt");
            if (!w.tracks_partial_lines)
                return;
            continue;
        }
        auto after = w.counts();
        if (after.primary != before.primary + 1 || after.continuation != before.continuation)
            sim::violate("wrong-prompt", "first line: %u primary, %u continuation prompts",
                         after.primary - before.primary, after.continuation - before.continuation);
        if (!w.one_line_read(before, after))
            sim::violate("eager-read", "starting an input read more than one line");

        auto        rd  = input->reader();
        std::size_t idx = 0;
        bool        ended = false; // end of input was reported
        bool        can_bump = false;
        struct Saved
        {
            marker      m;
            std::size_t idx;
            decltype(rd.position()) it;
        };
        std::vector<Saved> saved;
        auto               verify = [&](const Saved& a, const Saved& b, const char* what) {
            // [a, b) must denote the same characters as when it was taken.
            if (a.idx > b.idx)
                return;
            const string& d = w.seen();
            lexy::lexeme<input_t> lex(a.it, b.it);
            std::size_t           i = a.idx;
            for (auto c : lex)
            {
                if (i >= b.idx || c != d[i])
                    sim::violate("unstable-lexeme", "%s: character %zu of a lexeme changed (of %zu..%zu)", what, i,
                                 a.idx, b.idx);
                ++i;
            }
            if (i != b.idx)
                sim::violate("unstable-lexeme", "%s: a lexeme changed its length", what);
        };
        auto steps = 1 + sim::small(60, "steps");
        auto burst = std::uint64_t(0);
        for (std::uint64_t s = 0; s < steps; ++s)
        {
            auto op = choose(9, "op");
            if (op <= 2) // advance a while, the common case
                burst = op == 0 ? 1 : op == 1 ? sim::small(300, "advance") : sim::small(6000, "advance");
            switch (op)
            {
            case 0:
            case 1:
            case 2:
                for (; burst > 0; --burst)
                {
                    // Peek, check against the model, bump.
                    auto        b       = w.counts();
                    bool        need    = idx == w.seen().size();
                    bool        was_open = w.open();
                    typename encoding::int_type c = encoding::eof();
                    auto        had = w.seen().size();
                    try
                    {
                        sim::tracked t;
                        c = rd.peek();
                    }
                    catch (std::bad_alloc&)
                    {
                        sim::heap.track = false;
                        if (!sim::heap.failed)
                            sim::violate("spurious-exception", "exception without an allocation failure");
                        sim::probe("threw-in-peek");
                        sim::ev("threw");
                        sim::heap.fail_at = 0;
                        if (!w.tracks_partial_lines)
                            return;
                        break;
                    }
                    auto a = w.counts();
                    if (!need || !was_open)
                    {
                        if (a.primary != b.primary || a.continuation != b.continuation || !w.no_read(b, a)
                            || w.seen().size() != had)
                            sim::violate("needless-read",
                                         "a line was requested although %s", need ? "the prompt is closed" : "the character was there");
                    }
                    else
                    {
                        if (a.primary != b.primary || a.continuation != b.continuation + 1)
                            sim::violate("wrong-prompt", "further line: %u primary, %u continuation prompts",
                                         a.primary - b.primary, a.continuation - b.continuation);
                        if (!w.one_line_read(b, a))
                            sim::violate("eager-read", "more than one line was read for one character");
                        sim::probe("continuation");
                    }
                    bool more = idx < w.seen().size();
                    if (more != (c != encoding::eof())
                        && !(more && encoding::to_int_type(w.seen()[idx]) == encoding::eof()))
                    {
                        if (more)
                            sim::violate("lost-characters", "end of input reported with %zu character(s) unread",
                                         w.seen().size() - idx);
                        else
                            sim::violate("phantom-character", "a character is reported after the %zu that were read",
                                         w.seen().size());
                    }
                    if (more && c != encoding::to_int_type(w.seen()[idx]))
                        sim::violate("wrong-character", "character %zu differs from what was typed", idx);
                    if (!more)
                    {
                        if (w.open())
                            sim::probe("eof-while-open");
                        ended = true;
                        sim::probe("eof");
                        break;
                    }
                    if (ended && need)
                        sim::probe("more-after-eof");
                    rd.bump();
                    ++idx;
                }
                break;
            case 3: { // mark
                marker m = rd.current();
                if (!(m.position() == rd.position()))
                    sim::violate("marker-position", "a marker does not denote the current position");
                saved.push_back({m, idx, rd.position()});
                break;
            }
            case 4: // reset
                if (!saved.empty())
                {
                    auto& m = sim::pick(saved, "marker");
                    rd.reset(m.m);
                    idx = m.idx;
                    sim::probe("reset");
                }
                break;
            case 5: // check an old range
                if (!saved.empty())
                {
                    auto& a = sim::pick(saved, "from");
                    auto& b = sim::pick(saved, "to");
                    verify(a, b, "range check");
                    sim::probe("range-check");
                }
                break;
            case 6: { // a copied reader sees the same character
                if (idx < w.seen().size())
                {
                    auto rd2 = rd;
                    if (rd2.peek() != rd.peek())
                        sim::violate("copy-differs", "a copied reader sees another character");
                }
                break;
            }
            case 7: // write a message
                w.write(shell, saved);
                break;
            default: { // where in the session is a position?
                Saved       here{rd.current(), idx, rd.position()};
                auto&       to   = saved.empty() || choose(2, "locate here") == 0 ? here : sim::pick(saved, "locate");
                auto        b    = w.counts();
                auto        had  = w.seen().size();
                // Only whether a final carriage return starts a newline takes another character to decide.
                bool        may  = to.idx == had && to.idx > 0 && w.seen()[to.idx - 1] == char_type('\r');
                if (may)
                    break;
                auto loc = lexy::get_input_location(*input, to.it);
                if (!saved.empty() && choose(2, "from an anchor") == 1)
                {
                    auto& from = sim::pick(saved, "anchor");
                    if (from.idx <= to.idx && !(from.idx > 0 && from.idx == had && w.seen()[from.idx - 1] == char_type('\r')))
                    {
                        auto again = lexy::get_input_location(*input, to.it, lexy::get_input_location(*input, from.it).anchor());
                        if (again != loc)
                            sim::violate("location-anchor", "character %zu: line %u column %u, from an anchor line %u column %u", to.idx, loc.line_nr(), loc.column_nr(), again.line_nr(), again.column_nr());
                        sim::probe("location-anchor");
                    }
                }
                auto a = w.counts();
                if (a.primary != b.primary || a.continuation != b.continuation || !w.no_read(b, a) || w.seen().size() != had)
                    sim::violate("needless-read", "a line was requested to find the line of character %zu, which was there", to.idx);
                const string& d    = w.seen();
                unsigned      line = 1, column = 1;
                for (std::size_t i = 0; i < to.idx;)
                {
                    auto n = d[i] == char_type('\n') ? 1u : d[i] == char_type('\r') && i + 1 < d.size() && d[i + 1] == char_type('\n') ? 2u : 0u;
                    if (n > 0 && i + n > to.idx)
                        break;
                    if (n > 0)
                        ++line, column = 1, i += n;
                    else
                        ++column, ++i;
                }
                if (loc.line_nr() != line || loc.column_nr() != column)
                    sim::violate("location", "character %zu is at line %u column %u, reported as line %u column %u", to.idx, line, column, loc.line_nr(), loc.column_nr());
                sim::probe("location");
                break;
            }
            }
        }
        saved.push_back({rd.current(), idx, rd.position()});
        for (auto& a : saved)
            verify(a, saved.back(), "final check");
        sim::state(sim::hash(std::to_string(w.seen().size() / 100) + "/" + std::to_string(idx / 100) + (ended ? "e" : "")
                             + std::to_string(sizeof(char_type)) + "/" + std::to_string(w.counts().read_line) + "/"
                             + std::to_string(saved.size())));
        // Nothing may be lost: what the inputs saw plus what is still to be read is what was typed.
        w.conservation();
    }
}

//=== world with a user-written prompt ===//
template <typename Encoding>
struct SimWorld
{
    using char_type = typename Encoding::char_type;
    using string    = std::basic_string<char_type>;
    static constexpr bool tracks_partial_lines = true;
    User<char_type>& u;
    string           all_before; // delivered to earlier inputs
    string           expected_written;

    void begin_input()
    {
        all_before += u.delivered;
        u.delivered.clear();
    }
    Log           counts() const { return u.log; }
    const string& seen() const { return u.delivered; }
    bool          open() const { return !u.closed; }
    bool          no_read(const Log& b, const Log& a) const { return a.read_line == b.read_line && a.reads == b.reads; }
    bool          one_line_read(const Log& b, const Log& a) const { return a.read_line == b.read_line + 1; }
    void          conservation()
    {
        string all = all_before + u.delivered, typed;
        for (std::size_t i = 0; i < u.line && i < u.lines.size(); ++i)
            typed += u.lines[i];
        if (u.line < u.lines.size())
            typed.append(u.lines[u.line], 0, u.off);
        if (all != typed)
            sim::violate("harness", "simulated user lost track");
        if (u.written != expected_written)
            sim::violate("message-mismatch", "%zu message characters arrived, %zu were written", u.written.size(),
                         expected_written.size());
        if (u.messages != u.message_done)
            sim::violate("message-done", "%u messages started, %u finished", u.messages, u.message_done);
    }
    template <typename Shell, typename Saved>
    void write(Shell& shell, std::vector<Saved>& saved)
    {
        auto kind = unsigned(choose(5, "message kind"));
        {
            auto m = shell.write_message(kind);
            if (u.last_kind != kind)
                sim::violate("message-args", "write_message arguments did not reach the prompt");
            auto n = choose(4, "message parts");
            for (std::uint64_t i = 0; i < n; ++i)
                switch (choose(5, "part"))
                {
                case 0: {
                    string s(sim::small(20, "len"), char_type('x'));
                    m(s.c_str());
                    expected_written += s;
                    break;
                }
                case 1: {
                    string s(sim::small(20, "len"), char_type(0));
                    m(s.data(), s.size());
                    expected_written += s;
                    break;
                }
                case 2:
                    m(char_type('c'));
                    expected_written += char_type('c');
                    break;
                case 3: {
                    auto it = m.output_iterator();
                    *it++   = 'q';
                    *it++   = 'r';
                    expected_written += char_type('q');
                    expected_written += char_type('r');
                    break;
                }
                default:
                    if (!saved.empty())
                    {
                        auto a = sim::pick(saved, "from");
                        auto b = sim::pick(saved, "to");
                        if (a.idx > b.idx)
                            std::swap(a, b);
                        if (a.idx <= b.idx)
                        {
                            m(lexy::lexeme<typename Shell::input>(a.it, b.it));
                            expected_written.append(u.delivered, a.idx, b.idx - a.idx);
                            sim::probe(a.idx == b.idx ? "write-empty-lexeme" : "write-lexeme");
                        }
                    }
                    break;
                }
        }
    }
};

template <typename Encoding>
void sim_user_run()
{
    using char_type = typename Encoding::char_type;
    User<char_type> u;
    auto            n = choose(6, "lines");
    for (std::uint64_t i = 0; i < n; ++i)
        u.lines.push_back(make_line<char_type>(true));
    if (choose(3, "unterminated last line") == 2)
        u.lines.push_back(make_line<char_type>(false));
    if (!u.lines.empty() && u.lines.back().empty())
        u.lines.pop_back();
    u.close_eagerly = choose(2, "close eagerly");
    if (!u.lines.empty() && sim::chance(20, "read error"))
    {
        u.error_in    = std::size_t(choose(u.lines.size(), "error line"));
        u.error_after = std::size_t(choose(u.lines[u.error_in].size(), "error after"));
    }
    sim::ev("sim prompt, width %zu, %zu lines", sizeof(char_type), u.lines.size());
    for (auto& l : u.lines)
        sim::ev("line of %zu", l.size());
    lexy_ext::shell<SimPrompt<Encoding>> shell{SimPrompt<Encoding>{&u}};
    SimWorld<Encoding>                   w{u, {}, {}};
    session(shell, w);
    if (shell.is_open() != !u.closed)
        sim::violate("is-open", "the shell reports open=%d", shell.is_open());
}

//=== world with the default prompt on simulated stdin/stdout ===//
template <typename Encoding>
struct StdWorld
{
    using char_type = typename Encoding::char_type;
    using string    = std::basic_string<char_type>;
    // How much of a line was taken from stdin before a failure is not visible from outside.
    static constexpr bool                                tracks_partial_lines = false;
    lexy_ext::shell<lexy_ext::default_prompt<Encoding>>& shell;
    sim::out_t&                                          out;
    std::size_t                                          consumed = 0; // of the typed text, by earlier inputs
    mutable string                                       view;
    mutable std::size_t                                  view_from = 0;
    std::string                                          expected_msgs;
    Log                                                  base;

    // The characters the shell may have: whole lines of the typed text, as many as prompts were shown.
    string typed() const
    {
        auto n = std::min(sim::in.data.size(), sim::in.error_at);
        string s;
        for (std::size_t i = 0; i < n; ++i)
            s += char_type(sim::in.data[i]);
        return s;
    }
    Log counts() const
    {
        std::fflush(stdout);
        Log l;
        for (std::size_t i = 0; i < out.accepted.size(); ++i)
        {
            if (out.accepted[i] == '>')
                ++l.primary;
            if (out.accepted[i] == '.')
                ++l.continuation;
        }
        l.read_line = l.primary + l.continuation;
        return l;
    }
    void begin_input()
    {
        consumed += seen().size();
        lines_at_start = counts().read_line;
        view.clear();
        lines = 0;
        dirty = true;
    }
    unsigned              lines_at_start = 0;
    mutable unsigned      lines          = 0;
    mutable bool          dirty          = true;
    const string&         seen() const
    {
        auto n = counts().read_line - lines_at_start;
        if (n != lines || dirty)
        {
            dirty   = false;
            lines   = n;
            auto t  = typed();
            auto e  = consumed;
            for (unsigned i = 0; i < n && e < t.size(); ++i)
            {
                auto nl = t.find(char_type('\n'), e);
                e       = nl == string::npos ? t.size() : nl + 1;
            }
            view = t.substr(consumed, e - consumed);
        }
        return view;
    }
    bool open() const { return std::feof(stdin) == 0 && std::ferror(stdin) == 0; }
    bool no_read(const Log& b, const Log& a) const { return a.read_line == b.read_line; }
    bool one_line_read(const Log& b, const Log& a) const { return a.read_line == b.read_line + 1; }
    void conservation() {}
    template <typename Shell, typename Saved>
    void write(Shell& sh, std::vector<Saved>& saved)
    {
        std::fflush(stdout);
        auto   before = out.accepted.size();
        string want;
        {
            auto m = sh.write_message();
            auto n = choose(3, "message parts");
            for (std::uint64_t i = 0; i < n; ++i)
                switch (choose(3, "part"))
                {
                case 0: {
                    string s(sim::small(20, "len"), char_type('x'));
                    if (!s.empty())
                        s.back() = choose(2, "newline") ? char_type('\n') : char_type('y');
                    m(s.data(), s.size());
                    want += s;
                    break;
                }
                case 1: {
                    auto c = char_type(choose(2, "nul") ? 0 : 'k');
                    m(c);
                    want += c;
                    break;
                }
                default:
                    if (!saved.empty())
                    {
                        auto a = sim::pick(saved, "from");
                        auto b = sim::pick(saved, "to");
                        if (a.idx > b.idx)
                            std::swap(a, b);
                        if (a.idx <= b.idx)
                        {
                            m(lexy::lexeme<typename Shell::input>(a.it, b.it));
                            want.append(seen(), a.idx, b.idx - a.idx);
                        }
                    }
                    break;
                }
        }
        std::fflush(stdout);
        if (!want.empty() && want.back() != char_type('\n'))
            want += char_type('\n');
        string got;
        for (auto i = before; i < out.accepted.size(); ++i)
            got += char_type(out.accepted[i]);
        if (got != want)
            sim::violate("message-mismatch", "%zu message characters arrived, %zu expected", got.size(), want.size());
        out.accepted.resize(before); // messages may contain prompt characters
    }
};

template <typename Encoding>
void default_prompt_run()
{
    sim::in = sim::in_t();
    auto n  = choose(6, "lines");
    for (std::uint64_t i = 0; i < n; ++i)
        sim::in.data += make_line<char>(true);
    if (choose(3, "unterminated last line") == 2)
        sim::in.data += make_line<char>(false);
    for (auto& c : sim::in.data)
        if (c == '>' || c == '.')
            c = 'p';
    static const std::size_t chunks[] = {100000, 7, 512, 1};
    sim::in.max_chunk = chunks[choose(4, "max chunk")];
    if (sim::in.max_chunk < 7 && sim::in.data.size() > 1000)
        sim::in.max_chunk = 100;
    sim::in.line_mode = choose(2, "line mode");
    if (sim::chance(15, "read error"))
    {
        sim::in.error_at = std::size_t(choose(sim::in.data.size() + 1, "error at"));
        // Characters of a line whose reading failed need not be delivered: fail at a line start.
        auto nl = sim::in.error_at ? sim::in.data.rfind('\n', sim::in.error_at - 1) : std::string::npos;
        sim::in.error_at = nl == std::string::npos ? 0 : nl + 1;
    }
    sim::ev("default prompt, %zu characters", sim::in.data.size());
    static const std::size_t bufs[] = {4096, 0, 1, 16, 1000};
    sim::stdin_begin(bufs[choose(5, "stdio buffer")]);
    sim::out_t out;
    auto       f   = sim::out_open(out, _IOFBF, 4096);
    auto       old = stdout;
    stdout         = f;
    {
        lexy_ext::shell<lexy_ext::default_prompt<Encoding>> shell;
        StdWorld<Encoding>                                  w{shell, out};
        session(shell, w);
    }
    std::fclose(f);
    stdout = old;
    sim::stdin_end();
    sim::probe("default-prompt");
}
} // namespace

void sim::run_once()
{
    switch (choose(6, "prompt"))
    {
    case 0: sim_user_run<lexy::default_encoding>(); break;
    case 1: sim_user_run<lexy::utf8_encoding>(); break;
    case 2: sim_user_run<lexy::utf16_encoding>(); break;
    case 3: sim_user_run<lexy::utf32_encoding>(); break;
    case 4: default_prompt_run<lexy::default_encoding>(); break;
    default: default_prompt_run<lexy::utf8_encoding>(); break;
    }
}
