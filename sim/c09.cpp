// C09: diagnostics are the same for every sink and survive a failing sink.
#include "c09_ops.hpp"
#include "simio.hpp"
#include <map>

const char* const   sim::property_id = "C09";
const std::uint64_t sim::step_limit  = 2000000000;

using namespace gram;
using sim::choose;

namespace
{
std::vector<grammar>& sorted()
{
    static std::vector<grammar> g = [] {
        auto v = grammars();
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
        return v;
    }();
    return g;
}

// Without the escape sequences for colours.
std::string strip(const std::string& s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[')
        {
            auto j = i + 2;
            while (j < s.size() && ((s[j] >= '0' && s[j] <= '9') || s[j] == ';'))
                ++j;
            if (j < s.size() && s[j] == 'm')
            {
                i = j;
                continue;
            }
        }
        r += s[i];
    }
    return r;
}

std::string differ(const std::string& a, const std::string& b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    auto from = i < 20 ? 0 : i - 20;
    return "at " + std::to_string(i) + ": '" + sim::printable(a.substr(from, 60)) + "' and '" + sim::printable(b.substr(from, 60)) + "'";
}

bool is_subsequence(const std::string& a, const std::string& of)
{
    std::size_t j = 0;
    for (char c : a)
    {
        while (j < of.size() && of[j] != c)
            ++j;
        if (j == of.size())
            return false;
        ++j;
    }
    return true;
}
// Every event has its line, at its place, in the hierarchy.
void check_trace(const c09_ops& ops, const std::string& text, const lexy::visualization_options& opts, const std::string& trace_)
{
    auto                       events = ops.events(text, opts.max_tree_depth);
    auto                       trace  = strip(trace_);
    std::size_t                at     = 0;
    std::map<unsigned, std::size_t> indent;
    for (std::size_t i = 0; i != events.size(); ++i)
    {
        auto& [where, e] = events[i];
        auto nl          = trace.find('\n', at);
        if (nl == std::string::npos)
            sim::violate("trace-lines", "the trace has %zu lines, but there are %zu events", i, events.size());
        auto line = trace.substr(at, nl - at);
        at        = nl + 1;
        std::string got;
        std::size_t j = 0, colons = 0;
        for (; j < line.size() && colons < 2; ++j)
            if (line[j] == ':')
            {
                if (++colons == 1)
                    got += ':';
            }
            else if (line[j] != ' ')
                got += line[j];
        if (got != where)
            sim::violate("trace-location", "event %zu (%s) is at %s, but the trace says %s", i, e.what.c_str(), where.c_str(), sim::printable(line, 100).c_str());
        if (e.what.empty())
            continue;
        auto name = line.find(e.what, j);
        if (name == std::string::npos)
            sim::violate("trace-event", "event %zu is %s, but the trace says %s", i, e.what.c_str(), sim::printable(line, 100).c_str());
        auto width = name - j;
        auto [it, fresh] = indent.emplace(e.depth, width);
        if (it->second != width || (it != indent.begin() && std::prev(it)->second >= width)
            || (std::next(it) != indent.end() && std::next(it)->second <= width))
            sim::violate("trace-hierarchy", "event %zu (%s) is indented by %zu at depth %u: %s", i, e.what.c_str(), width, e.depth, sim::printable(line, 200).c_str());
    }
    if (trace.find_first_not_of('\n', at) != std::string::npos)
        sim::violate("trace-lines", "the trace goes on after all %zu events: %s", events.size(), sim::printable(trace.substr(at), 100).c_str());
    sim::probe("trace-checked");
}

// A trace of an input with many lines and columns.
namespace dsl = lexy::dsl;
struct far_lines
{
    static constexpr auto rule = dsl::position + dsl::token(dsl::while_(dsl::lit_c<'\n'>)) + dsl::token(dsl::while_(dsl::lit_c<'a'>)) + LEXY_DEBUG("far") + dsl::eof;
    static constexpr auto value = lexy::noop;
};
void far_location()
{
    auto size = [](const char* what, std::size_t max) {
        std::size_t n = 1;
        for (auto i = choose(max, what); i != 0; --i)
            n *= 10;
        return n - 1 + choose(2, what);
    };
    auto lines = size("lines", 8), columns = size("columns", 7);
    sim::ev("%zu lines, %zu columns", lines, columns);
    std::string text(lines, '\n');
    text.append(columns, 'a');
    text_sink t;
    lexy::trace_to<far_lines>(any_out(t), lexy::string_input<lexy::ascii_encoding>(text.data(), text.size()), lexy::visualization_options{lexy::visualize_default, 32, 20});
    char want[64];
    std::snprintf(want, sizeof(want), "%2zu:%3zu: ", lines + 1, columns + 1);
    auto found = t.text.rfind("debug: far");
    auto begin = found == std::string::npos ? found : t.text.rfind('\n', found);
    auto line  = found == std::string::npos ? t.text : t.text.substr(begin + 1, found - begin - 1);
    if (line.compare(0, std::strlen(want), want) != 0)
        sim::violate("trace-location", "line %zu, column %zu is traced as '%s'", lines + 1, columns + 1, sim::printable(line).c_str());
    sim::probe("far-location");
}
} // namespace

void sim::run_once()
{
    user       = user_t();
    if (choose(500, "far?") == 499)
        return far_location();
    auto& g    = sim::pick(sorted(), "grammar");
    auto  ops  = static_cast<c09_ops*>(g.ops);
    auto  text = make_text(g, 300, 6);
    auto  size = ops->size(text);

    c09_job job;
    job.what = unsigned(choose(w_count, "what"));
    job.opts.flags = lexy::visualization_flags(choose(16, "flags"));
    if (choose(3, "depth?") == 2)
        job.opts.max_tree_depth = static_cast<unsigned char>(choose(8, "depth"));
    if (choose(3, "width?") == 2)
        job.opts.max_lexeme_width = static_cast<unsigned char>(1 + choose(20, "width"));
    if (choose(3, "tabs?") == 2)
        job.opts.tab_width = static_cast<unsigned char>(1 + choose(8, "tab width"));
    static const char* const paths[] = {nullptr, "input.txt", "100%s/\xC3\xA4.txt", ""};
    job.path       = paths[choose(4, "path")];
    job.begin      = choose(size + 1, "begin");
    job.end        = job.begin + choose(size - job.begin + 1, "length");
    job.kind       = unsigned(choose(7, "kind"));
    job.annotation = unsigned(choose(2, "annotation"));
    job.as_size    = choose(2, "as size") == 1;
    sim::ev("grammar %s text %s", g.name, sim::printable(text).c_str());
    sim::ev("%s, flags %x, depth %u, width %u, tab %u, [%zu, %zu)", c09_name[job.what], unsigned(job.opts.flags), job.opts.max_tree_depth,
            job.opts.max_lexeme_width, job.opts.tab_width, job.begin, job.end);

    // The text itself.
    text_sink full;
    auto      res = ops->run(text, job, {&full});
    sim::ev("%zu characters, %s", full.text.size(), sim::printable(res).c_str());
    bool report = job.what >= w_validate && job.what <= w_parse_tree;
    if (report)
    {
        auto plain = ops->plain(text, job);
        if (plain != res)
            sim::violate("outcome", "with report_error: %s, with another callback: %s", sim::printable(res).c_str(), sim::printable(plain).c_str());
        if (res.rfind("success 0", 0) == 0 && !full.text.empty())
            sim::violate("report-of-nothing", "a report although there was no error");
        if (res.rfind("success 0", 0) != 0 && res.rfind("fatal 0", 0) != 0 && full.text.empty())
            sim::violate("no-report", "nothing is reported although there were errors");
    }
    if (job.what == w_trace)
        check_trace(*ops, text, job.opts, full.text);
    // Colour only adds escape sequences.
    {
        auto other = job;
        other.opts.flags = lexy::visualization_flags(job.opts.flags ^ lexy::visualize_use_color);
        text_sink t;
        ops->run(text, other, {&t});
        auto& colored = job.opts.is_set(lexy::visualize_use_color) ? full.text : t.text;
        auto& plain   = job.opts.is_set(lexy::visualize_use_color) ? t.text : full.text;
        if (strip(colored) != strip(plain))
            sim::violate("color", "the text differs with colour, %s", differ(strip(colored), strip(plain)).c_str());
    }

    auto rounds = 1 + choose(3, "rounds");
    for (std::size_t i = 0; i < rounds; ++i)
    {
        auto kind = choose(6, "sink");
        if (kind == 0)
        {
            // A second time, nothing has changed.
            text_sink t;
            auto      r = ops->run(text, job, {&t});
            if (t.text != full.text || r != res)
                sim::violate("not-repeatable", "the second text differs %s", differ(t.text, full.text).c_str());
            continue;
        }
        if (kind == 1 && !full.text.empty())
        {
            // The iterator throws.
            text_sink t;
            t.throw_at = 1 + choose(full.text.size(), "throw at");
            sim::ev("write %llu throws", (unsigned long long)t.throw_at);
            bool caught = false;
            auto live = user.live;
            sim::heap_reset();
            sim::heap.track = true;
            try
            {
                ops->run(text, job, {&t});
            }
            catch (sink_full& e)
            {
                caught = e.from == &t;
            }
            catch (...)
            {}
            sim::heap.track = false;
            if (!caught)
                sim::violate("exception-lost", "the exception of the output iterator does not reach the caller");
            if (sim::heap.live != 0)
                sim::violate("leak", "%lld blocks are left after the output has thrown", (long long)sim::heap.live);
            if (user.live != live)
                sim::violate("value-leak", "%lld values are left after the output has thrown", (long long)(user.live - live));
            if (t.text != full.text.substr(0, t.throw_at - 1))
                sim::violate("text-before-failure", "the text written before the failure differs %s", differ(t.text, full.text).c_str());
            continue;
        }
        // A stream.
        sim::out_t o;
        auto       mode   = choose(3, "buffering");
        auto       bufmode = mode == 0 ? _IOFBF : mode == 1 ? _IOLBF : _IONBF;
        auto       bufsize = 2 + choose(3, "buffer size") * choose(200, "buffer size");
        auto       fail    = choose(4, "failing?");
        if (fail == 2)
            o.fault_pct = unsigned(1 + choose(60, "fault pct"));
        else if (fail == 3)
            o.capacity = choose(full.text.size() + 2, "capacity");
        auto which = kind <= 3 ? 0 : kind == 4 ? 1 : 2;
        auto f     = sim::out_open(o, bufmode, bufsize);
        auto old_err = stderr, old_out = stdout;
        c09_sink s;
        s.file = which == 0 ? f : nullptr;
        s.std_ = which;
        if (which == 1)
            stderr = f;
        else if (which == 2)
            stdout = f;
        std::string r;
        try
        {
            r = ops->run(text, job, s);
        }
        catch (...)
        {
            stderr = old_err;
            stdout = old_out;
            sim::violate("exception", "an exception that nobody threw");
        }
        stderr = old_err;
        stdout = old_out;
        std::fclose(f);
        sim::ev("through %s, buffering %zu: %zu accepted, %u faults", which == 0 ? "FILE" : which == 1 ? "stderr" : "stdout", std::size_t(mode),
                o.accepted.size(), o.faults);
        if (report)
        {
            auto j = job;
            j.what = w_validate;
            auto want = job.what == w_validate ? res : ops->plain(text, j);
            if (r != want)
                sim::violate("outcome", "with a stream: %s, without: %s", sim::printable(r).c_str(), sim::printable(want).c_str());
        }
        if (o.faults == 0 && o.accepted != full.text)
            sim::violate("stream-text", "the stream and the iterator got different texts, %s", differ(o.accepted, full.text).c_str());
        if (fail == 3 && full.text.compare(0, o.accepted.size(), o.accepted) != 0)
            sim::violate("prefix", "what fits is not the beginning of the text, %s", differ(o.accepted, full.text).c_str());
        if (!is_subsequence(o.accepted, full.text))
            sim::violate("subsequence", "the stream accepted characters that are not in the text in this order, %s", differ(o.accepted, full.text).c_str());
        sim::state(sim::hash(g.name) + job.what * 1000 + which * 100 + mode * 10 + fail * 3 + (o.faults != 0));
    }
    sim::state(sim::hash(full.text));
    // Once more, undisturbed.
    text_sink t;
    auto      r = ops->run(text, job, {&t});
    if (t.text != full.text || r != res)
        sim::violate("not-repeatable", "the text after the failures differs %s", differ(t.text, full.text).c_str());
    if (user.live != 0)
        sim::violate("value-leak", "%lld values are still alive", (long long)user.live);
}
