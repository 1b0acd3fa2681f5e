// C09: diagnostics written into a sink that may fail.
#pragma once
#include "run_actions.hpp"
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>

namespace gram
{
// What an output iterator writes to.
struct text_sink
{
    std::string   text;
    std::uint64_t throw_at = 0; // the write that fails, 1-based
    bool          failed   = false;
};
struct sink_full
{
    const text_sink* from;
};

// Like a pointer into a block of memory: every copy has its own position, every position is written once, in order.
class any_out
{
public:
    using value_type        = void;
    using reference         = void;
    using pointer           = void;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::output_iterator_tag;

    explicit any_out(text_sink& s) : _s(&s) {}

    class place
    {
    public:
        place(text_sink* s, std::size_t pos) : _s(s), _pos(pos) {}
        const place& operator=(char c) const
        {
            sim::untracked u;
            if (_s->failed)
                sim::violate("write-after-failure", "the output is written to after it has thrown");
            if (_pos != _s->text.size())
                sim::violate("stale-iterator", "%s is written to position %zu of the output, which has %zu characters",
                             sim::printable(std::string(1, c)).c_str(), _pos, _s->text.size());
            if (_s->text.size() + 1 == _s->throw_at)
            {
                _s->failed = true;
                sim::fault("iterator-throws");
                throw sink_full{_s};
            }
            _s->text += c;
            if (_s->text.size() > 4000000)
                sim::violate("endless-output", "the output does not end");
            return *this;
        }

    private:
        text_sink*  _s;
        std::size_t _pos;
    };
    place operator*() const { return place(_s, _pos); }

    any_out& operator++()
    {
        ++_pos;
        return *this;
    }
    any_out operator++(int)
    {
        auto copy = *this;
        ++_pos;
        return copy;
    }

    std::size_t pos() const { return _pos; }

private:
    text_sink*  _s;
    std::size_t _pos = 0;
};

//=== what a trace has to say ===//
// One line per event: where it is, and what it is.
struct trace_line
{
    std::size_t pos;
    unsigned    depth;
    std::string what; // empty: the end of something
};
struct trace_log
{
    std::vector<trace_line> lines;
    unsigned                depth = 0, max = 0;

    void add(std::size_t pos, std::string what)
    {
        if (depth <= max)
            lines.push_back({pos, depth, std::move(what)});
    }
    void start(std::size_t pos, std::string what)
    {
        add(pos, std::move(what));
        ++depth;
    }
    void finish(std::size_t pos)
    {
        add(pos, "");
        --depth;
    }
};
template <typename Reader>
struct trace_recorder
{
    using iterator = typename Reader::iterator;
    trace_log* log;
    iterator   begin;

    std::size_t at(iterator it) const { return std::size_t(it - begin); }

    class event_handler
    {
        using h = trace_recorder;
        lexy::production_info _info;

    public:
        event_handler(lexy::production_info info) : _info(info) {}
        void on(h&, lexy::parse_events::grammar_start, iterator) {}
        void on(h&, lexy::parse_events::grammar_finish, Reader&) {}
        void on(h&, lexy::parse_events::grammar_cancel, Reader&) {}
        void on(h& r, lexy::parse_events::production_start, iterator pos) { r.log->start(r.at(pos), _info.name); }
        void on(h& r, lexy::parse_events::production_finish, iterator pos) { r.log->finish(r.at(pos)); }
        void on(h& r, lexy::parse_events::production_cancel, iterator pos) { r.log->finish(r.at(pos)); }
        int  on(h& r, lexy::parse_events::operation_chain_start, iterator pos)
        {
            r.log->start(r.at(pos), "operation chain");
            return 0;
        }
        template <typename Operation>
        void on(h& r, lexy::parse_events::operation_chain_op, Operation, iterator pos)
        {
            r.log->add(r.at(pos), "operation");
        }
        void on(h& r, lexy::parse_events::operation_chain_finish, int, iterator pos) { r.log->finish(r.at(pos)); }
        template <typename TK>
        void on(h& r, lexy::parse_events::token, TK kind_, iterator b, iterator e)
        {
            lexy::token_kind<void> kind(kind_);
            if (!(kind.ignore_if_empty() && b == e))
                r.log->add(r.at(b), kind.name());
        }
        void on(h& r, lexy::parse_events::backtracked, iterator b, iterator e)
        {
            if (b != e)
                r.log->add(r.at(b), "backtracked");
        }
        template <typename Error>
        void on(h& r, lexy::parse_events::error, const Error& e)
        {
            r.log->add(r.at(e.position()), "error");
        }
        void on(h& r, lexy::parse_events::recovery_start, iterator pos) { r.log->start(r.at(pos), "error recovery"); }
        void on(h& r, lexy::parse_events::recovery_finish, iterator pos) { r.log->finish(r.at(pos)); }
        void on(h& r, lexy::parse_events::recovery_cancel, iterator pos) { r.log->finish(r.at(pos)); }
        void on(h& r, lexy::parse_events::debug, iterator pos, const char* str) { r.log->add(r.at(pos), str ? "debug" : "a debug message"); }
        template <typename Event, typename... Args>
        void on(h&, Event, const Args&...)
        {}
    };
    template <typename Production, typename State>
    using value_callback = lexy::_detail::void_value_callback;
    template <typename Result>
    auto get_result(bool ok) &&
    {
        return Result{ok};
    }
};
template <typename>
struct trace_result
{
    bool ok;
};

enum c09_what : unsigned
{
    w_trace,
    w_tree,
    w_lexeme,
    w_validate, // report_error
    w_parse,
    w_parse_tree,
    w_diagnostic,
    w_count,
};
inline const char* const c09_name[] = {"trace", "tree", "lexeme", "report of validate", "report of parse", "report of parse_as_tree", "diagnostic"};

// Where the text goes.
struct c09_sink
{
    text_sink* it   = nullptr; // through an iterator
    FILE*      file = nullptr; // through a FILE
    int        std_ = 0;       // through the iterator or default for: 1 stderr, 2 stdout
};
struct c09_job
{
    unsigned                    what = 0;
    lexy::visualization_options opts;
    const char*                 path = nullptr;
    // for diagnostics
    unsigned    kind = 0, annotation = 0;
    std::size_t begin = 0, end = 0;
    bool        as_size = false;
};

struct c09_ops
{
    std::size_t (*size)(const std::string& text);
    // Writes the text and returns what the user sees of the outcome.
    std::string (*run)(const std::string& text, const c09_job& job, c09_sink sink);
    // The outcome as reported to an ordinary error callback.
    std::string (*plain)(const std::string& text, const c09_job& job);
    // What the trace has to say, the positions as "line:column".
    std::vector<std::pair<std::string, trace_line>> (*events)(const std::string& text, unsigned max_depth);
};

inline std::string outcome(const char* st, std::size_t count)
{
    return std::string(st) + " " + std::to_string(count);
}

template <typename P, typename E>
struct c09_impl
{
    using input_t = lexy::string_input<E>;

    template <typename F>
    static auto act(F f)
    {
        State state;
        if constexpr (wants_state<P>::value)
            return f(state);
        else
            return f();
    }

    // All the work with a sink, `Cb` reports errors to it.
    template <typename Input, typename Cb>
    static std::string report(const Input& input, unsigned what, const Cb& cb)
    {
        auto count = [](auto& r) {
            if constexpr (std::is_convertible_v<decltype(r.errors()), std::size_t>)
            {
                if (r.errors() != r.error_count())
                    sim::violate("error-count", "%zu errors are reported, the result says %zu", std::size_t(r.errors()), r.error_count());
            }
            return outcome(status_of(r).c_str(), r.error_count());
        };
        if (what == w_validate)
        {
            auto r = act([&](auto&... st) { return lexy::validate<P>(input, st..., cb); });
            return count(r);
        }
        else if (what == w_parse)
        {
            auto r = act([&](auto&... st) { return lexy::parse<P>(input, st..., cb); });
            auto s = count(r);
            if constexpr (!std::is_void_v<typename decltype(r)::value_type>)
            {
                if (r.has_value())
                    desc(s, std::move(r).value());
            }
            return s;
        }
        else
        {
            lexy::parse_tree_for<Input> tree;
            auto                        r = act([&](auto&... st) { return lexy::parse_as_tree<P>(tree, input, st..., cb); });
            auto                        s = count(r);
            if (!tree.empty())
                s += " " + std::to_string(tree.size());
            return s;
        }
    }

    static std::string run(const std::string& text, const c09_job& job, c09_sink sink)
    {
        auto u = to_units<E>(text);
        // Exactly sized, so that reading beyond it is seen.
        using C = typename E::char_type;
        std::unique_ptr<C[]> data(new C[u.size() ? u.size() : 1]);
        std::copy(u.begin(), u.end(), data.get());
        input_t            input(data.get(), u.size());
        at_input<const C*> here(data.get(), u.size());

        auto write = [&](auto to_iter, auto to_file) -> std::string {
            if (sink.it)
            {
                auto r = to_iter(any_out(*sink.it));
                if (r.pos() != sink.it->text.size())
                    sim::violate("returned-iterator", "the returned iterator is at %zu of %zu", r.pos(), sink.it->text.size());
            }
            else if (sink.file)
                to_file(sink.file);
            else if (sink.std_ == 1)
                to_iter(lexy::stderr_output_iterator{});
            else
                to_iter(lexy::stdout_output_iterator{});
            return "done";
        };

        switch (job.what)
        {
        case w_trace:
            if (sink.it)
            {
                auto r = act([&](auto&... st) { return lexy::trace_to<P>(any_out(*sink.it), input, st..., job.opts); });
                if (r.pos() != sink.it->text.size())
                    sim::violate("returned-iterator", "the returned iterator is at %zu of %zu", r.pos(), sink.it->text.size());
            }
            else
                act([&](auto&... st) { lexy::trace<P>(sink.file ? sink.file : sink.std_ == 1 ? stderr : stdout, input, st..., job.opts); });
            return "done";

        case w_tree: {
            lexy::parse_tree_for<input_t> tree;
            act([&](auto&... st) { return lexy::parse_as_tree<P>(tree, input, st..., lexy::noop); });
            return write([&](auto out) { return lexy::visualize_to(out, tree, job.opts); },
                         [&](FILE* f) { lexy::visualize(f, tree, job.opts); });
        }
        case w_lexeme: {
            auto lex = lexy::lexeme_for<input_t>(data.get() + job.begin, data.get() + job.end);
            return write([&](auto out) { return lexy::visualize_to(out, lex, job.opts); },
                         [&](FILE* f) { lexy::visualize(f, lex, job.opts); });
        }
        case w_diagnostic: {
            lexy_ext::diagnostic_writer<input_t> w(input, job.opts);
            auto loc = lexy::get_input_location(input, data.get() + job.begin);
            auto all = [&](auto out) {
                auto msg = [](auto o, lexy::visualization_options) {
                    for (auto c : {'1', '0', '0', '%', ' ', '%', 's'})
                        *o++ = c;
                    return o;
                };
                out = w.write_message(out, lexy_ext::diagnostic_kind(job.kind), msg);
                out = w.write_path(out, job.path ? job.path : "path");
                out = w.write_empty_annotation(out);
                if (job.as_size)
                    out = w.write_annotation(out, lexy_ext::annotation_kind(job.annotation), loc, job.end - job.begin, msg);
                else
                    out = w.write_annotation(out, lexy_ext::annotation_kind(job.annotation), loc, data.get() + job.end, msg);
                return out;
            };
            return write(all, [&](FILE* f) { all(lexy::cfile_output_iterator{f}); });
        }
        default: {
            auto opts = lexy_ext::report_error.opts(job.opts).path(job.path);
            if (sink.it)
                return report(input, job.what, opts.to(any_out(*sink.it)));
            else if (sink.file)
                return report(input, w_validate, opts.to(lexy::cfile_output_iterator{sink.file}));
            else if (sink.std_ == 1)
                return report(input, w_validate, opts);
            else
                return report(input, w_validate, opts.to(lexy::stdout_output_iterator{}));
        }
        }
    }

    static std::vector<std::pair<std::string, trace_line>> events(const std::string& text, unsigned max_depth)
    {
        auto               u = to_units<E>(text);
        using C              = typename E::char_type;
        input_t            input(u.data(), u.size());
        at_input<const C*> here(u.data(), u.size());
        auto               reader = input.reader();
        using R                   = decltype(reader);
        trace_log log;
        log.max    = max_depth;
        auto begin = reader.position();
        State state;
        if constexpr (wants_state<P>::value)
            lexy::do_action<P, trace_result>(trace_recorder<R>{&log, begin}, &state, reader);
        else
            lexy::do_action<P, trace_result>(trace_recorder<R>{&log, begin}, lexy::no_parse_state, reader);

        std::vector<std::pair<std::string, trace_line>> r;
        for (auto& l : log.lines)
        {
            std::size_t line = 1, col = 1;
            if (l.pos > u.size())
                sim::violate("event-position", "an event is at %zu of %zu", l.pos, u.size());
            if constexpr (std::is_same_v<E, lexy::byte_encoding>)
                line = l.pos / 16 + 1, col = l.pos % 16 + 1;
            else
                for (std::size_t i = 0; i < l.pos;)
                {
                    auto nl = u[i] == C('\n') ? 1u : u[i] == C('\r') && i + 1 < u.size() && u[i + 1] == C('\n') ? 2u : 0u;
                    if (nl && i + nl <= l.pos)
                        ++line, col = 1, i += nl;
                    else if (nl)
                        break; // inside a newline
                    else
                        ++col, ++i;
                }
            r.emplace_back(std::to_string(line) + ":" + std::to_string(col), l);
        }
        return r;
    }

    static std::string plain(const std::string& text, const c09_job& job)
    {
        auto               u = to_units<E>(text);
        using C              = typename E::char_type;
        input_t            input(u.data(), u.size());
        at_input<const C*> here(u.data(), u.size());
        return report(input, job.what, err_t{&input});
    }
};

template <typename P, typename E>
void* make_ops()
{
    static c09_ops o{[](const std::string& t) { return to_units<E>(t).size(); }, &c09_impl<P, E>::run, &c09_impl<P, E>::plain, &c09_impl<P, E>::events};
    return &o;
}
} // namespace gram
