// C04: the outcome of a parse does not depend on how the input reaches the parser.
#include "c04_ops.hpp"
#include <algorithm>

const char* const   sim::property_id = "C04";
const std::uint64_t sim::step_limit  = 60000000;

#include <fcntl.h>
#include <unistd.h>

void gram::with_file(const std::string& bytes, const std::function<void(const char*)>& f)
{
    auto d    = std::getenv("LEXYSIM_SCRATCH");
    auto path = std::string(d ? d : "/tmp") + "/c04." + std::to_string(::getpid());
    int  fd   = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ::write(fd, bytes.data(), bytes.size()) != ssize_t(bytes.size()))
        std::abort();
    ::close(fd);
    sim::fs_begin(path, sim::chance(50, "device misbehaves") ? 15 : 0);
    f(path.c_str());
    sim::fs_end();
    ::unlink(path.c_str());
}
void gram::with_stdin(const std::string& bytes, const std::function<void()>& f)
{
    static const std::size_t bufs[] = {4096, 0, 1, 16, 1000};
    sim::in                         = {};
    sim::in.data                    = bytes;
    sim::in.max_chunk               = 1 + sim::choose(9, "largest chunk");
    sim::in.line_mode               = sim::choose(2, "line by line");
    sim::stdin_begin(bufs[sim::choose(5, "stdio buffer")]);
    f();
    sim::stdin_end();
}

using namespace gram;
using sim::choose;

namespace
{
std::vector<grammar>& sorted()
{
    static std::vector<grammar> g = [] {
        auto v = grammars();
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
        return v;
    }();
    return g;
}

std::string difference(const std::string& a, const std::string& b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    auto from = i > 60 ? i - 60 : 0;
    return "..." + sim::printable(a.substr(from, 160)) + " instead of ..." + sim::printable(b.substr(from, 160));
}

void same(const grammar& g, const char* action, const char* kind, const std::string& got, const std::string& want)
{
    if (got != want)
        sim::violate("input-dependent", "grammar %s, %s over a %s: %s", g.name, action, kind, difference(got, want).c_str());
}
std::string first_lines(const std::string& s) // verdict and errors, without the value or tree
{
    std::string r;
    std::size_t i = 0;
    while (i < s.size())
    {
        auto e = s.find('\n', i);
        auto l = s.substr(i, e == std::string::npos ? e : e - i + 1);
        if (e == std::string::npos)
            break;
        r += l;
        i = e + 1;
    }
    return r;
}
// The same grammar over another encoding, if there is one: uni, uni16, uni32, ...
std::string family(const char* name)
{
    std::string s = name;
    while (!s.empty() && s.back() >= '0' && s.back() <= '9')
        s.pop_back();
    return s;
}
bool is_ascii(const std::string& s)
{
    return std::all_of(s.begin(), s.end(), [](char c) { return (unsigned char)c < 0x80; });
}
bool well_formed(const std::string& s)
{
    for (std::size_t i = 0; i < s.size();)
    {
        unsigned c = (unsigned char)s[i];
        unsigned n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
        if (n == 0 || i + n > s.size())
            return false;
        unsigned cp = n == 1 ? c : c & (0xFFu >> (n + 1));
        for (unsigned k = 1; k < n; ++k)
        {
            unsigned d = (unsigned char)s[i + k];
            if ((d & 0xC0) != 0x80)
                return false;
            cp = cp << 6 | (d & 0x3F);
        }
        if ((n == 3 && cp < 0x800) || (n == 4 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp < 0xE000))
            return false;
        i += n;
    }
    return true;
}
} // namespace

void sim::run_once()
{
    auto& g    = sim::pick(sorted(), "grammar");
    auto  ops  = static_cast<c04_ops*>(g.ops);
    auto  text = make_text(g);
    sim::ev("grammar %s text %s", g.name, sim::printable(text).c_str());

    record base;
    unsigned all = 31;
    ops->run(in_string, text, all, base);
    sim::ev("parse: %s", sim::printable(base.parse).c_str());

    // The actions agree with each other.
    bool ok = base.validate.rfind("success", 0) == 0;
    if ((base.match == "matched") != ok)
        sim::violate("actions-disagree", "grammar %s: match() says %s, validate() says %s", g.name, base.match.c_str(), sim::printable(base.validate).c_str());
    if (first_lines(base.parse) != base.validate)
        sim::violate("actions-disagree", "grammar %s: parse() and validate() report differently: %s", g.name,
                     difference(first_lines(base.parse), base.validate).c_str());
    if (first_lines(base.tree) != base.validate)
        sim::violate("actions-disagree", "grammar %s: parse_as_tree() and validate() report differently: %s", g.name,
                     difference(first_lines(base.tree), base.validate).c_str());

    auto kinds = 1 + choose(3, "kinds");
    for (std::size_t i = 0; i < kinds; ++i)
    {
        auto     kind = input_kind(1 + choose(input_kinds - 1, "input kind"));
        unsigned what = unsigned(1 + choose(31, "actions"));
        record   r;
        if (!ops->run(kind, text, what, r))
            continue;
        sim::probe(input_names[kind]);
        if (what & 1)
            same(g, "match", input_names[kind], r.match, base.match);
        if (what & 2)
            same(g, "validate", input_names[kind], r.validate, base.validate);
        if (what & 4)
            same(g, "parse", input_names[kind], r.parse, base.parse);
        if (what & 8)
            same(g, "parse_as_tree", input_names[kind], r.tree, base.tree);
        if (what & 16)
            same(g, "trace", input_names[kind], r.trace, base.trace);
    }
    // The same characters in another encoding.
    std::vector<const grammar*> siblings;
    for (auto& o : sorted())
        if (&o != &g && family(o.name) == family(g.name))
            siblings.push_back(&o);
    bool ascii = is_ascii(text), unicode = family(g.name) == "uni" && well_formed(text);
    if (!siblings.empty() && (ascii || unicode) && choose(3, "other encoding") != 0)
    {
        auto&    o    = *sim::pick(siblings, "encoding");
        unsigned what = 15;
        record   r;
        static_cast<c04_ops*>(o.ops)->run(in_string, text, what, r);
        auto lines = [](const std::string& s) { return std::to_string(std::count(s.begin(), s.end(), '\n')) + " lines, " + s.substr(0, s.find('\n')); };
        if (ascii && family(g.name) != "uni")
        {
            // One code unit per character in both, so even the positions are the same.
            same(g, "match", o.name, r.match, base.match);
            same(g, "validate", o.name, r.validate, base.validate);
            same(g, "parse", o.name, r.parse, base.parse);
            same(g, "parse_as_tree", o.name, r.tree, base.tree);
            sim::probe("other encoding, ASCII");
        }
        else
        {
            // The expected literals of an error, which are not ASCII, and the positions differ.
            same(g, "match", o.name, r.match, base.match);
            same(g, "validate", o.name, lines(r.validate), lines(base.validate));
            auto last = [](const std::string& s) { return s.substr(s.rfind('\n') + 1); };
            if (ascii)
            {
                same(g, "parse", o.name, last(r.parse), last(base.parse));
                same(g, "parse_as_tree", o.name, last(r.tree), last(base.tree));
            }
            sim::probe("other encoding, Unicode");
        }
    }
    if (user.live != 0)
        sim::violate("value-leak", "%lld values are still alive", (long long)user.live);
    sim::state(sim::hash(base.trace, sim::hash(g.name)));
}
