// C04: one text, one grammar, every kind of input; what each action reports.
#pragma once
#define ALL_ENCODINGS
#include "run_actions.hpp"
#include "simio.hpp"
#include <lexy/input/file.hpp>

namespace gram
{
// Runs the function with the bytes in a simulated file (path given) / on a simulated standard input.
void with_file(const std::string& bytes, const std::function<void(const char*)>& f);
void with_stdin(const std::string& bytes, const std::function<void()>& f);

struct c04_ops
{
    bool (*run)(input_kind, const std::string& text, unsigned& what, record& out);
};

template <typename P, typename E>
bool run_kind(input_kind k, const std::string& text, unsigned& what, record& r)
{
    using C = typename E::char_type;
    auto u  = to_units<E>(text);
    switch (k)
    {
    case in_string: {
        // In a block of its exact size.
        std::unique_ptr<C[]> data(new C[u.size()]);
        std::copy(u.begin(), u.end(), data.get());
        lexy::string_input<E> input(data.get(), u.size());
        run_actions<P>(input, static_cast<const C*>(data.get()), u.size(), what, r);
        return true;
    }
    case in_buffer: {
        lexy::buffer<E> input(u.data(), u.size());
        run_actions<P>(input, input.data(), input.size(), what, r);
        return true;
    }
    case in_list: {
        std::list<C>                                                 l(u.begin(), u.end());
        lexy::range_input<E, typename std::list<C>::const_iterator> input(l.cbegin(), l.cend());
        run_actions<P>(input, l.cbegin(), u.size(), what, r);
        return true;
    }
    case in_sentinel: {
        using It = typename std::forward_list<C>::const_iterator;
        std::forward_list<C>                 l(u.begin(), u.end());
        lexy::range_input<E, It, end_at<It>> input(l.cbegin(), end_at<It>{l.cend()});
        run_actions<P, 5>(input, l.cbegin(), u.size(), what, r);
        return true;
    }
    case in_vector: {
        using It = typename std::vector<C>::const_iterator;
        std::vector<C>           l(u.begin(), u.end());
        lexy::range_input<E, It> input(l.cbegin(), l.cend());
        run_actions<P, 12>(input, l.cbegin(), u.size(), what, r);
        return true;
    }
    case in_custom: {
        chk_input<E> input(u);
        run_actions<P>(input, input.begin(), u.size(), what, r);
        return true;
    }
    case in_shell: {
        // A session per action: each has to ask for the lines itself.
        for (unsigned bit = 1; bit < 32; bit *= 2)
            if (what & bit)
            {
                typename typed_prompt<E>::session s;
                s.text  = u;
                s.eager = sim::choose(2, "prompt closes eagerly");
                lexy_ext::shell<typed_prompt<E>> shell(typed_prompt<E>{&s});
                auto                             input = shell.prompt_for_input();
                unsigned                         one   = bit;
                run_actions<P>(input, input.position(), u.size(), one, r);
            }
        return true;
    }
    case in_lexeme: {
        auto                                 before = sim::choose(10, "before"), after = sim::choose(10, "after");
        units<E>                             all(before, C('x'));
        all += u;
        all.append(after, C(sim::choose(2, "after what") ? '"' : 'a'));
        lexy::string_input<E>                outer(all.data(), all.size());
        lexy::lexeme_input                   input(outer, all.data() + before, all.data() + before + u.size());
        run_actions<P, 15>(input, static_cast<const C*>(all.data()) + before, u.size(), what, r);
        return true;
    }
    case in_file:
    case in_stdin: {
        // The bytes of the text in little endian, delivered by a device that may do so in pieces.
        std::string bytes;
        for (auto c : u)
            for (std::size_t i = 0; i < sizeof(C); ++i)
                bytes += char((typename E::int_type(c) >> (sizeof(C) > 1 ? 8 * i : 0)) & 0xFF);
        bool done = true;
        auto use  = [&](auto&& result) {
            if (!result)
            {
                done = false; // the device failed
                return;
            }
            auto& input = result.buffer();
            if (input.size() != u.size())
                sim::violate("content-mismatch", "a buffer of %zu units holds the %zu units of a file", input.size(), u.size());
            run_actions<P>(input, input.data(), input.size(), what, r);
        };
        if (k == in_file)
            with_file(bytes, [&](const char* path) {
                auto result = lexy::read_file<E, lexy::encoding_endianness::little>(path);
                sim::fs.on  = false;
                use(result);
            });
        else
            with_stdin(bytes, [&] { use(lexy::read_stdin<E, lexy::encoding_endianness::little>()); });
        return done;
    }
    case in_argv:
        if constexpr (std::is_same_v<C, char>)
        {
            // The arguments are separated by null characters; the last one is not terminated by one.
            std::vector<std::string> args(1);
            for (char c : u)
                if (c == '\0')
                    args.emplace_back();
                else
                    args.back() += c;
            std::string        program = "program";
            std::vector<char*> argv{program.data()};
            for (auto& a : args)
                argv.push_back(a.data());
            argv.push_back(nullptr);
            lexy::argv_input<E> input(int(argv.size()) - 1, argv.data());
            auto                begin = lexy::argv_begin(int(argv.size()) - 1, argv.data());
            run_actions<P, 5>(input, begin, u.size(), what, r);
            return true;
        }
        return false;
    default:
        return false;
    }
}

template <typename P, typename E>
void* make_ops()
{
    static c04_ops o{&run_kind<P, E>};
    return &o;
}
} // namespace gram
