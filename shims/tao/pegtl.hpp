// Stand-in for PEGTL 2.8 (submodule absent): the combinators and actions that /repo uses.
// Every rule rewinds when it fails, so the rewind modes of the original are not needed.
#ifndef VERIF_PEGTL_HPP
#define VERIF_PEGTL_HPP

#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cxxabi.h>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

namespace tao
{
namespace pegtl
{
    enum class apply_mode : bool { action = true, nothing = false };
    enum class rewind_mode : char { active, required, dontcare };
    enum class tracking_mode : bool { eager, lazy };

    struct position {
        std::size_t byte;
        std::size_t line;
        std::size_t byte_in_line;
        std::string source;
    };

    template <tracking_mode = tracking_mode::eager>
    class memory_input
    {
        const char* b_;
        const char* c_;
        const char* e_;
        std::string source_;

    public:
        memory_input(const char* b, const char* e, std::string source)
            : b_(b), c_(b), e_(e), source_(std::move(source))
        {
        }
        memory_input(const std::string& s, std::string source)
            : memory_input(s.data(), s.data() + s.size(), std::move(source))
        {
        }
        memory_input(const char* s, std::string source)
            : memory_input(s, s + std::char_traits<char>::length(s), std::move(source))
        {
        }
        memory_input(std::string&&, std::string) = delete;

        bool empty() const { return c_ == e_; }
        std::size_t size(std::size_t = 0) const { return static_cast<std::size_t>(e_ - c_); }
        const char* current() const { return c_; }
        const char* begin() const { return b_; }
        const char* end(std::size_t = 0) const { return e_; }
        char peek_char(std::size_t o = 0) const { return c_[o]; }
        std::uint8_t peek_byte(std::size_t o = 0) const { return static_cast<std::uint8_t>(c_[o]); }
        void bump(std::size_t n = 1) { c_ += n; }
        void rewind(const char* to) { c_ = to; }
        const std::string& source() const { return source_; }
        pegtl::position at(const char* p) const
        {
            pegtl::position r{ static_cast<std::size_t>(p - b_), 1, 0, source_ };
            for (const char* i = b_; i < p; ++i) {
                if (*i == '\n') {
                    r.line++;
                    r.byte_in_line = 0;
                } else {
                    r.byte_in_line++;
                }
            }
            return r;
        }
        pegtl::position position() const { return at(c_); }
    };

    template <typename Input>
    class action_input
    {
        const char* b_;
        const Input& in_;

    public:
        using input_t = Input;
        action_input(const char* b, const Input& in) : b_(b), in_(in) {}
        const char* begin() const { return b_; }
        const char* end() const { return in_.current(); }
        bool empty() const { return begin() == end(); }
        std::size_t size() const { return static_cast<std::size_t>(end() - begin()); }
        std::string string() const { return std::string(begin(), end()); }
        pegtl::position position() const { return in_.at(b_); }
        const Input& input() const { return in_; }
    };

    struct parse_error : std::runtime_error {
        pegtl::position pos;
        template <typename Input>
        parse_error(const std::string& msg, const Input& in)
            : std::runtime_error(in.source() + ":" + std::to_string(in.position().line) + ":"
                + std::to_string(in.position().byte_in_line) + "(" + std::to_string(in.position().byte) + "): " + msg)
            , pos(in.position())
        {
        }
    };

    namespace internal
    {
        inline std::string demangle(const char* name)
        {
            int status = 0;
            char* d = abi::__cxa_demangle(name, nullptr, nullptr, &status);
            std::string r = status == 0 && d ? d : name;
            std::free(d);
            return r;
        }

        template <typename... Ts>
        struct voider {
            using type = void;
        };
        template <typename... Ts>
        using void_t = typename voider<Ts...>::type;

        template <typename, typename A, typename In, typename... St>
        struct has_apply : std::false_type {
        };
        template <typename A, typename In, typename... St>
        struct has_apply<void_t<decltype(A::apply(std::declval<const In&>(), std::declval<St&>()...))>, A, In, St...>
            : std::true_type {
        };
        template <typename, typename A, typename... St>
        struct has_apply0 : std::false_type {
        };
        template <typename A, typename... St>
        struct has_apply0<void_t<decltype(A::apply0(std::declval<St&>()...))>, A, St...> : std::true_type {
        };
        template <typename, typename A>
        struct has_change : std::false_type {
        };
        template <typename A>
        struct has_change<void_t<typename A::verif_changes_state>, A> : std::true_type {
        };

        template <int N>
        struct prio : prio<N - 1> {
        };
        template <>
        struct prio<0> {
        };

        template <typename A, typename In, typename... St>
        auto act(prio<2>, const char* b, const In& in, St&... st) ->
            typename std::enable_if<has_apply<void, A, action_input<In>, St...>::value>::type
        {
            A::apply(action_input<In>(b, in), st...);
        }
        template <typename A, typename In, typename... St>
        auto act(prio<1>, const char*, const In&, St&... st) ->
            typename std::enable_if<has_apply0<void, A, St...>::value>::type
        {
            A::apply0(st...);
        }
        template <typename A, typename In, typename... St>
        void act(prio<0>, const char*, const In&, St&...)
        {
        }
    }

    // Rule and then its action, with the state as it is
    template <typename Rule, apply_mode M, template <typename> class Action, typename In, typename... St>
    bool match_here(In& in, St&... st)
    {
        const char* const b = in.current();
        if (!Rule::template match<M, Action>(in, st...)) {
            in.rewind(b);
            return false;
        }
        if (M == apply_mode::action)
            internal::act<Action<Rule> >(internal::prio<2>(), b, in, st...);
        return true;
    }

    namespace internal
    {
        template <bool>
        struct dispatch {
            template <typename Rule, apply_mode M, template <typename> class Action, typename In, typename... St>
            static bool go(In& in, St&... st)
            {
                return match_here<Rule, M, Action>(in, st...);
            }
        };
        template <>
        struct dispatch<true> {
            template <typename Rule, apply_mode M, template <typename> class Action, typename In, typename... St>
            static bool go(In& in, St&... st)
            {
                return Action<Rule>::template change<Rule, M, Action>(in, st...);
            }
        };
    }

    template <typename Rule, apply_mode M, template <typename> class Action, typename In, typename... St>
    bool match(In& in, St&... st)
    {
        return internal::dispatch<internal::has_change<void, Action<Rule> >::value>::template go<Rule, M, Action>(
            in, st...);
    }

    template <typename Rule>
    struct nothing {
    };

    template <typename NewState>
    struct change_state {
        using verif_changes_state = void;
        template <typename Rule, apply_mode M, template <typename> class Action, typename In, typename... St>
        static bool change(In& in, St&... st)
        {
            NewState s(static_cast<const In&>(in), st...);
            const char* const b = in.current();
            if (!match_here<Rule, M, Action>(in, s)) {
                in.rewind(b);
                return false;
            }
            if (M == apply_mode::action)
                Action<Rule>::success(static_cast<const In&>(in), s, st...);
            return true;
        }
        template <typename In, typename... St>
        static void success(const In& in, NewState& s, St&... st)
        {
            s.success(in, st...);
        }
    };

    template <typename NewState>
    struct change_states {
        using verif_changes_state = void;
        template <typename Rule, apply_mode M, template <typename> class Action, typename In, typename... St>
        static bool change(In& in, St&... st)
        {
            NewState s{};
            const char* const b = in.current();
            if (!match_here<Rule, M, Action>(in, s)) {
                in.rewind(b);
                return false;
            }
            if (M == apply_mode::action)
                Action<Rule>::success(static_cast<const In&>(in), s, st...);
            return true;
        }
    };

#define VERIF_MATCH template <apply_mode M, template <typename> class Action, typename In, typename... St> static bool match

    template <typename... Rs>
    struct seq;
    template <>
    struct seq<> {
        VERIF_MATCH(In&, St&...) { return true; }
    };
    template <typename R, typename... Rs>
    struct seq<R, Rs...> {
        VERIF_MATCH(In& in, St&... st)
        {
            const char* const b = in.current();
            if (pegtl::match<R, M, Action>(in, st...) && seq<Rs...>::template match<M, Action>(in, st...))
                return true;
            in.rewind(b);
            return false;
        }
    };

    template <typename... Rs>
    struct sor;
    template <>
    struct sor<> {
        VERIF_MATCH(In&, St&...) { return false; }
    };
    template <typename R, typename... Rs>
    struct sor<R, Rs...> {
        VERIF_MATCH(In& in, St&... st)
        {
            return pegtl::match<R, M, Action>(in, st...) || sor<Rs...>::template match<M, Action>(in, st...);
        }
    };

    template <typename... Rs>
    struct star {
        VERIF_MATCH(In& in, St&... st)
        {
            for (const char* b = in.current(); seq<Rs...>::template match<M, Action>(in, st...); b = in.current())
                if (in.current() == b)
                    break;
            return true;
        }
    };

    template <typename... Rs>
    struct plus {
        VERIF_MATCH(In& in, St&... st)
        {
            return seq<Rs...>::template match<M, Action>(in, st...)
                && star<Rs...>::template match<M, Action>(in, st...);
        }
    };

    template <typename... Rs>
    struct opt {
        VERIF_MATCH(In& in, St&... st)
        {
            seq<Rs...>::template match<M, Action>(in, st...);
            return true;
        }
    };

    template <typename... Rs>
    struct at {
        VERIF_MATCH(In& in, St&... st)
        {
            const char* const b = in.current();
            const bool r = seq<Rs...>::template match<apply_mode::nothing, Action>(in, st...);
            in.rewind(b);
            return r;
        }
    };

    template <typename... Rs>
    struct not_at {
        VERIF_MATCH(In& in, St&... st) { return !at<Rs...>::template match<M, Action>(in, st...); }
    };

    // At most Max times, and not followed by one more
    template <unsigned Max, typename... Rs>
    struct rep_max {
        VERIF_MATCH(In& in, St&... st)
        {
            for (unsigned i = 0; i < Max; i++)
                if (!seq<Rs...>::template match<M, Action>(in, st...))
                    return true;
            return not_at<Rs...>::template match<M, Action>(in, st...);
        }
    };

    template <typename R>
    struct raise {
        VERIF_MATCH(In& in, St&...)
        {
            throw parse_error("parse error matching " + internal::demangle(typeid(R).name()), in);
        }
    };

    template <typename... Rs>
    struct must;
    template <>
    struct must<> {
        VERIF_MATCH(In&, St&...) { return true; }
    };
    template <typename R, typename... Rs>
    struct must<R, Rs...> {
        VERIF_MATCH(In& in, St&... st)
        {
            if (!pegtl::match<R, M, Action>(in, st...))
                raise<R>::template match<M, Action>(in, st...);
            return must<Rs...>::template match<M, Action>(in, st...);
        }
    };

    template <typename C, typename... Rs>
    struct if_must : seq<C, must<Rs...> > {
    };

    template <typename R, typename S>
    struct list : seq<R, star<S, R> > {
    };

    template <typename... Rs>
    struct try_catch {
        VERIF_MATCH(In& in, St&... st)
        {
            const char* const b = in.current();
            try {
                if (seq<Rs...>::template match<M, Action>(in, st...))
                    return true;
            } catch (const parse_error&) {
            }
            in.rewind(b);
            return false;
        }
    };

    struct success : seq<> {
    };
    struct failure : sor<> {
    };

    struct eof {
        VERIF_MATCH(In& in, St&...) { return in.empty(); }
    };

    namespace ascii
    {
        template <char... Cs>
        struct one {
            static bool in_set(char c)
            {
                for (const char d : { Cs... })
                    if (c == d)
                        return true;
                return false;
            }
            VERIF_MATCH(In& in, St&...)
            {
                if (in.empty() || !in_set(in.peek_char()))
                    return false;
                in.bump();
                return true;
            }
        };
        template <char... Cs>
        struct not_one {
            VERIF_MATCH(In& in, St&...)
            {
                if (in.empty() || one<Cs...>::in_set(in.peek_char()))
                    return false;
                in.bump();
                return true;
            }
        };
        template <char Lo, char Hi>
        struct range {
            VERIF_MATCH(In& in, St&...)
            {
                if (in.empty() || in.peek_char() < Lo || in.peek_char() > Hi)
                    return false;
                in.bump();
                return true;
            }
        };
        template <char Lo, char Hi>
        struct not_range {
            VERIF_MATCH(In& in, St&...)
            {
                if (in.empty() || (in.peek_char() >= Lo && in.peek_char() <= Hi))
                    return false;
                in.bump();
                return true;
            }
        };
        struct any {
            VERIF_MATCH(In& in, St&...)
            {
                if (in.empty())
                    return false;
                in.bump();
                return true;
            }
        };
        struct digit : range<'0', '9'> {
        };
        struct alpha : sor<range<'a', 'z'>, range<'A', 'Z'> > {
        };
        struct alnum : sor<range<'a', 'z'>, range<'A', 'Z'>, range<'0', '9'> > {
        };
        struct eol {
            VERIF_MATCH(In& in, St&...)
            {
                if (in.size() >= 1 && in.peek_char() == '\n') {
                    in.bump();
                    return true;
                }
                if (in.size() >= 2 && in.peek_char() == '\r' && in.peek_char(1) == '\n') {
                    in.bump(2);
                    return true;
                }
                return false;
            }
        };
        struct eolf : sor<eol, eof> {
        };
        template <char... Cs>
        struct string : seq<one<Cs>...> {
        };
    }
    using namespace ascii;

    namespace utf8
    {
        // Length of the code point at the start of the input (0 if there is no valid one)
        template <typename In>
        std::size_t peek(const In& in, char32_t& c)
        {
            const std::size_t n = in.size();
            if (n == 0)
                return 0;
            const char32_t c0 = in.peek_byte(0);
            if ((c0 & 0x80) == 0) {
                c = c0;
                return 1;
            }
            const auto tail = [&](std::size_t i) { return (in.peek_byte(i) & 0xC0) == 0x80; };
            const auto bits = [&](std::size_t i) { return static_cast<char32_t>(in.peek_byte(i) & 0x3F); };
            if ((c0 & 0xE0) == 0xC0 && n >= 2 && tail(1)) {
                c = ((c0 & 0x1F) << 6) | bits(1);
                return c >= 0x80 ? 2 : 0;
            }
            if ((c0 & 0xF0) == 0xE0 && n >= 3 && tail(1) && tail(2)) {
                c = ((c0 & 0x0F) << 12) | (bits(1) << 6) | bits(2);
                return c >= 0x800 && !(c >= 0xD800 && c <= 0xDFFF) ? 3 : 0;
            }
            if ((c0 & 0xF8) == 0xF0 && n >= 4 && tail(1) && tail(2) && tail(3)) {
                c = ((c0 & 0x07) << 18) | (bits(1) << 12) | (bits(2) << 6) | bits(3);
                return c >= 0x10000 && c <= 0x10FFFF ? 4 : 0;
            }
            return 0;
        }

        struct any {
            VERIF_MATCH(In& in, St&...)
            {
                char32_t c = 0;
                const std::size_t n = peek(in, c);
                in.bump(n);
                return n != 0;
            }
        };

        template <char32_t... Cs>
        struct ranges {
            static bool in_set(char32_t c)
            {
                const char32_t cs[] = { Cs... };
                const std::size_t n = sizeof...(Cs);
                for (std::size_t i = 0; i + 1 < n; i += 2)
                    if (cs[i] <= c && c <= cs[i + 1])
                        return true;
                return (n % 2) != 0 && c == cs[n - 1];
            }
            VERIF_MATCH(In& in, St&...)
            {
                char32_t c = 0;
                const std::size_t n = peek(in, c);
                if (n == 0 || !in_set(c))
                    return false;
                in.bump(n);
                return true;
            }
        };
    }

#undef VERIF_MATCH

    template <typename Rule, template <typename> class Action = nothing, typename In, typename... St>
    bool parse(In&& in, St&&... st)
    {
        return match<Rule, apply_mode::action, Action>(in, st...);
    }
}
}

#endif
