// Stand-in for PEGTL's ABNF core rules (submodule absent): those that /repo uses.
#ifndef VERIF_PEGTL_ABNF_HPP
#define VERIF_PEGTL_ABNF_HPP
#include <tao/pegtl.hpp>
namespace tao
{
namespace pegtl
{
    namespace abnf
    {
        struct ALPHA : ascii::alpha {
        };
        struct DIGIT : ascii::digit {
        };
        struct HEXDIG : sor<ascii::range<'0', '9'>, ascii::range<'a', 'f'>, ascii::range<'A', 'F'> > {
        };
        struct SP : ascii::one<' '> {
        };
        struct HTAB : ascii::one<'\t'> {
        };
        struct WSP : ascii::one<' ', '\t'> {
        };
        struct VCHAR : ascii::range<'\x21', '\x7e'> {
        };
    }
}
}
#endif
