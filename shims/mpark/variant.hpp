// Stand-in for MPark.Variant (absent submodule): the standard library's variant under its name.
#ifndef VERIF_SHIM_MPARK_VARIANT_HPP
#define VERIF_SHIM_MPARK_VARIANT_HPP
#include <utility>
#include <cstdint>
#include <variant>
namespace mpark
{
    using std::bad_variant_access;
    using std::get;
    using std::get_if;
    using std::holds_alternative;
    using std::in_place_type_t;
    using std::monostate;
    using std::variant;
    using std::visit;
}
#endif
