#include <tao/pegtl.hpp>
