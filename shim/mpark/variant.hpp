#pragma once
#include <variant>
namespace mpark {
using std::bad_variant_access;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::monostate;
using std::variant;
using std::visit;
} // namespace mpark
