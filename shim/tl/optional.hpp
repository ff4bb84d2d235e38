#pragma once
#include <optional>
namespace tl {
template <class T> using optional = std::optional<T>;
using std::make_optional;
using std::nullopt;
using std::nullopt_t;
} // namespace tl
