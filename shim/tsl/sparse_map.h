#pragma once
#include <tsl/hopscotch_map.h>
namespace tsl {
template <class K, class V, class H, class E, class A> using sparse_map = hopscotch_map<K, V, H, E, A>;
}
