#pragma once
#include <tsl/hopscotch_set.h>
namespace tsl {
template <class K, class H, class E, class A> using sparse_set = hopscotch_set<K, H, E, A>;
}
