#pragma once
namespace tlx {
template <class A, class B> inline auto div_ceil(const A& n, const B& k) -> decltype(n + k) { return (n + k - 1) / k; }
}
