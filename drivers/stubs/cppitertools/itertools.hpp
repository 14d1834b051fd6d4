// cppitertools is an empty submodule in this sandbox: the one function /repo uses from it, for vectors.
#pragma once
#include <cstddef>
#include <utility>
#include <vector>
namespace iter {
template<class T> std::vector<std::pair<std::size_t, const T&>> enumerate(const std::vector<T>& v)
{
    std::vector<std::pair<std::size_t, const T&>> out;
    for (std::size_t i = 0; i < v.size(); i++) out.emplace_back(i, v[i]);
    return out;
}
}
