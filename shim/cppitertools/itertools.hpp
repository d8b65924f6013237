// Stand-in for the one feature of cppitertools that liblsqecc uses (the submodule is empty in this sandbox).
#pragma once
#include <cstddef>
#include <iterator>
#include <tuple>
#include <utility>
namespace iter {
template <class C> struct enumerate_view {
    C c;
    struct it {
        std::size_t i; decltype(std::begin(std::declval<C&>())) p;
        auto operator*() const { return std::pair<std::size_t, decltype(*p)>(i, *p); }
        it& operator++() { ++i; ++p; return *this; }
        bool operator!=(const it& o) const { return p != o.p; }
    };
    it begin() { return { 0, std::begin(c) }; }
    it end() { return { 0, std::end(c) }; }
};
template <class C> enumerate_view<C> enumerate(C&& c) { return { std::forward<C>(c) }; }
}
