// @prop C23
// @mode pass
// @probe names
// @what derived capacities over a sweep of targets and element sizes
#include <boost/segmented_tree/seq.hpp>
#include <limits>
#include <utility>
namespace st = boost::segmented_tree;
template <std::size_t Z> struct El { unsigned char b[Z]; };
template <class T, std::size_t S, std::size_t B> struct chk {
  using TR = st::detail::static_traits_t<T, void*, std::size_t, S, B>;
  using node = typename TR::node;
  static constexpr std::size_t smax = TR::segment_max(), smin = TR::segment_min(), bmax = TR::base_max(), bmin = TR::base_min();
#ifndef PROBE
  static_assert(smax >= 1, "a segment holds at least one element");
  static_assert(bmax >= 3, "an index node holds at least three children");
  static_assert(smin >= 1 && bmin >= 2, "minimum fill");
  static_assert(2 * smin >= smax && 2 * bmin >= bmax, "at least half");
  // splitting a full block with one more gives two blocks of at least the minimum and at most the maximum
  static_assert((smax + 1) / 2 >= smin && (smax + 1) - (smax + 1) / 2 >= smin && (smax + 1) - (smax + 1) / 2 <= smax, "segment split");
  static_assert((bmax + 1) / 2 >= bmin && (bmax + 1) - (bmax + 1) / 2 >= bmin && (bmax + 1) - (bmax + 1) / 2 <= bmax, "node split");
  // two minimum blocks less one fit one block and are at least the minimum
  static_assert(2 * smin - 1 <= smax && 2 * smin - 1 >= smin, "segment merge");
  static_assert(2 * bmin - 1 <= bmax && 2 * bmin - 1 >= bmin, "node merge");
  // every length and index fits
  static_assert(bmax <= std::numeric_limits<decltype(node::length_)>::max(), "length fits");
  static_assert(bmax <= std::numeric_limits<decltype(node::parent_index_)>::max(), "index fits");
  // the arrays hold a full node
  static_assert(sizeof(node::sizes) / sizeof(std::declval<node&>().sizes[0]) >= bmax, "sizes");
  static_assert(sizeof(node::pointers) / sizeof(std::declval<node&>().pointers[0]) >= bmax, "pointers");
  // a target that can be met is met: the block does not exceed it
  static_assert(smax == 1 || smax * sizeof(T) <= S, "segment target");
  static_assert(bmax == 3 || sizeof(node) <= B, "base target");
#else
  using n1 = decltype(node::length_); using n2 = decltype(node::parent_index_); using n3 = decltype(std::declval<node&>().sizes[0]); using n4 = decltype(std::declval<node&>().pointers[0]);
#endif
  static constexpr bool ok = true;
};
template <std::size_t... I> struct seqn {};
template <class T, std::size_t S> struct sweepB {
  static constexpr bool ok = chk<T, S, 0>::ok && chk<T, S, 1>::ok && chk<T, S, 15>::ok && chk<T, S, 16>::ok && chk<T, S, 17>::ok &&
    chk<T, S, 31>::ok && chk<T, S, 47>::ok && chk<T, S, 48>::ok && chk<T, S, 63>::ok && chk<T, S, 64>::ok && chk<T, S, 65>::ok && chk<T, S, 79>::ok && chk<T, S, 80>::ok && chk<T, S, 96>::ok && chk<T, S, 112>::ok &&
    chk<T, S, 512>::ok && chk<T, S, 768>::ok && chk<T, S, 1024>::ok && chk<T, S, 4096>::ok && chk<T, S, 65536>::ok && chk<T, S, 1048575>::ok && chk<T, S, 1048576>::ok && chk<T, S, 1048592>::ok && chk<T, S, 1048593>::ok &&
    chk<T, S, 1u << 22>::ok && chk<T, S, (std::size_t(1) << 40)>::ok && chk<T, S, ~std::size_t(0)>::ok && chk<T, S, ~std::size_t(0) / 2>::ok;
};
template <class T> struct sweepS {
  static constexpr bool ok = sweepB<T, 0>::ok && sweepB<T, 1>::ok && sweepB<T, 2>::ok && sweepB<T, 3>::ok && sweepB<T, sizeof(T)>::ok && sweepB<T, 2 * sizeof(T) - 1>::ok && sweepB<T, 2 * sizeof(T)>::ok && sweepB<T, 3 * sizeof(T)>::ok &&
    sweepB<T, 3 * sizeof(T) + 1>::ok && sweepB<T, 7 * sizeof(T)>::ok && sweepB<T, 512>::ok && sweepB<T, 1024>::ok && sweepB<T, 65536 * 2>::ok && sweepB<T, (std::size_t(1) << 40) + 7>::ok;
};
#ifdef PROBE
static_assert(chk<El<4>, 512, 512>::ok, "");
#else
static_assert(sweepS<El<1>>::ok && sweepS<El<2>>::ok && sweepS<El<3>>::ok && sweepS<El<4>>::ok && sweepS<El<8>>::ok && sweepS<El<24>>::ok && sweepS<El<100>>::ok && sweepS<El<1024>>::ok && sweepS<El<5000>>::ok, "");
#endif
