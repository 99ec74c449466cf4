// @prop C23
// @mode pass
// @probe names
// @what the integers that iterators, nodes and containers store sizes and indices in
#include <boost/segmented_tree/seq.hpp>
#include <limits>
#include <type_traits>
#include <utility>
namespace st = boost::segmented_tree;
template <class T, std::size_t S, std::size_t B> struct chk {
  using C = st::seq<T, std::allocator<T>, S, B>;
  using TR = st::detail::static_traits_t<T, void*, std::size_t, S, B>;
  using node = typename TR::node;
  using seg = decltype(TR::iterator_entry::segment);
  using leaf = decltype(TR::iterator_entry::leaf);
  template <class I> static constexpr std::size_t top() { return (std::size_t)std::numeric_limits<I>::max(); }
  using seg_index = decltype(seg::index);
  using seg_length = decltype(seg::length);
  using leaf_index = decltype(leaf::index);
  using position = decltype(TR::iterator_data::pos);
  using count = typename std::decay<decltype(std::declval<node&>().sizes[0])>::type;
#ifndef PROBE
  static_assert(top<seg_index>() >= TR::segment_max(), "the index in a segment, one past the end included");
  static_assert(top<seg_length>() >= TR::segment_max(), "the length of a segment");
  static_assert(top<leaf_index>() >= TR::base_max(), "the index in a leaf");
  static_assert(top<position>() >= top<typename C::difference_type>(), "the position of an iterator");
  static_assert(top<count>() >= top<typename C::difference_type>(), "the number of elements below a child");
#endif
};
template struct chk<char, 512, 512>;
#ifndef PROBE
template struct chk<char, 0, 0>;
template struct chk<char, 255, 512>;
template struct chk<char, 256, 4096>;
template struct chk<char, 65535, 4096>;
template struct chk<char, 65536, 65536>;
template struct chk<char, 1u << 20, 1u << 21>;
template struct chk<int, (std::size_t(1) << 34), 512>;
#endif
