// @prop C16
// @mode pass
// @what noexcept specifications follow the allocator's traits
#include <boost/segmented_tree/seq.hpp>
using boost::segmented_tree::seq;
template <class T, int F> struct A {
  // F bits: 1 pocma, 2 pocs, 4 throwing move-assign, 8 throwing swap, 16 throwing default ctor, 32 pocca
  using value_type = T;
  template <class U> struct rebind { using other = A<U, F>; };
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & 1) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & 2) != 0>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & 32) != 0>;
  A() noexcept((F & 16) == 0) {}
  A(A const&) noexcept {}
  template <class U> A(A<U, F> const&) noexcept {}
  A& operator=(A const&) noexcept((F & 4) == 0) { return *this; }
  A& operator=(A&&) noexcept((F & 4) == 0) { return *this; }
  T* allocate(std::size_t);
  void deallocate(T*, std::size_t) noexcept;
  friend void swap(A&, A&) noexcept((F & 8) == 0) {}
  bool operator==(A const&) const noexcept { return true; }
  bool operator!=(A const&) const noexcept { return false; }
};
template <int F> struct N {
  using C = seq<int, A<int, F>>;
  static_assert(std::is_nothrow_move_constructible<C>::value, "move construction never throws with a conforming allocator");
  static_assert(std::is_nothrow_move_assignable<C>::value == ((F & 1) && !(F & 4)), "move assignment: propagating and no-throw");
  static_assert(noexcept(std::declval<C&>().swap(std::declval<C&>())) == (!(F & 2) || !(F & 8)), "swap");
  static_assert(noexcept(swap(std::declval<C&>(), std::declval<C&>())) == (!(F & 2) || !(F & 8)), "free swap");
  static_assert(std::is_nothrow_default_constructible<C>::value == !(F & 16), "default construction");
  static_assert(std::is_nothrow_destructible<C>::value, "");
  using Q = C const&;
  using M = C&;
#define NE(e) static_assert(noexcept(e), #e)
  NE(std::declval<M>().begin()); NE(std::declval<Q>().begin()); NE(std::declval<Q>().cbegin());
  NE(std::declval<M>().end()); NE(std::declval<Q>().end()); NE(std::declval<Q>().cend());
  NE(std::declval<M>().penultimate()); NE(std::declval<Q>().penultimate()); NE(std::declval<Q>().cpenultimate());
  NE(std::declval<M>().rbegin()); NE(std::declval<Q>().rbegin()); NE(std::declval<Q>().crbegin());
  NE(std::declval<M>().rend()); NE(std::declval<Q>().rend()); NE(std::declval<Q>().crend());
  NE(std::declval<M>().nth(0)); NE(std::declval<Q>().nth(0));
  NE(std::declval<Q>().size()); NE(std::declval<Q>().empty()); NE(std::declval<Q>().height()); NE(std::declval<Q>().max_size());
  NE(std::declval<Q>().get_allocator()); NE(std::declval<Q>().get_stored_allocator());
  NE(std::declval<M>().clear());
  NE(std::declval<M>().index_of(std::declval<typename C::iterator>()));
  NE(std::declval<Q>().index_of(std::declval<typename C::const_iterator>()));
  static_assert(!noexcept(std::declval<M>().at(0)), "at reports an error by an exception");
  static_assert(!noexcept(std::declval<M>().push_back(1)), "push_back allocates");
  static_assert(!noexcept(std::declval<M>().emplace_front(1)), "allocates");
  static_assert(!noexcept(std::declval<M>().insert(std::declval<typename C::iterator>(), 1)), "allocates");
  static_assert(!noexcept(std::declval<M>() = std::declval<Q>()), "copying allocates");
  static_assert(!noexcept(C(std::declval<Q>())), "copying allocates");
  static_assert(!noexcept(std::declval<M>().resize(1)), "allocates");
  static const bool ok = true;
};
template <int F> struct all { static const bool ok = N<F>::ok && all<F - 1>::ok; };
template <> struct all<-1> { static const bool ok = true; };
static_assert(all<63>::ok, "");
