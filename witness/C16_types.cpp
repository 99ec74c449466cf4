// @prop C16
// @mode pass
// @what member types, iterator category, conversions, return types of every public operation
#include <boost/segmented_tree/seq.hpp>
#include <vector>
#include <string>
#include <list>
using boost::segmented_tree::seq;
#define SAME(T, ...) static_assert(std::is_same<T, __VA_ARGS__>::value, #T)
template <class T, class A, std::size_t S, std::size_t B> struct check {
  using C = seq<T, A, S, B>;
  using AT = std::allocator_traits<A>;
  using I = typename C::iterator;
  using K = typename C::const_iterator;
  using N = typename C::size_type;
  SAME(typename C::value_type, T);
  SAME(typename C::allocator_type, A);
  SAME(typename C::size_type, typename AT::size_type);
  SAME(typename C::difference_type, typename AT::difference_type);
  SAME(typename C::reference, T&);
  SAME(typename C::const_reference, T const&);
  SAME(typename C::pointer, typename AT::pointer);
  SAME(typename C::const_pointer, typename AT::const_pointer);
  SAME(typename C::reverse_iterator, std::reverse_iterator<I>);
  SAME(typename C::const_reverse_iterator, std::reverse_iterator<K>);
  SAME(typename C::stored_allocator_type, A);
  template <class X, class R, class P> struct it {
    using TR = std::iterator_traits<X>;
    static_assert(std::is_base_of<std::random_access_iterator_tag, typename TR::iterator_category>::value, "category");
    SAME(typename TR::value_type, T);
    SAME(typename TR::reference, R);
    SAME(typename TR::pointer, P);
    SAME(typename TR::difference_type, typename AT::difference_type);
    static_assert(std::is_default_constructible<X>::value, "");
    static_assert(std::is_nothrow_copy_constructible<X>::value, "");
    static_assert(std::is_nothrow_copy_assignable<X>::value, "");
    static_assert(std::is_trivially_destructible<X>::value, "");
    SAME(decltype(*std::declval<X const&>()), R);
    SAME(decltype(std::declval<X const&>().operator->()), P);
    SAME(decltype(std::declval<X const&>()[1]), R);
    SAME(decltype(++std::declval<X&>()), X&);
    SAME(decltype(--std::declval<X&>()), X&);
    SAME(decltype(std::declval<X&>()++), X);
    SAME(decltype(std::declval<X&>()--), X);
    SAME(decltype(std::declval<X&>() += 1), X&);
    SAME(decltype(std::declval<X&>() -= 1), X&);
    SAME(decltype(std::declval<X const&>() + 1), X);
    SAME(decltype(1 + std::declval<X const&>()), X);
    SAME(decltype(std::declval<X const&>() - 1), X);
    SAME(decltype(std::declval<X const&>().begin()), P);
    SAME(decltype(std::declval<X const&>().end()), P);
    SAME(decltype(std::declval<X const&>().current()), P);
    SAME(decltype(std::declval<X&>().move_before_segment()), X&);
    SAME(decltype(std::declval<X&>().move_before_segment(1)), X&);
    SAME(decltype(std::declval<X&>().move_after_segment()), X&);
    SAME(decltype(std::declval<X&>().move_after_segment(1)), X&);
    SAME(decltype(std::declval<X const&>().before_segment()), X);
    SAME(decltype(std::declval<X const&>().before_segment(1)), X);
    SAME(decltype(std::declval<X const&>().after_segment()), X);
    SAME(decltype(std::declval<X const&>().after_segment(1)), X);
    static const bool ok = true;
  };
  static_assert(it<I, T&, typename AT::pointer>::ok, "");
  static_assert(it<K, T const&, typename AT::const_pointer>::ok, "");
  // conversions: one way, implicit
  static_assert(std::is_convertible<I, K>::value, "iterator -> const_iterator");
  static_assert(!std::is_convertible<K, I>::value, "no const_iterator -> iterator");
  static_assert(!std::is_constructible<I, K const&>::value, "no const_iterator -> iterator");
  static_assert(!std::is_assignable<I&, K>::value, "no const_iterator -> iterator");
  static_assert(std::is_assignable<K&, I>::value, "");
  static_assert(!std::is_convertible<T*, I>::value && !std::is_convertible<int, I>::value, "");
  // mixed comparison, both orders
  template <class X, class Y> struct cmp {
    SAME(decltype(std::declval<X const&>() == std::declval<Y const&>()), bool);
    SAME(decltype(std::declval<X const&>() != std::declval<Y const&>()), bool);
    SAME(decltype(std::declval<X const&>() < std::declval<Y const&>()), bool);
    SAME(decltype(std::declval<X const&>() > std::declval<Y const&>()), bool);
    SAME(decltype(std::declval<X const&>() <= std::declval<Y const&>()), bool);
    SAME(decltype(std::declval<X const&>() >= std::declval<Y const&>()), bool);
    SAME(decltype(std::declval<X const&>() - std::declval<Y const&>()), typename C::difference_type);
    static const bool ok = true;
  };
  static_assert(cmp<I, I>::ok && cmp<K, K>::ok && cmp<I, K>::ok && cmp<K, I>::ok, "");
  // access
  using M = C&;
  using Q = C const&;
  SAME(decltype(std::declval<M>().begin()), I);
  SAME(decltype(std::declval<Q>().begin()), K);
  SAME(decltype(std::declval<M>().end()), I);
  SAME(decltype(std::declval<Q>().end()), K);
  SAME(decltype(std::declval<M>().penultimate()), I);
  SAME(decltype(std::declval<Q>().penultimate()), K);
  SAME(decltype(std::declval<M>().nth(0)), I);
  SAME(decltype(std::declval<Q>().nth(0)), K);
  SAME(decltype(std::declval<M>().rbegin()), std::reverse_iterator<I>);
  SAME(decltype(std::declval<Q>().rbegin()), std::reverse_iterator<K>);
  SAME(decltype(std::declval<M>().rend()), std::reverse_iterator<I>);
  SAME(decltype(std::declval<Q>().rend()), std::reverse_iterator<K>);
  SAME(decltype(std::declval<M>().cbegin()), K);
  SAME(decltype(std::declval<Q>().cbegin()), K);
  SAME(decltype(std::declval<M>().cend()), K);
  SAME(decltype(std::declval<Q>().cend()), K);
  SAME(decltype(std::declval<M>().cpenultimate()), K);
  SAME(decltype(std::declval<Q>().cpenultimate()), K);
  SAME(decltype(std::declval<M>().crbegin()), std::reverse_iterator<K>);
  SAME(decltype(std::declval<Q>().crend()), std::reverse_iterator<K>);
  SAME(decltype(std::declval<M>()[0]), T&);
  SAME(decltype(std::declval<Q>()[0]), T const&);
  SAME(decltype(std::declval<M>().at(0)), T&);
  SAME(decltype(std::declval<Q>().at(0)), T const&);
  SAME(decltype(std::declval<M>().front()), T&);
  SAME(decltype(std::declval<Q>().front()), T const&);
  SAME(decltype(std::declval<M>().back()), T&);
  SAME(decltype(std::declval<Q>().back()), T const&);
  SAME(decltype(std::declval<Q>().size()), N);
  SAME(decltype(std::declval<Q>().height()), N);
  SAME(decltype(std::declval<Q>().max_size()), N);
  SAME(decltype(std::declval<Q>().empty()), bool);
  SAME(decltype(std::declval<Q>().index_of(std::declval<K>())), N);
  SAME(decltype(std::declval<M>().index_of(std::declval<I>())), N);
  SAME(decltype(std::declval<Q>().get_allocator()), A);
  SAME(decltype(std::declval<Q>().get_stored_allocator()), A const&);
  SAME(decltype(std::declval<M>().get_stored_allocator()), A const&);
  // modifiers take const_iterator and return iterator
  SAME(decltype(std::declval<M>().insert(std::declval<K>(), std::declval<T const&>())), I);
  SAME(decltype(std::declval<M>().insert(std::declval<I>(), std::declval<T const&>())), I);
  SAME(decltype(std::declval<M>().insert(std::declval<K>(), std::declval<T>())), I);
  SAME(decltype(std::declval<M>().insert(std::declval<K>(), N(1), std::declval<T const&>())), I);
  SAME(decltype(std::declval<M>().insert(std::declval<K>(), std::declval<T*>(), std::declval<T*>())), I);
  SAME(decltype(std::declval<M>().insert(std::declval<K>(), std::declval<std::initializer_list<T>>())), I);
  SAME(decltype(std::declval<M>().emplace(std::declval<K>(), std::declval<T const&>())), I);
  SAME(decltype(std::declval<M>().erase(std::declval<K>())), I);
  SAME(decltype(std::declval<M>().erase(std::declval<K>(), std::declval<K>())), I);
  SAME(decltype(std::declval<M>() = std::declval<Q>()), C&);
  SAME(decltype(std::declval<M>() = std::declval<C>()), C&);
  SAME(decltype(std::declval<M>() = std::declval<std::initializer_list<T>>()), C&);
  SAME(decltype(std::declval<Q>() == std::declval<Q>()), bool);
  SAME(decltype(std::declval<Q>() != std::declval<Q>()), bool);
  SAME(decltype(std::declval<Q>() < std::declval<Q>()), bool);
  SAME(decltype(std::declval<Q>() > std::declval<Q>()), bool);
  SAME(decltype(std::declval<Q>() <= std::declval<Q>()), bool);
  SAME(decltype(std::declval<Q>() >= std::declval<Q>()), bool);
  static_assert(!std::is_assignable<decltype(*std::declval<K>()), T>::value, "");
  static_assert(std::is_assignable<decltype(*std::declval<I>()), T>::value, "");
  // constructors
  static_assert(std::is_default_constructible<C>::value, "");
  static_assert(std::is_copy_constructible<C>::value && std::is_move_constructible<C>::value, "");
  static_assert(std::is_copy_assignable<C>::value && std::is_move_assignable<C>::value, "");
  static_assert(std::is_constructible<C, N, T const&>::value, "");
  static_assert(std::is_constructible<C, N, T const&, A const&>::value, "");
  static_assert(std::is_constructible<C, N>::value, "");
  static_assert(std::is_constructible<C, N, A const&>::value, "");
  static_assert(std::is_constructible<C, A const&>::value, "");
  static_assert(std::is_constructible<C, C const&, A const&>::value, "");
  static_assert(std::is_constructible<C, C&&, A const&>::value, "");
  static_assert(std::is_constructible<C, T*, T*>::value, "");
  static_assert(std::is_constructible<C, T const*, T const*, A const&>::value, "");
  static_assert(std::is_constructible<C, std::initializer_list<T>>::value, "");
  static_assert(std::is_constructible<C, std::initializer_list<T>, A const&>::value, "");
  static_assert(std::is_convertible<std::initializer_list<T>, C>::value, "");
  static_assert(!std::is_convertible<N, C>::value, "a count does not convert to a sequence");
  static_assert(!std::is_convertible<A const&, C>::value, "an allocator does not convert to a sequence");
  static_assert(std::is_nothrow_destructible<C>::value, "");
  static const bool ok = true;
};
struct Big { char c[3000]; bool operator==(Big const&) const; bool operator<(Big const&) const; };
static_assert(check<int, std::allocator<int>, 1024, 768>::ok, "");
static_assert(check<std::string, std::allocator<std::string>, 1024, 768>::ok, "");
static_assert(check<Big, std::allocator<Big>, 0, 0>::ok, "");
static_assert(check<std::vector<int>, std::allocator<std::vector<int>>, 512, 512>::ok, "");
// (count, value) is not taken for an iterator range
using S = seq<int>;
void overload() {
  S a(3, 4);
  a.assign(3, 4);
  S::iterator i = a.insert(a.begin(), 3, 4);
  S b(a.begin(), a.end());
  S c{1, 2, 3};
  std::list<short> l;
  S d(l.begin(), l.end());
  d.assign(l.begin(), l.end());
  i = d.insert(d.cbegin(), l.begin(), l.end());
  d.assign({1, 2});
  d = {1, 2, 3};
  using std::swap;
  swap(a, b);
  S::const_iterator k = i, k2;
  k2 = i;
  (void)(k == k2);
}
// defaults of the template
SAME(seq<int>, seq<int, std::allocator<int>, 1024, 768>);
