// @prop C18
// @mode pass
// @what minimal, stateful, non-default-constructible, throwing and fancy-pointer allocators work with every member
#include <boost/segmented_tree/seq.hpp>
#include <boost/interprocess/offset_ptr.hpp>
using boost::segmented_tree::seq;
template <class T> struct Minimal {
  using value_type = T;
  Minimal(int);
  template <class U> Minimal(Minimal<U> const&);
  T* allocate(std::size_t);
  void deallocate(T*, std::size_t);
};
template <class T, class U> bool operator==(Minimal<T> const&, Minimal<U> const&);
template <class T, class U> bool operator!=(Minimal<T> const&, Minimal<U> const&);
template <class T> struct Def : Minimal<T> {  // default constructible, hand-written rebind
  template <class U> struct rebind { using other = Def<U>; };
  Def() : Minimal<T>(0) {}
  template <class U> Def(Def<U> const&) : Minimal<T>(0) {}
};
template <class T> struct OnlyEq {  // C++11 operator pair, 32 bit sizes
  using value_type = T;
  using size_type = unsigned;
  using difference_type = int;
  template <class U> struct rebind { using other = OnlyEq<U>; };
  OnlyEq();
  template <class U> OnlyEq(OnlyEq<U> const&);
  T* allocate(unsigned);
  void deallocate(T*, unsigned);
};
template <class T, class U> bool operator==(OnlyEq<T> const&, OnlyEq<U> const&);
template <class T, class U> bool operator!=(OnlyEq<T> const&, OnlyEq<U> const&);
template <class T> struct Fancy {
  using value_type = T;
  using pointer = boost::interprocess::offset_ptr<T>;
  using const_pointer = boost::interprocess::offset_ptr<T const>;
  using void_pointer = boost::interprocess::offset_ptr<void>;
  using const_void_pointer = boost::interprocess::offset_ptr<void const>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  template <class U> struct rebind { using other = Fancy<U>; };
  Fancy();
  template <class U> Fancy(Fancy<U> const&);
  pointer allocate(std::size_t);
  void deallocate(pointer, std::size_t);
};
template <class T, class U> bool operator==(Fancy<T> const&, Fancy<U> const&);
template <class T, class U> bool operator!=(Fancy<T> const&, Fancy<U> const&);
template <class T> struct Prop : Def<T> {  // every propagation trait set
  template <class U> struct rebind { using other = Prop<U>; };
  using propagate_on_container_copy_assignment = std::true_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::true_type;
  Prop select_on_container_copy_construction() const;
  Prop(); Prop(Prop const&); Prop& operator=(Prop const&);
  template <class U> Prop(Prop<U> const&);
};
template <class T> struct Constructs : Def<T> {  // construct / destroy of its own
  template <class U> struct rebind { using other = Constructs<U>; };
  Constructs(); template <class U> Constructs(Constructs<U> const&);
  template <class U, class... A> void construct(U*, A&&...);
  template <class U> void destroy(U*);
};
template <class T> struct CopyOnlyAlloc : Def<T> {  // no assignment at all
  template <class U> struct rebind { using other = CopyOnlyAlloc<U>; };
  CopyOnlyAlloc(); CopyOnlyAlloc(CopyOnlyAlloc const&);
  template <class U> CopyOnlyAlloc(CopyOnlyAlloc<U> const&);
  CopyOnlyAlloc& operator=(CopyOnlyAlloc const&) = delete;
};
struct E { E(); E(int); E(E const&); E(E&&); E& operator=(E const&); E& operator=(E&&); ~E(); bool operator==(E const&) const; bool operator<(E const&) const; };
template <class S> void all(S& a, S& b, S const& k, typename S::value_type& t, typename S::allocator_type const& al, typename S::value_type const* p) {
  S c(al), d(3, t, al), e(3, al), f(p, p, al), g(k), h(k, al), i(std::move(a)), j(std::move(a), al), l({t, t}, al);
  a = k; a = std::move(b); a = {t, t}; a.assign(2, t); a.assign(p, p); a.assign({t});
  (void)a.get_allocator(); (void)a.get_stored_allocator(); (void)a.at(0); (void)k.at(0); (void)a[0]; (void)k[0]; (void)a.front(); (void)k.front(); (void)a.back(); (void)k.back();
  (void)*a.begin(); (void)*k.begin(); (void)*a.end(); (void)*k.end(); (void)*a.penultimate(); (void)*k.penultimate(); (void)*a.rbegin(); (void)*k.rbegin(); (void)*a.nth(0); (void)*k.nth(0);
  (void)a.index_of(a.begin()); (void)k.index_of(k.begin()); a.clear();
  (void)a.begin()->~E();
  a.insert(a.begin(), t); a.insert(a.begin(), std::move(t)); a.insert(a.begin(), 2, t); a.insert(a.begin(), p, p); a.insert(a.begin(), {t}); a.emplace(a.begin(), 1);
  a.erase(a.begin()); a.erase(a.begin(), a.end()); a.push_back(t); a.push_back(std::move(t)); a.pop_back(); a.push_front(t); a.push_front(std::move(t)); a.pop_front();
  a.emplace_back(1); a.emplace_front(1); a.resize(1); a.resize(1, t); a.swap(b); swap(a, b);
  a.merge(b); a.merge(std::move(b)); a.merge(b, std::less<E>()); a.splice(a.begin(), b); a.splice(a.begin(), b, b.begin()); a.splice(a.begin(), b, b.begin(), b.end());
  a.remove(t); a.remove_if([](E const&) { return false; }); a.reverse(); a.unique(); a.unique(std::equal_to<E>()); a.sort(); a.sort(std::less<E>());
  (void)(a == b); (void)(a != b); (void)(a < b); (void)(a > b); (void)(a <= b); (void)(a >= b);
  auto x = a.begin(); x += 3; x -= 3; (void)(x + 3); (void)(x - 3); (void)(x - a.begin()); (void)x[2]; ++x; --x; x++; x--;
  x.move_after_segment(); x.move_after_segment(2); x.move_before_segment(); x.move_before_segment(2);
  (void)x.after_segment(); (void)x.after_segment(1); (void)x.before_segment(); (void)x.before_segment(1); (void)x.current(); (void)x.begin(); (void)x.end();
}
#define RUN(A) template void all<seq<E, A<E>, 64, 96>>(seq<E, A<E>, 64, 96>&, seq<E, A<E>, 64, 96>&, seq<E, A<E>, 64, 96> const&, E&, A<E> const&, E const*)
RUN(Minimal); RUN(Def); RUN(OnlyEq); RUN(Fancy); RUN(Prop); RUN(Constructs); RUN(std::allocator);
// an allocator that cannot be assigned serves everything that must not assign it
void copyonly(seq<E, CopyOnlyAlloc<E>>& a, seq<E, CopyOnlyAlloc<E>>& b) {
  a = b; a = std::move(b); a.swap(b); seq<E, CopyOnlyAlloc<E>> c(a), d(std::move(a)); swap(c, d);
}
// an allocator without a default constructor: no default argument is forced
void nodef(Minimal<E> const& m, E const& e, E const* p) {
  using S = seq<E, Minimal<E>>;
  S a(m), b(3, e, m), c(p, p, m), d(a), f(std::move(a));
}
// trivially copyable elements with every allocator kind
template <class S> void triv(S& a, S& b) { a.push_back(1); a.insert(a.begin(), 3, 4); a.erase(a.begin()); a = b; a.merge(b); a.sort(); a.resize(3); a.splice(a.begin(), b); }
template void triv(seq<int, Def<int>>&, seq<int, Def<int>>&);
template void triv(seq<int, Constructs<int>>&, seq<int, Constructs<int>>&);
template void triv(seq<int, Fancy<int>>&, seq<int, Fancy<int>>&);
template void triv(seq<int, OnlyEq<int>>&, seq<int, OnlyEq<int>>&);
