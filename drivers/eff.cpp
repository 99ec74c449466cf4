// Everything a program can call, for the effect analysis (tool/effects.cpp).  Operations of the element and of the
// allocator that may throw are declared without noexcept, those that must not throw with it.
#include <boost/segmented_tree/seq.hpp>
#include <cstddef>
#include <new>
struct E {
  int a[5];
  E();
  E(int);
  E(E const&);
  E(E&&) noexcept;
  E& operator=(E const&);
  E& operator=(E&&) noexcept;
  ~E();
};
bool operator==(E const&, E const&);
bool operator<(E const&, E const&);
struct TE { int a[5]; TE(); TE(int); };
bool operator==(TE const&, TE const&);
bool operator<(TE const&, TE const&);
void opaque();
template <class T>
struct FA {
  int id;
  typedef T value_type;
  typedef std::integral_constant<bool, POC != 0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, POC != 0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, POC != 0> propagate_on_container_swap;
#if POC == 2
  // operations that may throw where they are allowed to
  FA();
  FA(FA const&) noexcept;
  FA& operator=(FA const&);
  FA& operator=(FA&&);
  friend void swap(FA&, FA&) { opaque(); }
#else
  FA() noexcept;
#endif
  FA(int i) noexcept : id(i) {}
  template <class U>
  FA(FA<U> const& o) noexcept : id(o.id) {}
  T* allocate(std::size_t n);
  void deallocate(T* p, std::size_t n) noexcept;
  friend bool operator==(FA const& a, FA const& b) noexcept { return a.id == b.id; }
  friend bool operator!=(FA const& a, FA const& b) noexcept { return a.id != b.id; }
};
#if CLS
typedef E T;
#else
typedef TE T;
#endif
typedef boost::segmented_tree::seq<T, FA<T>> S;
typedef S::iterator I;
typedef S::const_iterator CI;
typedef std::size_t Z;
typedef std::ptrdiff_t D;
extern "C" {
// must not throw
#if POC != 2
void n_ctor(S* c) noexcept { ::new ((void*)c) S(); }
void n_swap(S& c, S& o) noexcept { c.swap(o); }
void n_fswap(S& c, S& o) noexcept { swap(c, o); }
#else
void x_ctor(S* c) { ::new ((void*)c) S(); }
void x_swap(S& c, S& o) { c.swap(o); }
void x_fswap(S& c, S& o) { swap(c, o); }
void x_move_assign(S& c, S& o) { c = std::move(o); }
void x_copy_assign(S& c, S& o) { c = o; }
#endif
void n_dtor(S& c) noexcept { c.~S(); }
void n_clear(S& c) noexcept { c.clear(); }
void n_move_ctor(S* c, S& o) noexcept { ::new ((void*)c) S(std::move(o)); }
#if POC == 1
void n_move_assign(S& c, S& o) noexcept { c = std::move(o); }
#endif
FA<T> n_alloc(S const& c) noexcept { return c.get_allocator(); }
void const* n_salloc(S const& c) noexcept { return &c.get_stored_allocator(); }
I n_begin(S& c) noexcept { return c.begin(); }
CI n_cbegin(S const& c) noexcept { return c.begin(); }
CI n_ccbegin(S const& c) noexcept { return c.cbegin(); }
I n_pen(S& c) noexcept { return c.penultimate(); }
CI n_cpen(S const& c) noexcept { return c.penultimate(); }
CI n_ccpen(S const& c) noexcept { return c.cpenultimate(); }
I n_end(S& c) noexcept { return c.end(); }
CI n_cend(S const& c) noexcept { return c.end(); }
CI n_ccend(S const& c) noexcept { return c.cend(); }
S::reverse_iterator n_rbegin(S& c) noexcept { return c.rbegin(); }
S::const_reverse_iterator n_crbegin(S const& c) noexcept { return c.rbegin(); }
S::const_reverse_iterator n_ccrbegin(S const& c) noexcept { return c.crbegin(); }
S::reverse_iterator n_rend(S& c) noexcept { return c.rend(); }
S::const_reverse_iterator n_crend(S const& c) noexcept { return c.rend(); }
S::const_reverse_iterator n_ccrend(S const& c) noexcept { return c.crend(); }
I n_nth(S& c, Z i) noexcept { return c.nth(i); }
CI n_cnth(S const& c, Z i) noexcept { return c.nth(i); }
Z n_index(S& c, I i) noexcept { return c.index_of(i); }
Z n_cindex(S const& c, CI i) noexcept { return c.index_of(i); }
bool n_empty(S const& c) noexcept { return c.empty(); }
Z n_size(S const& c) noexcept { return c.size(); }
Z n_height(S const& c) noexcept { return c.height(); }
Z n_max(S const& c) noexcept { return c.max_size(); }
// take constant time
bool k_empty(S const& c) { return c.empty(); }
Z k_size(S const& c) { return c.size(); }
Z k_height(S const& c) { return c.height(); }
Z k_max(S const& c) { return c.max_size(); }
Z k_index(S& c, I i) { return c.index_of(i); }
Z k_cindex(S const& c, CI i) { return c.index_of(i); }
void k_swap(S& c, S& o) { c.swap(o); }
void k_fswap(S& c, S& o) { swap(c, o); }
void k_move_ctor(S* c, S& o) { ::new ((void*)c) S(std::move(o)); }
bool k_eq(CI const& a, CI const& b) { return a == b; }
bool k_ne(CI const& a, CI const& b) { return a != b; }
bool k_lt(CI const& a, CI const& b) { return a < b; }
bool k_gt(CI const& a, CI const& b) { return a > b; }
bool k_le(CI const& a, CI const& b) { return a <= b; }
bool k_ge(CI const& a, CI const& b) { return a >= b; }
D k_diff(CI const& a, CI const& b) { return a - b; }
bool k_ieq(I const& a, I const& b) { return a == b; }
bool k_ine(I const& a, I const& b) { return a != b; }
bool k_ilt(I const& a, I const& b) { return a < b; }
D k_idiff(I const& a, I const& b) { return a - b; }
T& k_deref(I const& a) { return *a; }
T const& k_cderef(CI const& a) { return *a; }
// only read
T const* r_at(S const& c, Z i) { return &c.at(i); }
T const* r_idx(S const& c, Z i) { return &c[i]; }
T const* r_front(S const& c) { return &c.front(); }
T const* r_back(S const& c) { return &c.back(); }
bool r_eq(S const& a, S const& b) { return a == b; }
bool r_ne(S const& a, S const& b) { return a != b; }
bool r_lt(S const& a, S const& b) { return a < b; }
bool r_gt(S const& a, S const& b) { return a > b; }
bool r_le(S const& a, S const& b) { return a <= b; }
bool r_ge(S const& a, S const& b) { return a >= b; }
void r_iter(CI& i, D d) {
  ++i; --i; i++; i--; i += d; i -= d;
  i = i + d; i = i - d; i = d + i;
  i = i.before_segment(); i = i.after_segment(); i = i.before_segment(1); i = i.after_segment(1);
  i.move_before_segment(); i.move_after_segment(); i.move_before_segment(1); i.move_after_segment(1);
}
T const* r_elem(CI const& i, D d, T const** b, T const** e, T const** q) { *b = i.begin(); *e = i.end(); *q = &i[d]; return i.current(); }
T const* r_arrow(CI const& i) { return i.operator->(); }
void r_uiter(I& i, D d) {
  ++i; --i; i++; i--; i += d; i -= d;
  i = i + d; i = i - d; i = d + i;
  i = i.before_segment(); i = i.after_segment(); i = i.before_segment(1); i = i.after_segment(1);
  i.move_before_segment(); i.move_after_segment(); i.move_before_segment(1); i.move_after_segment(1);
}
void r_copy(S* c, S const& o) { ::new ((void*)c) S(o); }
}
