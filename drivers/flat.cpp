// Instantiates the operations on whole sequences.  The analysis treats a sequence as one symbolic array here and the
// single-element operations as primitives; elements, predicates and allocation are declared only.
// POCCA, POCMA, POCS: the propagation traits of the allocator; CLS: class type or trivially copyable elements.
#include <boost/segmented_tree/seq.hpp>
#include <cstddef>
#include <new>

struct Elem {
  int a, b;
  Elem();
  Elem(int);
  Elem(Elem const&);
  Elem(Elem&&);
  Elem& operator=(Elem const&);
  Elem& operator=(Elem&&);
  ~Elem();
};
struct TElem {
  int a, b, c, d, e, f;
  TElem();
  TElem(int);
};
#if CLS
typedef Elem E;
#else
typedef TElem E;
#endif
bool operator==(E const&, E const&);
bool operator<(E const&, E const&);
template <class T>
struct FA {
  int id;
  typedef T value_type;
  typedef std::integral_constant<bool, POCCA> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, POCMA> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, POCS> propagate_on_container_swap;
  FA(int i) noexcept : id(i) {}
  template <class U>
  FA(FA<U> const& o) noexcept : id(o.id) {}
  FA select_on_container_copy_construction() const { return FA(id + 100); }
  T* allocate(std::size_t n);
  void deallocate(T* p, std::size_t n) noexcept;
  friend bool operator==(FA const& a, FA const& b) noexcept { return a.id == b.id; }
  friend bool operator!=(FA const& a, FA const& b) noexcept { return a.id != b.id; }
};
typedef FA<E> A;
typedef boost::segmented_tree::seq<E, A> S;
typedef S::iterator I;
typedef S::const_iterator CI;
typedef S::static_traits ST;
typedef ST::iterator_data ID;
typedef std::size_t Z;
// a single pass range: all copies of an iterator share one position
struct In {
  typedef std::input_iterator_tag iterator_category;
  typedef E value_type;
  typedef std::ptrdiff_t difference_type;
  typedef E const* pointer;
  typedef E const& reference;
  E const** cur;
  E const* lim;
  E const* at() const { return cur ? *cur : lim; }
  E const& operator*() const { return **cur; }
  E const* operator->() const { return *cur; }
  In& operator++() { ++*cur; return *this; }
  In operator++(int);
  friend bool operator==(In const& a, In const& b) { return a.at() == b.at(); }
  friend bool operator!=(In const& a, In const& b) { return a.at() != b.at(); }
};
struct Pred { long id, pad[3]; bool operator()(E const&) const; };
struct Pred2 { long id, pad[3]; bool operator()(E const&, E const&) const; };
struct Cmp { long id, pad[3]; bool operator()(E const&, E const&) const; };

extern "C" {
extern const int FLAT = 1;
extern const long long META[] = {
    (long long)ST::segment_max(), (long long)ST::base_max(), sizeof(E), sizeof(ST::node),
    offsetof(ST::node, parent_pointer), offsetof(ST::node, parent_index_), offsetof(ST::node, length_),
    offsetof(ST::node, sizes), offsetof(ST::node, pointers),
    offsetof(S, root_), offsetof(S, size_pair_.sz), offsetof(S, height_pair_.ht), offsetof(S, size_pair_), offsetof(S, height_pair_),
    sizeof(S), CLS,
    offsetof(ID, entry.segment.pointer), offsetof(ID, entry.segment.index), offsetof(ID, entry.segment.length),
    offsetof(ID, entry.leaf.pointer), offsetof(ID, entry.leaf.index), offsetof(ID, pos), sizeof(ID), sizeof(I), sizeof(CI),
    (long long)ST::segment_min(), (long long)ST::base_min(), 0, sizeof(ST::node::parent_index_), sizeof(ST::node::length_), sizeof(((ID*)0)->entry.segment.index), sizeof(((ID*)0)->entry.segment.length), sizeof(((ID*)0)->entry.leaf.index), sizeof(((ID*)0)->pos)};
// construction
void f_ctor_count(S* c, Z n, A const& a) { ::new ((void*)c) S(n, a); }
void f_ctor_value(S* c, Z n, E const& v, A const& a) { ::new ((void*)c) S(n, v, a); }
void f_ctor_range(S* c, E const* f, E const* l, A const& a) { ::new ((void*)c) S(f, l, a); }
void f_ctor_input(S* c, In f, In l, A const& a) { ::new ((void*)c) S(f, l, a); }
void f_ctor_il(S* c, std::initializer_list<E> l, A const& a) { ::new ((void*)c) S(l, a); }
void f_copy_ctor(S* c, S const& o) { ::new ((void*)c) S(o); }
void f_copy_ctor_alloc(S* c, S const& o, A const& a) { ::new ((void*)c) S(o, a); }
void f_move_ctor(S* c, S& o) { ::new ((void*)c) S(std::move(o)); }
void f_move_ctor_alloc(S* c, S& o, A const& a) { ::new ((void*)c) S(std::move(o), a); }
void f_dtor(S& c) { c.~S(); }
// assignment
void f_copy_assign(S& c, S const& o) { c = o; }
void f_move_assign(S& c, S& o) { c = std::move(o); }
void f_assign_count(S& c, Z n, E const& v) { c.assign(n, v); }
void f_assign_range(S& c, E const* f, E const* l) { c.assign(f, l); }
void f_assign_input(S& c, In f, In l) { c.assign(f, l); }
void f_assign_il(S& c, std::initializer_list<E> l) { c.assign(l); }
void f_opassign_il(S& c, std::initializer_list<E> l) { c = l; }
void f_swap(S& c, S& o) { c.swap(o); }
void f_fswap(S& c, S& o) { swap(c, o); }
// insertion
I f_insert_copy(S& c, CI p, E const& v) { return c.insert(p, v); }
I f_insert_move(S& c, CI p, E& v) { return c.insert(p, std::move(v)); }
I f_emplace_copy(S& c, CI p, E const& v) { return c.emplace(p, v); }
void f_push_back(S& c, E const& v) { c.push_back(v); }
void f_push_front(S& c, E const& v) { c.push_front(v); }
void f_emplace_back(S& c, E const& v) { c.emplace_back(v); }
void f_emplace_front(S& c, E const& v) { c.emplace_front(v); }
I f_insert_count(S& c, CI p, Z n, E const& v) { return c.insert(p, n, v); }
I f_insert_range(S& c, CI p, E const* f, E const* l) { return c.insert(p, f, l); }
I f_insert_input(S& c, CI p, In f, In l) { return c.insert(p, f, l); }
I f_insert_il(S& c, CI p, std::initializer_list<E> l) { return c.insert(p, l); }
I f_erase(S& c, CI p) { return c.erase(p); }
void f_pop_back(S& c) { c.pop_back(); }
void f_pop_front(S& c) { c.pop_front(); }
I f_erase_range(S& c, CI f, CI l) { return c.erase(f, l); }
void f_resize(S& c, Z n) { c.resize(n); }
void f_resize_value(S& c, Z n, E const& v) { c.resize(n, v); }
void f_clear(S& c) { c.clear(); }
// splice and merge
void f_splice(S& c, CI p, S& o) { c.splice(p, o); }
void f_splice_r(S& c, CI p, S& o) { c.splice(p, std::move(o)); }
void f_splice_one(S& c, CI p, S& o, CI i) { c.splice(p, o, i); }
void f_splice_one_r(S& c, CI p, S& o, CI i) { c.splice(p, std::move(o), i); }
void f_splice_range(S& c, CI p, S& o, CI f, CI l) { c.splice(p, o, f, l); }
void f_splice_range_r(S& c, CI p, S& o, CI f, CI l) { c.splice(p, std::move(o), f, l); }
void f_merge(S& c, S& o) { c.merge(o); }
void f_merge_r(S& c, S& o) { c.merge(std::move(o)); }
void f_merge_cmp(S& c, S& o, Cmp x) { c.merge(o, x); }
void f_merge_cmp_r(S& c, S& o, Cmp x) { c.merge(std::move(o), x); }
// algorithms
void f_remove(S& c, E const& v) { c.remove(v); }
void f_remove_if(S& c, Pred p) { c.remove_if(p); }
void f_unique(S& c) { c.unique(); }
void f_unique_pred(S& c, Pred2 p) { c.unique(p); }
void f_reverse(S& c) { c.reverse(); }
void f_sort(S& c) { c.sort(); }
void f_sort_cmp(S& c, Cmp x) { c.sort(x); }
// relations
bool f_eq(S const& a, S const& b) { return a == b; }
bool f_ne(S const& a, S const& b) { return a != b; }
bool f_lt(S const& a, S const& b) { return a < b; }
bool f_gt(S const& a, S const& b) { return a > b; }
bool f_le(S const& a, S const& b) { return a <= b; }
bool f_ge(S const& a, S const& b) { return a >= b; }
}
