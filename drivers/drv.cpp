// Instantiates the container for the analysis: element and allocator operations are declared only, so that they
// stay visible as calls in the intermediate representation.  Compiled once per configuration
// (SMAX elements per segment, BMAX children per node, CLS: 1 class type, 0 trivially copyable elements, others in between).
#include <boost/segmented_tree/seq.hpp>
#include <cstddef>
#include <new>

struct Elem {
  int a, b;
  Elem();
  Elem(int);
  Elem(Elem const&);
  Elem(Elem&&);
  Elem& operator=(Elem const&);
  Elem& operator=(Elem&&);
  ~Elem();
};
struct TElem {
  int a, b, c, d, e, f;
  TElem();
  TElem(int);
};
// kinds of elements between these two: which operations are the type's own
//   2: copies, moves and assignments, 3: the destructor, 5: assignments, 6: copies and moves
struct KElem {
  int a, b, c, d, e, f;
  KElem();
  KElem(int);
#if CLS == 2 || CLS == 6
  KElem(KElem const&);
  KElem(KElem&&);
#elif CLS == 5
  KElem(KElem const&) = default;
  KElem(KElem&&) = default;
#endif
#if CLS == 2 || CLS == 5
  KElem& operator=(KElem const&);
  KElem& operator=(KElem&&);
#elif CLS == 6
  KElem& operator=(KElem const&) = default;
  KElem& operator=(KElem&&) = default;
#endif
#if CLS == 3
  ~KElem();
#endif
};
#if CLS == 1
typedef Elem E;
#elif CLS
typedef KElem E;
#else
typedef TElem E;
#endif
template <class T>
struct SA {
#ifndef EMPTY
  int id;
#endif
  typedef T value_type;
#ifdef PROPAGATE
  typedef std::true_type propagate_on_container_copy_assignment;
  typedef std::true_type propagate_on_container_move_assignment;
  typedef std::true_type propagate_on_container_swap;
#endif
#ifdef EMPTY
  SA() noexcept {}
  template <class U>
  SA(SA<U> const&) noexcept {}
  friend bool operator==(SA const&, SA const&) noexcept { return true; }
  friend bool operator!=(SA const&, SA const&) noexcept { return false; }
#else
  SA(int i) noexcept : id(i) {}
  template <class U>
  SA(SA<U> const& o) noexcept : id(o.id) {}
  friend bool operator==(SA const& a, SA const& b) noexcept { return a.id == b.id; }
  friend bool operator!=(SA const& a, SA const& b) noexcept { return a.id != b.id; }
#endif
  T* allocate(std::size_t n);
  void deallocate(T* p, std::size_t n) noexcept;
#if HOOKED & 1
  template <class U, class... X>
  void construct(U* p, X&&... x);
#endif
#if HOOKED & 2
  template <class U>
  void destroy(U* p) noexcept;
#endif
};
#ifdef STDALLOC
typedef std::allocator<E> AL;
#else
typedef SA<E> AL;
#endif
typedef boost::segmented_tree::seq<E, AL, SMAX * sizeof(E), 16 + 16 * BMAX> S;
typedef S::iterator I;
typedef S::const_iterator CI;
typedef S::static_traits ST;
typedef ST::iterator_data ID;
typedef std::size_t Z;
typedef std::ptrdiff_t D;

// an internal primitive the analysis of whole sequences (flat.cpp) relies on, if there is one of this name
template <class X>
auto prevCount(ID& d, Z n, X*) -> decltype(X::move_prev_iterator_count(d, n), true) { X::move_prev_iterator_count(d, n); return true; }
inline bool prevCount(ID& d, Z n, ...) { (void)d; (void)n; return false; }
template <class X>
constexpr auto hasPrevCount(X*) -> decltype(X::move_prev_iterator_count(*(ID*)nullptr, Z()), 1) { return 1; }
constexpr int hasPrevCount(...) { return 0; }
extern "C" {
// what the analysis needs to know about the layout
extern const long long META[] = {
    (long long)ST::segment_max(), (long long)ST::base_max(), sizeof(E), sizeof(ST::node),
    offsetof(ST::node, parent_pointer), offsetof(ST::node, parent_index_), offsetof(ST::node, length_),
    offsetof(ST::node, sizes), offsetof(ST::node, pointers),
    offsetof(S, root_), offsetof(S, size_pair_.sz), offsetof(S, height_pair_.ht), offsetof(S, size_pair_), offsetof(S, height_pair_),
    sizeof(S), CLS,
    offsetof(ID, entry.segment.pointer), offsetof(ID, entry.segment.index), offsetof(ID, entry.segment.length),
    offsetof(ID, entry.leaf.pointer), offsetof(ID, entry.leaf.index), offsetof(ID, pos), sizeof(ID), sizeof(I), sizeof(CI),
    (long long)ST::segment_min(), (long long)ST::base_min(), hasPrevCount((ST*)nullptr), sizeof(ST::node::parent_index_), sizeof(ST::node::length_), sizeof(((ID*)0)->entry.segment.index), sizeof(((ID*)0)->entry.segment.length), sizeof(((ID*)0)->entry.leaf.index), sizeof(((ID*)0)->pos)};

I w_prev_count(CI i, Z n) { ID d = i.it_; prevCount(d, n, (ST*)nullptr); return I{d}; }
// single insertion
I w_insert_copy(S& c, CI p, E const& v) { return c.insert(p, v); }
I w_insert_move(S& c, CI p, E& v) { return c.insert(p, std::move(v)); }
I w_emplace(S& c, CI p, int x) { return c.emplace(p, x); }
void w_push_back_copy(S& c, E const& v) { c.push_back(v); }
void w_push_back_move(S& c, E& v) { c.push_back(std::move(v)); }
void w_emplace_back(S& c, int x) { c.emplace_back(x); }
void w_push_front_copy(S& c, E const& v) { c.push_front(v); }
void w_push_front_move(S& c, E& v) { c.push_front(std::move(v)); }
void w_emplace_front(S& c, int x) { c.emplace_front(x); }
// single erasure
I w_erase(S& c, CI p) { return c.erase(p); }
void w_pop_back(S& c) { c.pop_back(); }
void w_pop_front(S& c) { c.pop_front(); }
// positional lookup
I w_begin(S& c) { return c.begin(); }
CI w_begin_const(S const& c) { return c.begin(); }
CI w_cbegin(S const& c) { return c.cbegin(); }
I w_penultimate(S& c) { return c.penultimate(); }
CI w_penultimate_const(S const& c) { return c.penultimate(); }
CI w_cpenultimate(S const& c) { return c.cpenultimate(); }
I w_end(S& c) { return c.end(); }
CI w_end_const(S const& c) { return c.end(); }
CI w_cend(S const& c) { return c.cend(); }
I w_nth(S& c, Z n) { return c.nth(n); }
CI w_nth_const(S const& c, Z n) { return c.nth(n); }
E& w_at(S& c, Z n) { return c.at(n); }
E const& w_at_const(S const& c, Z n) { return c.at(n); }
E& w_sub(S& c, Z n) { return c[n]; }
E const& w_sub_const(S const& c, Z n) { return c[n]; }
E& w_front(S& c) { return c.front(); }
E const& w_front_const(S const& c) { return c.front(); }
E& w_back(S& c) { return c.back(); }
E const& w_back_const(S const& c) { return c.back(); }
Z w_index_of(S& c, I i) { return c.index_of(i); }
Z w_index_of_const(S const& c, CI i) { return c.index_of(i); }
Z w_size(S const& c) { return c.size(); }
bool w_empty(S const& c) { return c.empty(); }
Z w_height(S const& c) { return c.height(); }
E& w_rbegin(S& c) { return *c.rbegin(); }
E const& w_rbegin_const(S const& c) { return *c.rbegin(); }
E const& w_crbegin(S const& c) { return *c.crbegin(); }
I w_rend(S& c) { return c.rend().base(); }
CI w_rend_const(S const& c) { return c.rend().base(); }
CI w_crend(S const& c) { return c.crend().base(); }
// iterator moves; X the iterator type
#define MOVES(X, s)                                            \
  X w_inc##s(X i) { ++i; return i; }                           \
  X w_dec##s(X i) { --i; return i; }                           \
  X w_inc_ret##s(X i) { return ++i; }                          \
  X w_dec_ret##s(X i) { return --i; }                          \
  X w_postinc##s(X i) { i++; return i; }                       \
  X w_postdec##s(X i) { i--; return i; }                       \
  X w_postinc_old##s(X i) { return i++; }                      \
  X w_postdec_old##s(X i) { return i--; }                      \
  X w_addeq##s(X i, D d) { i += d; return i; }                 \
  X w_subeq##s(X i, D d) { i -= d; return i; }                 \
  X w_add##s(X i, D d) { return i + d; }                       \
  X w_radd##s(X i, D d) { return d + i; }                      \
  X w_sub_n##s(X i, D d) { return i - d; }                     \
  X::reference w_subscript##s(X i, D d) { return i[d]; }       \
  X w_move_before##s(X i) { i.move_before_segment(); return i; }            \
  X w_move_before_n##s(X i, Z n) { i.move_before_segment(n); return i; }    \
  X w_move_after##s(X i) { i.move_after_segment(); return i; }              \
  X w_move_after_n##s(X i, Z n) { i.move_after_segment(n); return i; }      \
  X w_before##s(X i) { return i.before_segment(); }            \
  X w_before_n##s(X i, Z n) { return i.before_segment(n); }    \
  X w_after##s(X i) { return i.after_segment(); }              \
  X w_after_n##s(X i, Z n) { return i.after_segment(n); }      \
  X::reference w_deref##s(X i) { return *i; }                  \
  X::pointer w_arrow##s(X i) { return i.operator->(); }        \
  X::pointer w_current##s(X i) { return i.current(); }         \
  X::pointer w_segbegin##s(X i) { return i.begin(); }          \
  X::pointer w_segend##s(X i) { return i.end(); }              \
  D w_diff##s(X a, X b) { return a - b; }                      \
  bool w_eq##s(X a, X b) { return a == b; }                    \
  bool w_ne##s(X a, X b) { return a != b; }                    \
  bool w_lt##s(X a, X b) { return a < b; }                     \
  bool w_gt##s(X a, X b) { return a > b; }                     \
  bool w_le##s(X a, X b) { return a <= b; }                    \
  bool w_ge##s(X a, X b) { return a >= b; }
MOVES(I, )
MOVES(CI, _c)
D w_diff_m(I a, CI b) { return a - b; }
bool w_eq_m(I a, CI b) { return a == b; }
bool w_ne_m(I a, CI b) { return a != b; }
bool w_lt_m(I a, CI b) { return a < b; }
bool w_gt_m(I a, CI b) { return a > b; }
bool w_le_m(I a, CI b) { return a <= b; }
bool w_ge_m(I a, CI b) { return a >= b; }
// whole container
void w_clear(S& c) { c.clear(); }
void w_dtor(S& c) { c.~S(); }
void w_ctor_alloc(S* c, AL const& a) { ::new ((void*)c) S(a); }
void w_move_ctor(S* c, S& o) { ::new ((void*)c) S(std::move(o)); }
void w_move_ctor_alloc(S* c, S& o, AL const& a) { ::new ((void*)c) S(std::move(o), a); }
void w_move_assign(S& c, S& o) { c = std::move(o); }
void w_swap(S& c, S& o) { c.swap(o); }
void w_fswap(S& c, S& o) { swap(c, o); }
#if !defined(EMPTY) && !defined(STDALLOC)
int w_get_alloc(S const& c) { return c.get_allocator().id; }
int w_get_stored(S const& c) { return c.get_stored_allocator().id; }
#endif
}
