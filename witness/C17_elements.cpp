// @prop C17
// @mode pass
// @what every operation that does not inherently need a missing ability works with element types lacking it
#include <boost/segmented_tree/seq.hpp>
#include <string>
using boost::segmented_tree::seq;
struct MoveOnly {
  explicit MoveOnly(int);
  MoveOnly(MoveOnly&&);
  MoveOnly& operator=(MoveOnly&&);
  ~MoveOnly();
  bool operator<(MoveOnly const&) const;
  bool operator==(MoveOnly const&) const;
};
struct Plain {  // copyable, nothing else: no default constructor, no comparison
  explicit Plain(int, int);
  Plain(Plain const&);
  Plain& operator=(Plain const&);
  ~Plain();
};
struct AddrDeleted {
  AddrDeleted(int);
  AddrDeleted(AddrDeleted const&);
  AddrDeleted& operator=(AddrDeleted const&);
  ~AddrDeleted();
  void operator&() const = delete;
  void operator&() = delete;
  template <class U> friend void operator,(AddrDeleted const&, U&&) = delete;
  template <class U> friend void operator,(U&&, AddrDeleted const&) = delete;
};
struct TrivAddr { long a[3]; void operator&() const = delete; void operator&() = delete; };
struct Big { char data[5000]; Big(int); Big(Big const&); Big& operator=(Big const&); };
struct Tiny { unsigned char c; };
struct Greedy {  // braces would pick the wrong constructor
  Greedy(int, int);
  Greedy(std::initializer_list<int>) = delete;
  template <class... A> Greedy(A const*...) = delete;
  Greedy(Greedy const&);
  Greedy(Greedy&&);
  Greedy& operator=(Greedy const&);
  Greedy& operator=(Greedy&&);
};
struct ThrowingMove {
  ThrowingMove(int);
  ThrowingMove(ThrowingMove const&) noexcept(false);
  ThrowingMove(ThrowingMove&&) noexcept(false);
  ThrowingMove& operator=(ThrowingMove const&) noexcept(false);
  ThrowingMove& operator=(ThrowingMove&&) noexcept(false);
  ~ThrowingMove() noexcept(false);
};
struct NoNew {  // class-level operator new must not be used for placement
  NoNew(int); NoNew(NoNew const&); NoNew& operator=(NoNew const&); ~NoNew();
  static void* operator new(std::size_t) = delete;
  static void* operator new(std::size_t, void*) = delete;
  static void operator delete(void*) = delete;
};
struct VoidAssign { VoidAssign(int); VoidAssign(VoidAssign const&); void operator=(VoidAssign const&); ~VoidAssign(); };
// bool-convertible comparison results and stateful, move-only predicates are out of scope
template <class T> struct ops {
  using S = seq<T, std::allocator<T>, 64, 64>;
  // needs only MoveConstructible / MoveAssignable
  static void moves(S& a, S& b, T& t) {
    std::allocator<T> al;
    S c; S d(al); S e(std::move(a)); S f(std::move(b), al);
    a = std::move(b);
    using std::swap; swap(a, b); a.swap(b);
    a.push_back(std::move(t)); a.push_front(std::move(t));
    a.insert(a.begin(), std::move(t));
    a.emplace(a.end(), std::move(t)); a.emplace_back(std::move(t)); a.emplace_front(std::move(t));
    a.erase(a.begin()); a.erase(a.begin(), a.end()); a.pop_back(); a.pop_front(); a.clear();
    a.splice(a.begin(), b); a.splice(a.begin(), std::move(b));
    a.splice(a.begin(), b, b.begin()); a.splice(a.begin(), std::move(b), b.begin());
    a.splice(a.begin(), b, b.begin(), b.end()); a.splice(a.begin(), std::move(b), b.begin(), b.end());
    a.splice(a.cbegin(), b, b.cbegin()); a.splice(a.cbegin(), b, b.cbegin(), b.cend());
    a.insert(a.cbegin(), std::make_move_iterator(&a == &b ? (T*)nullptr : (T*)nullptr), std::make_move_iterator((T*)nullptr));
    a.assign(std::make_move_iterator((T*)nullptr), std::make_move_iterator((T*)nullptr));
    S g(std::make_move_iterator((T*)nullptr), std::make_move_iterator((T*)nullptr));
    (void)a.at(0); (void)a[0]; (void)a.front(); (void)a.back(); (void)a.nth(3); (void)a.size(); (void)a.empty(); (void)a.height(); (void)a.max_size();
    (void)*a.rbegin(); (void)a.penultimate(); (void)a.get_allocator(); (void)a.get_stored_allocator();
    (void)a.begin()->~T();
    a.remove_if([](T const&) { return false; });
    a.unique([](T const&, T const&) { return false; });
    a.sort([](T const&, T const&) { return false; });
    a.merge(b, [](T const&, T const&) { return false; });
    a.merge(std::move(b), [](T const&, T const&) { return false; });
    a.reverse();
  }
  // needs CopyInsertable / CopyAssignable as well
  static void copies(S& a, S const& k, T const& t, std::initializer_list<T> il, T const* p) {
    std::allocator<T> al;
    S b(k); S c(k, al); S d(3, t); S e(3, t, al); S f(p, p); S g(p, p, al); S h(il); S i(il, al);
    a = k; a = il; a.assign(3, t); a.assign(p, p); a.assign(il);
    a.insert(a.begin(), t); a.insert(a.begin(), 3, t); a.insert(a.begin(), p, p); a.insert(a.begin(), il);
    a.push_back(t); a.push_front(t); a.emplace_back(t); a.resize(4, t);
  }
};
#ifndef NOUSE
void use_move_only(seq<MoveOnly, std::allocator<MoveOnly>, 64, 64>& a, seq<MoveOnly, std::allocator<MoveOnly>, 64, 64>& b, MoveOnly& t) {
  ops<MoveOnly>::moves(a, b, t);
  a.emplace_back(1); a.emplace(a.begin(), 1); a.emplace_front(1);
  a.sort(); a.unique(); a.merge(b); a.merge(std::move(b)); a.remove(t);
  (void)(a == b); (void)(a != b); (void)(a < b); (void)(a <= b); (void)(a > b); (void)(a >= b);
}
template <class T> void use(seq<T, std::allocator<T>, 64, 64>& a, T& t) {
  ops<T>::moves(a, a, t);
  ops<T>::copies(a, a, t, std::initializer_list<T>{}, nullptr);
}
#define USE(T) template void use<T>(seq<T, std::allocator<T>, 64, 64>&, T&)
USE(Plain); USE(AddrDeleted); USE(TrivAddr); USE(Big); USE(Tiny); USE(ThrowingMove); USE(std::string); USE(Greedy); USE(VoidAssign); USE(NoNew);
void greedy(seq<Greedy>& g) { g.emplace(g.begin(), 1, 2); g.emplace_back(1, 2); g.emplace_front(1, 2); }
void plain(seq<Plain>& g) { g.emplace(g.begin(), 1, 2); g.emplace_back(1, 2); g.emplace_front(1, 2); }
// value-initialised growth needs a default constructor only
struct DefMove { DefMove(); DefMove(DefMove&&); DefMove& operator=(DefMove&&); };
void grow(seq<DefMove>& s) { seq<DefMove> t(5); s.resize(7); }
// a sequence is itself an element
struct Tree { seq<int> v; };
void nest(seq<seq<int>>& s, seq<int>& v) { s.push_back(v); s.push_back(std::move(v)); s.insert(s.begin(), v); s.sort(); seq<seq<int>> t(s); t = s; }
// emplace forwards: an lvalue stays an lvalue, an rvalue an rvalue
struct Fwd { Fwd(int&&); Fwd(int const&) = delete; Fwd(Fwd&&); Fwd& operator=(Fwd&&); };
void fwd(seq<Fwd>& s) { s.emplace_back(1); s.emplace_front(1); s.emplace(s.begin(), 1); }
struct Fwl { Fwl(int&); Fwl(int&&) = delete; Fwl(Fwl&&); Fwl& operator=(Fwl&&); };
void fwl(seq<Fwl>& s, int& i) { s.emplace_back(i); s.emplace_front(i); s.emplace(s.begin(), i); }
// incomplete types may name the container
struct Node;
struct Holder { seq<Node>* p; };
#endif
