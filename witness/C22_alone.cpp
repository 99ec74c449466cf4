// @prop C22
// @mode pass
// @warn
// @what seq.hpp alone, everything instantiated, no warning
#include <boost/segmented_tree/seq.hpp>
struct E { E(); E(int); E(E const&); E(E&&) noexcept; E& operator=(E const&); E& operator=(E&&) noexcept; ~E(); bool operator==(E const&) const; bool operator<(E const&) const; };
template class boost::segmented_tree::seq<int>;
template <class S> static void f(S& a, S& b, E const* p) {
  S c(p, p); a.assign(p, p); a.insert(a.begin(), p, p); a.emplace(a.begin(), 1); a.emplace_back(1); a.emplace_front(1);
  a.sort(); a.merge(b); a.merge(b, std::less<E>()); a.unique(); a.remove_if([](E const&) { return true; });
  auto i = a.begin(); i += 1; (void)i[1]; (void)(i - a.begin()); (void)(i < a.cend()); i.move_after_segment(1); i.move_before_segment(1);
  (void)(a == b); (void)(a < b); (void)(a != b); (void)(a >= b); swap(a, b); a = b; a = std::move(b);
  try { (void)a.at(3); } catch (std::out_of_range const&) {}
}
using S1 = boost::segmented_tree::seq<E>;
using S2 = boost::segmented_tree::seq<E, std::allocator<E>, 0, 0>;
using S3 = boost::segmented_tree::seq<E, std::allocator<E>, 100000, 10000000>;
void g(S1& a, S1& b, S2& c, S2& d, S3& e, S3& h, E const* p);
void g(S1& a, S1& b, S2& c, S2& d, S3& e, S3& h, E const* p) { f(a, b, p); f(c, d, p); f(e, h, p); }
