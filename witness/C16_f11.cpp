// @prop C16
// @mode fail
// @what no mutable access from const nth/penultimate
#include <boost/segmented_tree/seq.hpp>
using S = boost::segmented_tree::seq<int>;
void f(S& s, S const& k, S::iterator i, S::const_iterator c) {
  (void)s; (void)k; (void)i; (void)c;
#ifdef TWIN
  *s.nth(0) = 1; *s.penultimate() = 1;
#else
  *k.nth(0) = 1; *k.penultimate() = 1;
#endif
}
