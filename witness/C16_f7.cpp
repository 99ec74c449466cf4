// @prop C16
// @mode fail
// @what no mutable access from const front/back
#include <boost/segmented_tree/seq.hpp>
using S = boost::segmented_tree::seq<int>;
void f(S& s, S const& k, S::iterator i, S::const_iterator c) {
  (void)s; (void)k; (void)i; (void)c;
#ifdef TWIN
  s.front() = 1; s.back() = 1;
#else
  k.front() = 1; k.back() = 1;
#endif
}
