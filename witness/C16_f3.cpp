// @prop C16
// @mode fail
// @what no assignment through const operator[]
#include <boost/segmented_tree/seq.hpp>
using S = boost::segmented_tree::seq<int>;
void f(S& s, S const& k, S::iterator i, S::const_iterator c) {
  (void)s; (void)k; (void)i; (void)c;
#ifdef TWIN
  s[0] = 1;
#else
  k[0] = 1;
#endif
}
