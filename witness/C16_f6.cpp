// @prop C16
// @mode fail
// @what no explicit const_iterator to iterator construction
#include <boost/segmented_tree/seq.hpp>
using S = boost::segmented_tree::seq<int>;
void f(S& s, S const& k, S::iterator i, S::const_iterator c) {
  (void)s; (void)k; (void)i; (void)c;
#ifdef TWIN
  S::const_iterator j(i); (void)j;
#else
  S::iterator j(c); (void)j;
#endif
}
