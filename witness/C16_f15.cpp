// @prop C16
// @mode fail
// @what a count does not convert to a sequence
#include <boost/segmented_tree/seq.hpp>
using S = boost::segmented_tree::seq<int>;
void f(S& s, S const& k, S::iterator i, S::const_iterator c) {
  (void)s; (void)k; (void)i; (void)c;
#ifdef TWIN
  S t(3); (void)t;
#else
  S t = 3; (void)t;
#endif
}
