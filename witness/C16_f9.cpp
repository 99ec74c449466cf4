// @prop C16
// @mode fail
// @what const sequence cannot be modified
#include <boost/segmented_tree/seq.hpp>
using S = boost::segmented_tree::seq<int>;
void f(S& s, S const& k, S::iterator i, S::const_iterator c) {
  (void)s; (void)k; (void)i; (void)c;
#ifdef TWIN
  s.clear();
#else
  k.clear();
#endif
}
