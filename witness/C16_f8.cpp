// @prop C16
// @mode fail
// @what no mutable pointer from const_iterator
#include <boost/segmented_tree/seq.hpp>
using S = boost::segmented_tree::seq<int>;
void f(S& s, S const& k, S::iterator i, S::const_iterator c) {
  (void)s; (void)k; (void)i; (void)c;
#ifdef TWIN
  int* p = i.current(); int* q = i.begin(); (void)p; (void)q;
#else
  int* p = c.current(); int* q = c.begin(); (void)p; (void)q;
#endif
}
