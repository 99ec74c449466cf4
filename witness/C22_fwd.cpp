// @prop C22
// @mode pass
// @warn
// @what seq_fwd.hpp alone declares the template with its defaults
#include <boost/segmented_tree/seq_fwd.hpp>
#include <boost/segmented_tree/seq_fwd.hpp>
void g(boost::segmented_tree::seq<int>* p);
void g(boost::segmented_tree::seq<int>*) {}
