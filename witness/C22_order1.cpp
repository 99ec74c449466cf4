// @prop C22
// @mode pass
// @warn
// @what forward header first, both twice
#include <boost/segmented_tree/seq_fwd.hpp>
using F = boost::segmented_tree::seq<int>;
#include <boost/segmented_tree/seq.hpp>
#include <boost/segmented_tree/seq_fwd.hpp>
#include <boost/segmented_tree/seq.hpp>
void g(F& f);
void g(F& f) { f.push_back(1); f.sort(); }
