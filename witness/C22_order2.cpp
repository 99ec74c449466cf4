// @prop C22
// @mode pass
// @warn
// @what after other headers and with hostile macros absent, main header first
#include <boost/segmented_tree/seq.hpp>
#include <boost/segmented_tree/seq_fwd.hpp>
#include <vector>
#include <string>
#include <map>
using namespace std;
using namespace boost::segmented_tree;
void g(seq<string>& f);
void g(seq<string>& f) { f.push_back("a"); f.sort(); f.erase(f.begin()); f.insert(f.begin(), 2, "x"); }
