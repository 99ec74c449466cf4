// @prop C22
// @mode pass
// @what min/max macros (as windows.h defines them) and the debug macro do not break the header
#include <algorithm>
#include <array>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <cstring>
#define min(a, b) ((a) < (b) ? (a) : (b))
#define max(a, b) ((a) > (b) ? (a) : (b))
#include <boost/segmented_tree/seq.hpp>
void g(boost::segmented_tree::seq<int>& f) { f.push_back(1); (void)f.max_size(); f.sort(); f.resize(3); }
