// @prop C23
// @mode pass
// @what the whole container instantiates for extreme targets
#include <boost/segmented_tree/seq.hpp>
struct B { char c[3000]; };
template class boost::segmented_tree::seq<int, std::allocator<int>, 0, 0>;
template class boost::segmented_tree::seq<int, std::allocator<int>, 1, 1>;
template class boost::segmented_tree::seq<int, std::allocator<int>, 4, 64>;
template class boost::segmented_tree::seq<int, std::allocator<int>, 8, 80>;
template class boost::segmented_tree::seq<int, std::allocator<int>, 1 << 20, 1 << 19>;
template class boost::segmented_tree::seq<char, std::allocator<char>, 100000, 1 << 21>;
