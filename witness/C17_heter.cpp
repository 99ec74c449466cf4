// @prop C17
// @mode pass
// @what ranges of any input iterator and convertible value types are accepted; moving never asks for a copy
#include <boost/segmented_tree/seq.hpp>
#include <iterator>
#include <sstream>
#include <list>
#include <forward_list>
#include <string>
using boost::segmented_tree::seq;
void input(std::istream& is, seq<int>& s) {
  std::istream_iterator<int> a(is), b;
  seq<int> t(a, b);
  s.assign(a, b);
  s.insert(s.begin(), a, b);
}
void conv(seq<std::string>& s, std::list<char const*>& l, std::forward_list<std::string>& f) {
  seq<std::string> t(l.begin(), l.end());
  s.insert(s.begin(), l.begin(), l.end());
  s.assign(f.begin(), f.end());
  s.insert(s.end(), f.begin(), f.end());
  s.emplace_back("x");
  s.emplace(s.begin(), 3u, 'c');
  s.push_back("y");
  s.remove("x");
  s = {"a", "b"};
}
struct M { M(int); M(M&&); M& operator=(M&&); };
struct Wrapper {  // defaulted move operations of a class holding a sequence of move-only elements
  seq<M> v;
  Wrapper() = default;
  Wrapper(Wrapper&&) = default;
  Wrapper& operator=(Wrapper&&) = default;
};
static_assert(std::is_nothrow_move_constructible<Wrapper>::value, "");
