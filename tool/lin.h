// Linear integer expressions, uninterpreted prefix sums, and a conjunctive linear-inequality domain.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
typedef long long i64;
typedef __int128 i128;

struct Lin {
  i64 c = 0;
  std::vector<std::pair<int, i64>> t;  // sorted by variable
  Lin() {}
  Lin(i64 k) : c(k) {}
  static Lin var(int v, i64 k = 1) { Lin l; if (k) l.t.push_back({v, k}); return l; }
  bool isConst() const { return t.empty(); }
  bool operator==(Lin const& o) const { return c == o.c && t == o.t; }
  bool operator!=(Lin const& o) const { return !(*this == o); }
  bool operator<(Lin const& o) const { return c != o.c ? c < o.c : t < o.t; }
  Lin& add(Lin const& o, i64 k) {
    c += o.c * k;
    if (o.t.empty()) return *this;
    std::vector<std::pair<int, i64>> r;
    r.reserve(t.size() + o.t.size());
    size_t i = 0, j = 0;
    while (i < t.size() || j < o.t.size()) {
      if (j == o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) r.push_back(t[i++]);
      else if (i == t.size() || o.t[j].first < t[i].first) { r.push_back({o.t[j].first, o.t[j].second * k}); ++j; }
      else { i64 s = t[i].second + o.t[j].second * k; if (s) r.push_back({t[i].first, s}); ++i; ++j; }
    }
    t.swap(r);
    return *this;
  }
  i64 coef(int v) const { for (auto& p : t) if (p.first == v) return p.second; return 0; }
};
inline Lin operator+(Lin a, Lin const& b) { return a.add(b, 1); }
inline Lin operator-(Lin a, Lin const& b) { return a.add(b, -1); }
inline Lin operator-(Lin const& a) { Lin r; return r.add(a, -1); }
inline Lin operator*(Lin const& a, i64 k) { Lin r; if (k) r.add(a, k); return r; }

// Variables: plain symbols, and PS(group, arg): the sum of the sizes of the first arg children of a group.
struct VarInfo { std::string name; int g = -1; Lin arg; };
struct VarTable {
  std::vector<VarInfo> v;
  std::map<std::pair<int, Lin>, int> ps;
  VarTable() { v.push_back({"i", -1, Lin()}); }  // variable 0: the index bound inside an array segment
  int sym(std::string n) { v.push_back({n, -1, Lin()}); return (int)v.size() - 1; }
  int psum(int g, Lin const& a) {
    auto key = std::make_pair(g, a);
    auto it = ps.find(key);
    if (it != ps.end()) return it->second;
    v.push_back({"", g, a});
    return ps[key] = (int)v.size() - 1;
  }
};
extern VarTable VT;
const int IOTA = 0;
inline bool mentions(Lin const& l, int var) {
  for (auto& p : l.t) { if (p.first == var) return true; if (VT.v[p.first].g >= 0 && mentions(VT.v[p.first].arg, var)) return true; }
  return false;
}
inline Lin subst(Lin const& l, int var, Lin const& by) {
  bool any = false;
  for (auto& p : l.t) if (p.first == var || VT.v[p.first].g >= 0) { any = true; break; }
  if (!any) return l;
  Lin r(l.c);
  for (auto& p : l.t) {
    if (p.first == var) r.add(by, p.second);
    else if (VT.v[p.first].g >= 0 && mentions(VT.v[p.first].arg, var)) {
      Lin a = subst(VT.v[p.first].arg, var, by);
      int g = VT.v[p.first].g;
      r.add(Lin::var(VT.psum(g, a)), p.second);
    } else r.add(Lin::var(p.first), p.second);
  }
  return r;
}
std::string str(Lin const& l);
inline void atomsOf(Lin const& l, std::vector<int>& out) {
  for (auto& p : l.t) if (VT.v[p.first].g >= 0) { out.push_back(p.first); atomsOf(VT.v[p.first].arg, out); }
}

// Is the conjunction of cons[i] >= 0 rationally satisfiable?  On success a vertex may be returned.
bool lpFeasible(std::vector<Lin const*> const& cons, std::map<int, std::pair<i64, i64>>* model = nullptr);
// Searches an integer solution by branch and bound. 1 found, 0 none, -1 gave up.
int intModel(std::vector<Lin> cons, std::map<int, i64>& model);

struct GroupBounds { i64 lo, hi; };
extern std::vector<GroupBounds> GB;  // per group: bounds of one child's size

struct Model { std::unordered_map<int, std::pair<i64, i64>> v; bool sat(Lin const& l) const; };
struct Simplex;
struct Num {  // conjunction of linear constraints over integer symbols
  std::vector<Lin> cons;
  std::set<int> atoms;
  std::set<std::pair<int, int>> related;
  unsigned ver = 0;
  mutable std::vector<std::shared_ptr<Model const>> wit;  // points known to satisfy all constraints
  mutable std::shared_ptr<Simplex> base;  // solved tableau of the constraints ...
  mutable std::vector<Lin> pend;          // ... but for these
  bool bottom = false;
  static unsigned nextVer();
  void add(Lin l);                  // l >= 0
  void addEq(Lin const& l) { add(l); add(-l); }
  void touch(Lin const& l);         // make the prefix-sum atoms of l known
  bool feasibleWith(Lin const* a, Lin const* b = nullptr) const;
  bool feasible() const { return !bottom && feasibleWith(nullptr); }
  bool provesGe(Lin const& l) const;  // l >= 0
  bool provesEq(Lin const& l) const { return l.isConst() ? l.c == 0 : provesGe(l) && provesGe(-l); }
  void saturate();
  // -1: infeasible, i.e. l>=0 impossible even after relating the prefix sums
  bool deepInfeasible(std::vector<Lin> const& extra) const;
};
extern long long NLP;
