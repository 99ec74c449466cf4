#include "lin.h"
#include <numeric>
#include <climits>
VarTable VT;
std::vector<GroupBounds> GB;
long long NLP = 0;

std::string str(Lin const& l) {
  std::string s;
  for (auto& p : l.t) {
    i64 k = p.second;
    std::string n = VT.v[p.first].g >= 0 ? "sum" + std::to_string(VT.v[p.first].g) + "[0.." + str(VT.v[p.first].arg) + ")" : VT.v[p.first].name;
    if (k < 0) s += s.empty() ? "-" : " - "; else if (!s.empty()) s += " + ";
    if (k != 1 && k != -1) s += std::to_string(k < 0 ? -k : k) + "*";
    s += n;
  }
  if (l.c || s.empty()) {
    if (s.empty()) s = std::to_string(l.c);
    else s += (l.c < 0 ? " - " : " + ") + std::to_string(l.c < 0 ? -l.c : l.c);
  }
  return s;
}

namespace {
struct Ovf {};
struct Q {
  i64 n = 0, d = 1;
};
inline i64 nar(i128 x) { if (x > (i128)4e18 || x < -(i128)4e18) throw Ovf(); return (i64)x; }
inline i128 g128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
inline Q mk(i128 n, i128 d) {
  if (d < 0) { n = -n; d = -d; }
  if (d != 1) { i128 g = g128(n, d); if (g > 1) { n /= g; d /= g; } }
  Q q; q.n = nar(n); q.d = nar(d); return q;
}
inline Q qadd(Q a, Q b) { if (a.d == 1 && b.d == 1) { Q q; q.n = nar((i128)a.n + b.n); return q; } return mk((i128)a.n * b.d + (i128)b.n * a.d, (i128)a.d * b.d); }
inline Q qsub(Q a, Q b) { b.n = -b.n; return qadd(a, b); }
inline Q qmul(Q a, Q b) { if (a.d == 1 && b.d == 1) { Q q; q.n = nar((i128)a.n * b.n); return q; } return mk((i128)a.n * b.n, (i128)a.d * b.d); }
inline Q qdiv(Q a, Q b) { return mk((i128)a.n * b.d, (i128)a.d * b.n); }
inline int qcmp(Q a, Q b) { i128 x = (i128)a.n * b.d, y = (i128)b.n * a.d; return x < y ? -1 : x > y; }

typedef std::vector<std::pair<int, Q>> Row;  // sparse, sorted by column
inline Q rget(Row const& r, int j) {
  auto it = std::lower_bound(r.begin(), r.end(), j, [](std::pair<int, Q> const& p, int k) { return p.first < k; });
  return it != r.end() && it->first == j ? it->second : Q();
}
// a + k * b
inline Row radd(Row const& a, Q k, Row const& b, int skip = -1) {
  Row r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) { if (a[i].first != skip) r.push_back(a[i]); ++i; }
    else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, qmul(k, b[j].second)}); ++j; }
    else { Q x = a[i].first == skip ? qmul(k, b[j].second) : qadd(a[i].second, qmul(k, b[j].second)); if (x.n) r.push_back({a[i].first, x}); ++i; ++j; }
  }
  return r;
}
}  // namespace
// general simplex over bounded variables (Dutertre, de Moura), incremental: constraints may be added at any time,
// rows are shared between copies
struct Simplex {
  struct Col { bool hl = false, hu = false; Q lo, hi, val; int row = -1; };
  std::vector<Col> c;
  std::vector<int> basic;                           // row -> basic variable
  std::vector<std::shared_ptr<Row const>> tab;      // over non-basic variables
  typedef std::unordered_map<int, int> Idx;         // symbol -> column
  typedef std::map<std::vector<std::pair<int, i64>>, int> Forms;  // linear form -> slack column
  std::shared_ptr<Idx> idx_ = std::make_shared<Idx>();
  std::shared_ptr<Forms> forms_ = std::make_shared<Forms>();
  Idx const& idx() const { return *idx_; }
  bool bad = false;
  int addVar() { c.emplace_back(); return (int)c.size() - 1; }
  int get(int v) {
    auto it = idx_->find(v);
    if (it != idx_->end()) return it->second;
    if (idx_.use_count() > 1) idx_ = std::make_shared<Idx>(*idx_);
    return (*idx_)[v] = addVar();
  }
  void moveTo(int j, Q v) {  // a non-basic variable
    Q d = qsub(v, c[j].val);
    c[j].val = v;
    for (size_t r = 0; r < tab.size(); ++r) { Q a = rget(*tab[r], j); if (a.n) c[basic[r]].val = qadd(c[basic[r]].val, qmul(a, d)); }
  }
  void add(Lin const& l, bool temp = false) {  // l >= 0
    if (bad) return;
    if (l.t.empty()) { if (l.c < 0) bad = true; return; }
    i64 g = 0;
    for (auto& p : l.t) g = std::gcd(g, p.second < 0 ? -p.second : p.second);
    i64 ag = g, bnd = -l.c;
    if (l.t[0].second < 0) g = -g;
    i64 q = bnd >= 0 ? (bnd + ag - 1) / ag : -((-bnd) / ag);
    int v;
    if (l.t.size() == 1) v = get(l.t[0].first);
    else {
      std::vector<std::pair<int, i64>> key;
      for (auto& p : l.t) key.push_back({p.first, p.second / g});
      auto it = forms_->find(key);
      if (it != forms_->end()) v = it->second;
      else {
        Row row;
        Q val;
        for (auto& p : key) {
          int j = get(p.first);
          Q k{p.second, 1};
          val = qadd(val, qmul(k, c[j].val));
          if (c[j].row >= 0) row = radd(row, k, *tab[c[j].row]);
          else row = radd(row, k, Row{{j, Q{1, 1}}});
        }
        v = addVar();
        if (!temp) { if (forms_.use_count() > 1) forms_ = std::make_shared<Forms>(*forms_); (*forms_)[key] = v; }
        c[v].val = val;
        c[v].row = (int)tab.size();
        basic.push_back(v);
        tab.push_back(std::make_shared<Row const>(std::move(row)));
      }
    }
    Q x;
    Col& C = c[v];
    if (g > 0) { x = Q{q, 1}; if (C.hl && qcmp(C.lo, x) >= 0) return; C.hl = true; C.lo = x; if (C.hu && qcmp(C.hi, x) < 0) { bad = true; return; } if (C.row < 0 && qcmp(C.val, x) < 0) moveTo(v, x); }
    else { x = Q{-q, 1}; if (C.hu && qcmp(C.hi, x) <= 0) return; C.hu = true; C.hi = x; if (C.hl && qcmp(C.lo, x) > 0) { bad = true; return; } if (C.row < 0 && qcmp(C.val, x) > 0) moveTo(v, x); }
  }
  bool solve() {
    if (bad) return false;
    for (int iter = 0; iter < 5000; ++iter) {
      int r = -1, bv = INT_MAX; bool low = false;
      for (size_t k = 0; k < basic.size(); ++k) {
        int b = basic[k];
        if (b >= bv) continue;
        if (c[b].hl && qcmp(c[b].val, c[b].lo) < 0) { r = (int)k; bv = b; low = true; }
        else if (c[b].hu && qcmp(c[b].val, c[b].hi) > 0) { r = (int)k; bv = b; low = false; }
      }
      if (r < 0) return true;
      int e = -1;
      Q a;
      for (auto& p : *tab[r]) {
        int j = p.first;
        bool up = (p.second.n > 0) == low;  // must x_j increase?
        if (up ? (!c[j].hu || qcmp(c[j].val, c[j].hi) < 0) : (!c[j].hl || qcmp(c[j].val, c[j].lo) > 0)) { e = j; a = p.second; break; }
      }
      if (e < 0) { bad = true; return false; }
      Q target = low ? c[bv].lo : c[bv].hi;
      Q theta = qdiv(qsub(target, c[bv].val), a);
      c[bv].val = target;
      c[e].val = qadd(c[e].val, theta);
      // the row of e: (bv - others) / a
      Q inv = qdiv(Q{1, 1}, a);
      Row R;
      R.reserve(tab[r]->size());
      bool put = false;
      for (auto& p : *tab[r]) {
        if (!put && p.first > bv) { R.push_back({bv, inv}); put = true; }
        if (p.first == e) continue;
        Q x = qmul(p.second, inv);
        x.n = -x.n;
        R.push_back({p.first, x});
      }
      if (!put) R.push_back({bv, inv});
      for (size_t k = 0; k < tab.size(); ++k) if ((int)k != r) {
        Q f = rget(*tab[k], e);
        if (!f.n) continue;
        c[basic[k]].val = qadd(c[basic[k]].val, qmul(f, theta));
        tab[k] = std::make_shared<Row const>(radd(*tab[k], f, R, e));
      }
      tab[r] = std::make_shared<Row const>(std::move(R));
      c[bv].row = -1; c[e].row = r; basic[r] = e;
    }
    throw Ovf();
  }
};

bool lpFeasible(std::vector<Lin const*> const& cons, std::map<int, std::pair<i64, i64>>* model) {
  ++NLP;
  try {
    Simplex s;
    for (auto l : cons) { s.add(*l); if (s.bad) return false; }
    if (!s.solve()) return false;
    if (model) for (auto& kv : s.idx()) (*model)[kv.first] = {s.c[kv.second].val.n, s.c[kv.second].val.d};
    return true;
  } catch (Ovf&) { return true; }
}

static int bb(std::vector<Lin>& cons, std::map<int, i64>& model, int& budget) {
  if (--budget < 0) return -1;
  std::vector<Lin const*> p;
  for (auto& l : cons) p.push_back(&l);
  std::map<int, std::pair<i64, i64>> m;
  if (!lpFeasible(p, &m)) return 0;
  if (m.empty() && !cons.empty()) { bool any = false; for (auto& l : cons) if (!l.t.empty()) any = true; if (any) return -1; }
  for (auto& kv : m) if (kv.second.second != 1) {
    i64 n = kv.second.first, d = kv.second.second;
    i64 f = n >= 0 ? n / d : -((-n + d - 1) / d);
    cons.push_back(Lin(f) - Lin::var(kv.first));
    int r = bb(cons, model, budget);
    cons.pop_back();
    if (r) return r;
    cons.push_back(Lin::var(kv.first) - Lin(f + 1));
    r = bb(cons, model, budget);
    cons.pop_back();
    return r;
  }
  for (auto& kv : m) model[kv.first] = kv.second.first;
  return 1;
}
int intModel(std::vector<Lin> cons, std::map<int, i64>& model) { int budget = 400; return bb(cons, model, budget); }

unsigned Num::nextVer() { static unsigned v = 0; return ++v; }

static Lin tighten(Lin l) {
  i64 g = 0;
  for (auto& p : l.t) g = std::gcd(g, p.second < 0 ? -p.second : p.second);
  if (g > 1) { for (auto& p : l.t) p.second /= g; l.c = l.c >= 0 ? l.c / g : -((-l.c + g - 1) / g); }
  return l;
}
bool Model::sat(Lin const& l) const {
  // l >= 0 at this point?  unassigned variables are zero
  i128 n = l.c, d = 1;
  for (auto& p : l.t) {
    auto it = v.find(p.first);
    if (it == v.end()) continue;
    i128 kn = (i128)p.second * it->second.first, kd = it->second.second;
    if (kd == d) n += kn;
    else { n = n * kd + kn * d; d *= kd; i128 g = g128(n, d); if (g > 1) { n /= g; d /= g; } }
    if (d > ((i128)1 << 60) || n > ((i128)1 << 100) || n < -((i128)1 << 100)) return false;
  }
  return n >= 0;
}
void Num::add(Lin l) {
  if (l.isConst()) { if (l.c < 0) bottom = true; return; }
  l = tighten(l);
  touch(l);
  for (size_t i = 0; i < wit.size();) if (!wit[i]->sat(l)) wit.erase(wit.begin() + i); else ++i;
  for (auto& k : cons) if (k.t == l.t) { if (k.c <= l.c) return; k.c = l.c; ver = nextVer(); pend.push_back(l); return; }
  cons.push_back(l);
  pend.push_back(l);
  ver = nextVer();
}
static void relate(Num& n, int a, int b, bool known) {
  // arg(b) - arg(a) >= 0 known
  int g = VT.v[a].g;
  Lin d = VT.v[b].arg - VT.v[a].arg;
  Lin s = Lin::var(b) - Lin::var(a);
  (void)known;
  n.related.insert({std::min(a, b), std::max(a, b)});
  n.add(s - d * GB[g].lo);
  n.add(d * GB[g].hi - s);
}
void Num::touch(Lin const& l) {
  std::vector<int> as;
  atomsOf(l, as);
  for (int a : as) {
    if (mentions(VT.v[a].arg, IOTA)) continue;
    if (!atoms.insert(a).second) continue;
    int g = VT.v[a].g;
    std::vector<int> others;
    for (int b : atoms) if (b != a && VT.v[b].g == g) others.push_back(b);
    for (int b : others) {
      Lin d = VT.v[a].arg - VT.v[b].arg;
      if (d.isConst()) { if (d.c >= 0) relate(*this, b, a, true); else relate(*this, a, b, true); }
    }
  }
}
void Num::saturate() {
  for (int round = 0; round < 2; ++round) {
    std::vector<int> as(atoms.begin(), atoms.end());
    bool ch = false;
    for (size_t i = 0; i < as.size(); ++i)
      for (size_t j = i + 1; j < as.size(); ++j) {
        int a = as[i], b = as[j];
        if (VT.v[a].g != VT.v[b].g || related.count({a, b})) continue;
        Lin d = VT.v[b].arg - VT.v[a].arg;
        bool up = provesGe(d), dn = provesGe(-d);
        if (up && dn) { addEq(Lin::var(b) - Lin::var(a)); related.insert({a, b}); ch = true; }
        else if (up) { relate(*this, a, b, true); ch = true; }
        else if (dn) { relate(*this, b, a, true); ch = true; }
      }
    if (!ch) break;
  }
}
bool Num::feasibleWith(Lin const* a, Lin const* b) const {
  if (bottom) return false;
  if (a && a->isConst() && a->c < 0) return false;
  if (b && b->isConst() && b->c < 0) return false;
  for (auto& w : wit) if ((!a || w->sat(*a)) && (!b || w->sat(*b))) return true;
  auto remember = [&](Simplex const& s) {
    auto p = std::make_shared<Model>();
    for (auto& kv : s.idx()) p->v[kv.first] = {s.c[kv.second].val.n, s.c[kv.second].val.d};
    if (wit.size() >= 6) wit.erase(wit.begin());
    wit.push_back(p);
  };
  try {
    if (!pend.empty() || !base) {
      auto s = base ? std::make_shared<Simplex>(*base) : std::make_shared<Simplex>();
      for (auto& l : pend) s->add(l);
      ++NLP;
      s->solve();
      base = s;
      pend.clear();
      if (!s->bad) remember(*s);
    }
    if (base->bad) return false;
    if (!a && !b) return true;
    for (auto& w : wit) if ((!a || w->sat(*a)) && (!b || w->sat(*b))) return true;
    Simplex s = *base;
    if (a) s.add(*a, true);
    if (b) s.add(*b, true);
    ++NLP;
    if (!s.solve()) return false;
    remember(s);
    return true;
  } catch (Ovf&) {  // a fresh start often needs fewer digits
    std::vector<Lin const*> sel;
    for (auto& l : cons) sel.push_back(&l);
    base = nullptr;
    pend.clear();
    for (auto& l : cons) pend.push_back(l);
    if (a) sel.push_back(a);
    if (b) sel.push_back(b);
    return lpFeasible(sel);
  }
}
static std::unordered_map<unsigned, std::map<Lin, bool>> memo;
bool Num::provesGe(Lin const& l0) const {
  if (bottom) return true;
  Lin l = tighten(l0);
  if (l.isConst()) return l.c >= 0;
  for (auto& k : cons) if (k.t == l.t && k.c <= l.c) return true;
  if (memo.size() > 20000) memo.clear();
  auto& m = memo[ver];
  auto it = m.find(l);
  if (it != m.end()) return it->second;
  Lin neg = Lin(-1) - l;
  bool r = !feasibleWith(&neg);
  memo[ver][l] = r;
  return r;
}
bool Num::deepInfeasible(std::vector<Lin> const& extra) const {
  Num n = *this;
  for (auto& l : extra) n.add(l);
  if (n.bottom || !n.feasible()) return true;
  if (n.atoms.empty()) return false;
  n.saturate();
  return n.bottom || !n.feasible();
}
