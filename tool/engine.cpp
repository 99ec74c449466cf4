#include <chrono>
#include "engine.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <cstdio>
using namespace llvm;

std::string demangled(StringRef n) { return llvm::demangle(n.str()); }
static bool DBG = getenv("ST_DEBUG") != nullptr;

// ---------------------------------------------------------------- values
std::string str(Val const& v) {
  switch (v.k) {
    case Val::UNDEF: return "undef";
    case Val::UNK: return "unknown";
    case Val::INT: return str(v.a);
    case Val::BOOL: return "(" + str(v.a) + (v.id == 0 ? ">=0)" : v.id == 1 ? "==0)" : "!=0)");
    case Val::NUL: return "null";
    case Val::REG: return "&r" + std::to_string(v.id) + (v.sub ? "." + std::to_string(v.sub) : "") + "+" + str(v.off);
    case Val::ITEM: return "item" + std::to_string(v.id) + "[" + str(v.a) + "]" + (v.sub ? "." + std::to_string(v.sub) : "") + "+" + str(v.off);
    case Val::FN: return "global";
    case Val::EE: return "old[" + str(v.a) + "]";
    case Val::EV: return "new#" + std::to_string(v.id);
    case Val::EM: return "moved-from";
    case Val::ZERO: return "zero";
    case Val::AGG: return "agg";
    case Val::FELT: return "elt" + std::to_string(v.id) + "@" + str(v.a);
  }
  return "?";
}
std::string str(Arr const& a) {
  std::string s;
  for (auto& c : a) s += "[" + str(c.b) + "," + str(c.e) + "):" + str(c.v) + " ";
  return s;
}
bool same(Val const& a, Val const& b) {
  if (a.k != b.k || a.sub != b.sub || a.id != b.id || a.p != b.p) return false;
  if (a.k == Val::AGG) {
    if (a.agg == b.agg) return true;
    if (!a.agg || !b.agg || a.agg->size() != b.agg->size()) return false;
    for (size_t i = 0; i < a.agg->size(); ++i) if (!same((*a.agg)[i], (*b.agg)[i])) return false;
    return true;
  }
  return a.a == b.a && a.off == b.off;
}
Val substV(Val const& v, int var, Lin const& by) {
  Val r = v;
  r.a = subst(v.a, var, by);
  r.off = subst(v.off, var, by);
  if (v.agg) { r.agg = std::make_shared<std::vector<Val>>(*v.agg); for (auto& x : *r.agg) x = substV(x, var, by); }
  return r;
}
static Val at(Chunk const& c, Lin const& i) { return substV(c.v, IOTA, i); }

// ---------------------------------------------------------------- deciding
std::string Engine::loc(State& s) {
  if (s.fr.empty()) return "";
  for (size_t i = s.fr.size(); i-- > 0;) {
    Frame& f = s.fr[i];
    if (f.it == f.bb->end()) continue;
    if (auto& dl = f.it->getDebugLoc())
      if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) {
        std::string fn = sc->getFilename().str();
        if (fn.find("segmented_tree") == std::string::npos && i > 0) continue;
        size_t p = fn.rfind('/');
        std::string nm = f.fi->name;
        size_t q = nm.find('(');
        if (q != std::string::npos) nm = nm.substr(0, q);
        size_t q2 = nm.rfind("::");
        if (q2 != std::string::npos) nm = nm.substr(q2 + 2);
        return (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(dl.getLine()) + " (" + nm + ")";
      }
  }
  return s.fr.back().fi->name;
}
bool Engine::ge(State& s, Lin const& l, char const* why) {
  if (s.logDec && (s.dec.empty() || !(s.dec.back() == l))) s.dec.push_back(l);
  if (l.isConst()) return l.c >= 0;
  Lin neg = Lin(-1) - l;
  if (s.num->provesGe(l)) return true;
  if (s.num->provesGe(neg)) return false;
  s.n().touch(l);
  if (!s.num->atoms.empty()) {
    if (s.num->deepInfeasible({l})) { s.n().add(neg); return false; }
    if (s.num->deepInfeasible({neg})) { s.n().add(l); return true; }
  }
  throw Fork{{{{l}, -1, str(l) + " >= 0"}, {{neg}, -1, str(l) + " < 0"}}};
}
bool Engine::eq(State& s, Lin const& l, char const* why) {
  if (s.logDec && (s.dec.empty() || !(s.dec.back() == l))) s.dec.push_back(l);
  if (l.isConst()) return l.c == 0;
  bool gp = s.num->provesGe(l), lp = s.num->provesGe(-l);
  if (gp && lp) return true;
  Lin p = l - Lin(1), m = Lin(-1) - l;
  if (gp && s.num->provesGe(p)) return false;
  if (lp && s.num->provesGe(m)) return false;
  s.n().touch(l);
  std::vector<Alt> alts;
  if (!s.num->deepInfeasible({l, -l})) alts.push_back({{l, -l}, -1, str(l) + " == 0"});
  bool e = !alts.empty();
  if (!gp || true) if (!s.num->deepInfeasible({p})) alts.push_back({{p}, -1, str(l) + " > 0"});
  if (!lp || true) if (!s.num->deepInfeasible({m})) alts.push_back({{m}, -1, str(l) + " < 0"});
  if (alts.empty()) { s.n().bottom = true; throw Fork{{}}; }
  if (alts.size() == 1) { for (auto& c : alts[0].cons) s.n().add(c); return e; }
  if (!e) {  // known to differ, sign unknown
    return false;
  }
  throw Fork{alts};
}
int Engine::choose(State& s, int n, std::string const& what) {
  if (s.choice >= 0) return s.choice;
  Fork f;
  for (int i = 0; i < n; ++i) f.alts.push_back({{}, i, what + " -> " + std::to_string(i)});
  throw f;
}
bool Engine::truth(State& s, Val const& v) {
  if (v.k == Val::UNDEF) throw Bug{"C25", "uninit", "a decision is taken on a value that was never written"};
  if (v.k == Val::INT && v.a.isConst()) return v.a.c != 0;
  if (v.k == Val::INT) return !eq(s, v.a);
  if (v.k != Val::BOOL) throw Undec{"branch on " + str(v)};
  if (v.id == 0) return ge(s, v.a);
  if (v.id == 1) return eq(s, v.a);
  return !eq(s, v.a);
}
// ---------------------------------------------------------------- arrays
size_t Engine::find(State& s, Arr const& a, Lin const& idx) {
  for (size_t i = 0; i < a.size(); ++i)
    if (s.num->provesGe(idx - a[i].b) && s.num->provesGe(a[i].e - idx - Lin(1))) return i;
  for (size_t i = 0; i + 1 < a.size(); ++i) {
    Lin l = a[i].e - idx - Lin(1);
    if (ge(s, l)) return i;
  }
  if (a.empty()) throw Undec{"empty array"};
  return a.size() - 1;
}
Val Engine::readAt(State& s, Arr const& a, Lin const& idx) { return at(a[find(s, a, idx)], idx); }
bool Engine::semEq(State& s, Val const& a, Val const& b) {
  if (a.k == Val::UNK || b.k == Val::UNK) return a.k == b.k;
  if (same(a, b)) return true;
  if (a.k != b.k || a.sub != b.sub || a.id != b.id || a.p != b.p) return false;
  if (a.k == Val::AGG) {
    if (!a.agg || !b.agg || a.agg->size() != b.agg->size()) return false;
    for (size_t i = 0; i < a.agg->size(); ++i) if (!semEq(s, (*a.agg)[i], (*b.agg)[i])) return false;
    return true;
  }
  return s.num->provesEq(a.a - b.a) && s.num->provesEq(a.off - b.off);
}
static bool usesIota(Val const& v) { return mentions(v.a, IOTA) || mentions(v.off, IOTA); }
static Lin bumpPS(Lin const& l, Lin const& d) {  // add d to every prefix-sum argument
  Lin r(l.c);
  for (auto& p : l.t) {
    auto g = VT.v[p.first].g;
    if (g >= 0) { Lin a = VT.v[p.first].arg + d; r.add(Lin::var(VT.psum(g, a)), p.second); }
    else r.add(Lin::var(p.first), p.second);
  }
  return r;
}
void Engine::coalesce(State& s, Arr& a) {
  // drop empty pieces
  for (size_t i = 0; i < a.size();) {
    if (a.size() > 1 && s.num->provesGe(a[i].b - a[i].e)) a.erase(a.begin() + i);
    else ++i;
  }
  for (size_t i = 0; i + 1 < a.size();) {
    Chunk &x = a[i], &y = a[i + 1];
    bool merged = false;
    if (x.v.k == y.v.k && x.v.id == y.v.id && x.v.sub == y.v.sub) {
      bool sx = (x.e - x.b) == Lin(1), sy = (y.e - y.b) == Lin(1);
      bool ix = usesIota(x.v), iy = usesIota(y.v);
      Val t;
      if (same(x.v, y.v)) { t = x.v; merged = true; }
      else if (x.v.k == Val::INT || x.v.k == Val::ITEM || x.v.k == Val::EE || x.v.k == Val::EV) {
        if (ix && iy) { if (semEq(s, x.v, y.v)) { t = x.v; merged = true; } }
        else if (ix && sy) { if (semEq(s, at(x, y.b), y.v)) { t = x.v; merged = true; } }
        else if (iy && sx) { if (semEq(s, at(y, x.b), x.v)) { t = y.v; merged = true; } }
        else if (!ix && !iy) {
          if (semEq(s, x.v, y.v)) { t = x.v; merged = true; }
          else if (sx && sy) {
            Lin d = Lin::var(IOTA) - x.b;
            Val c1 = x.v; c1.a = bumpPS(x.v.a, d);
            Val c2 = x.v; c2.a = x.v.a + d;
            Chunk k1{x.b, y.e, c1}, k2{x.b, y.e, c2};
            if (semEq(s, at(k2, y.b), y.v)) { t = c2; merged = true; }
            else if (semEq(s, at(k1, y.b), y.v)) { t = c1; merged = true; }
          }
        }
      }
      if (merged) { x.e = y.e; x.v = t; a.erase(a.begin() + i + 1); continue; }
    }
    ++i;
  }
}
void Engine::writeAt(State& s, Arr& a, Lin const& idx, Val v) {
  size_t i = find(s, a, idx);
  Chunk c = a[i];
  std::vector<Chunk> n;
  Lin e = idx + Lin(1);
  if (!s.num->provesGe(c.b - idx)) n.push_back({c.b, idx, c.v});
  n.push_back({idx, e, v});
  if (!s.num->provesGe(e - c.e)) n.push_back({e, c.e, c.v});
  a.erase(a.begin() + i);
  a.insert(a.begin() + i, n.begin(), n.end());
  coalesce(s, a);
}
size_t Engine::splitAt(State& s, Arr& a, Lin const& pos) {
  // index of the first chunk starting at pos
  for (size_t i = 0; i < a.size(); ++i) if (s.num->provesEq(a[i].b - pos)) return i;
  if (!a.empty() && s.num->provesEq(a.back().e - pos)) return a.size();
  for (size_t i = 0; i < a.size(); ++i) {
    if (!ge(s, a[i].e - pos - Lin(1))) continue;  // chunk ends at or before pos
    // pos < end; and pos >= begin by what was decided before
    if (i == 0 || true) {
      if (eq(s, pos - a[i].b)) return i;
    }
    Chunk r = a[i];
    r.b = pos;
    a[i].e = pos;
    a.insert(a.begin() + i + 1, r);
    return i + 1;
  }
  return a.size();
}
bool Engine::arrEq(State& s, Arr const& a0, Arr const& b0) {
  Arr a, b;
  for (auto& c : a0) if (!s.num->provesGe(c.b - c.e)) a.push_back(c);
  for (auto& c : b0) if (!s.num->provesGe(c.b - c.e)) b.push_back(c);
  coalesce(s, a); coalesce(s, b);
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (!s.num->provesEq(a[i].b - b[i].b) || !s.num->provesEq(a[i].e - b[i].e)) return false;
    if (semEq(s, a[i].v, b[i].v)) continue;
    if (s.num->provesEq(a[i].e - a[i].b - Lin(1)) && semEq(s, at(a[i], a[i].b), at(b[i], a[i].b))) continue;
    return false;
  }
  return true;
}
// ---------------------------------------------------------------- memory
int Engine::newLocal(State& s, std::string name, i64 size) {
  auto r = std::make_shared<Region>();
  r->name = name;
  r->size = size;
  s.R.push_back(r);
  return (int)s.R.size() - 1;
}
int Engine::newGroup(State& s, int ht, Lin L, Lin base) {
  i64 lo = cfg.smin(), hi = cfg.smax;
  for (int i = 1; i < ht; ++i) { lo *= cfg.bmin(); hi *= cfg.bmax; if (hi > (1LL << 40)) hi = 1LL << 40; }
  GB.push_back({lo, hi});
  int g = (int)GB.size() - 1;
  auto p = std::make_shared<Group>();
  p->ht = ht; p->L = L; p->base = base;
  p->status = {{Lin(0), L, mkInt(0)}};
  s.G[g] = p;
  Lin z = Lin::var(VT.psum(g, Lin(0))), t = Lin::var(VT.psum(g, L));
  s.n().addEq(z);
  s.n().touch(t);
  // 0 <= L
  s.n().add(t - L * lo);
  s.n().add(L * hi - t);
  s.n().related.insert({std::min(z.t[0].first, t.t.empty() ? 0 : t.t[0].first), std::max(z.t[0].first, t.t.empty() ? 0 : t.t[0].first)});
  return g;
}
static Lin SZ(int g, Lin const& i) { return Lin::var(VT.psum(g, i + Lin(1))) - Lin::var(VT.psum(g, i)); }
int Engine::resolve(State& s, int g, Lin const& idx) {
  auto it = s.G.find(g);
  if (it == s.G.end()) throw Bug{"C25", "use-after-free", "a child of a released index node is used"};
  for (auto& m : it->second->mats) if (s.num->provesEq(m.first - idx)) return m.second;
  for (auto& m : it->second->mats) if (eq(s, m.first - idx)) return m.second;
  return -1;
}
int Engine::materialise(State& s, int g, Lin const& idx) {
  int r = resolve(s, g, idx);
  if (r >= 0) return r;
  Group const& G = *s.G[g];
  Val st = readAt(s, G.status, idx);
  if (st.a.c != 0) throw Bug{"C25", "use-after-free", "a block that was already given back is used"};
  // relate this index to the whole
  {
    Lin a = Lin::var(VT.psum(g, idx)), b = Lin::var(VT.psum(g, idx + Lin(1)));
    s.n().touch(a); s.n().touch(b);
    Lin z = Lin::var(VT.psum(g, Lin(0))), t = Lin::var(VT.psum(g, G.L));
    i64 lo = GB[g].lo, hi = GB[g].hi;
    s.n().add(a - z - idx * lo); s.n().add(idx * hi - a + z);
    Lin rest = G.L - idx - Lin(1);
    s.n().add(t - b - rest * lo); s.n().add(rest * hi - t + b);
  }
  auto p = std::make_shared<Region>();
  p->g = g; p->gi = idx; p->allocId = G.allocId;
  Lin base = G.base + Lin::var(VT.psum(g, idx)) - Lin::var(VT.psum(g, Lin(0)));
  int ht = G.ht;
  if (ht == 1) {
    p->kind = Region::SEG;
    p->name = "segment";
    p->allocN = Lin(cfg.smax);
    Lin len = SZ(g, idx);
    p->arr[0] = {{Lin(0), len, mkE(base + Lin::var(IOTA))}, {len, Lin(cfg.smax), Val()}};
    coalesce(s, p->arr[0]);
  } else {
    p->kind = Region::NODE;
    p->name = "node";
    p->allocN = Lin(1);
    Val pp = readAt(s, G.cpp, idx), pi = readAt(s, G.cpi, idx);
    Lin L = Lin::var(VT.sym("len" + std::to_string(ht) + "." + std::to_string(VT.v.size())));
    s.n().add(L - Lin(cfg.bmin()));
    s.n().add(Lin(cfg.bmax) - L);
    int ng = newGroup(s, ht - 1, L, base);
    s.wg(ng).allocId = G.allocId;
    Lin t = Lin::var(VT.psum(ng, L));
    s.n().addEq(t - SZ(g, idx));
    int rid = (int)s.R.size();
    Group& N = s.wg(ng);
    N.cpp = {{Lin(0), L, mkItem(g, idx)}};
    N.cpi = {{Lin(0), L, mkInt(Lin::var(IOTA))}};
    p->group = ng;
    p->cells[cfg.oParent] = {pp, 8};
    p->cells[cfg.oPidx] = {pi, cfg.wPidx};
    p->cells[cfg.oLen] = {mkInt(L), cfg.wLen};
    Lin i = Lin::var(IOTA);
    p->arr[0] = {{Lin(0), L, mkInt(SZ(ng, i))}, {L, Lin(cfg.bmax), Val()}};
    p->arr[1] = {{Lin(0), L, mkItem(ng, i)}, {L, Lin(cfg.bmax), Val()}};
    coalesce(s, p->arr[0]); coalesce(s, p->arr[1]);
    (void)rid;
  }
  s.R.push_back(p);
  int rid = (int)s.R.size() - 1;
  s.wg(g).mats.push_back({idx, rid});
  return rid;
}
i64 Engine::divide(Lin const& l, i64 k, Lin& q) {
  q = Lin();
  if (l.c % k) return -1;
  q.c = l.c / k;
  for (auto& p : l.t) { if (p.second % k) return -1; q.t.push_back({p.first, p.second / k}); }
  return 0;
}
// the region a pointer points into; p becomes region-relative
int Engine::regionOf(State& s, Val& p, bool forElems) {
  switch (p.k) {
    case Val::NUL: throw Bug{"C25", "null", "a null pointer is dereferenced"};
    case Val::UNDEF: throw Bug{"C25", "uninit", "a pointer that was never written is dereferenced"};
    case Val::REG: break;
    case Val::ITEM: {
      int r = materialise(s, p.id, p.a);
      Val q = mkReg(r, p.off);
      q.sub = p.sub;
      p = q;
      break;
    }
    default: throw Undec{"dereference of " + str(p)};
  }
  if (!s.R[p.id]) throw Bug{"C25", "dangling", "a local object is used after its lifetime"};
  if (s.R[p.id]->freed) throw Bug{"C25", "use-after-free", "a block that was already given back is used"};
  return p.id;
}
static bool inNodeArr(Config const& c, i64 off, int& sub, i64& rel) {
  if (off >= c.oSizes && off < c.oSizes + 8 * c.bmax) { sub = 1; rel = off - c.oSizes; return true; }
  if (off >= c.oPtrs && off < c.oPtrs + 8 * c.bmax) { sub = 2; rel = off - c.oPtrs; return true; }
  return false;
}
Val Engine::loadSz(State& s, Val p, i64 size, bool isPtr) {
  if (p.k == Val::ITEM && s.G.count(p.id) && s.G[p.id]->ht > 1 && p.sub == 0 && p.off.isConst() && (p.off.c == cfg.oParent || p.off.c == cfg.oPidx)) {
    int r = resolve(s, p.id, p.a);
    if (r < 0) {
      Group const& G = *s.G[p.id];
      if (readAt(s, G.status, p.a).a.c) throw Bug{"C25", "use-after-free", "a block that was already given back is read"};
      return p.off.c == cfg.oParent ? readAt(s, G.cpp, p.a) : readAt(s, G.cpi, p.a);
    }
  }
  int r = regionOf(s, p, false);
  Region const& R = *s.R[r];
  if (R.kind == Region::LOCAL) {
    if (!p.off.isConst()) throw Undec{"symbolic offset in " + R.name};
    i64 o = p.off.c;
    if (R.size >= 0 && (o < 0 || o + size > R.size)) throw Bug{"C25", "oob", "read outside " + R.name};
    auto it = R.cells.find(o);
    if (it != R.cells.end()) {
      if (it->second.size == size) {
        if (it->second.v.k == Val::ZERO) return isPtr ? mkK(Val::NUL) : mkInt(0);
        return it->second.v;
      }
      if (it->second.v.k == Val::ZERO) return isPtr ? mkK(Val::NUL) : mkInt(0);
      if (it->second.size > size) throw Undec{"partial read of " + R.name};
      // several fields at once, as a small object in a register
      Val pk = mkK(Val::AGG);
      pk.id = 77;
      pk.agg = std::make_shared<std::vector<Val>>();
      for (; it != R.cells.end() && it->first < o + size; ++it) {
        if (it->first + it->second.size > o + size || it->second.v.k == Val::ZERO || it->second.v.k == Val::AGG) throw Undec{"partial read of " + R.name};
        pk.agg->push_back(mkInt(it->first - o)); pk.agg->push_back(mkInt(it->second.size)); pk.agg->push_back(it->second.v);
      }
      return pk;
    }
    auto ub = R.cells.upper_bound(o);
    if (ub != R.cells.begin()) { --ub; if (ub->first + ub->second.size > o) { if (ub->second.v.k == Val::ZERO) return isPtr ? mkK(Val::NUL) : mkInt(0); throw Undec{"partial read of " + R.name}; } }
    if (R.zeroed) return isPtr ? mkK(Val::NUL) : mkInt(0);
    return Val();
  }
  if (R.kind == Region::NODE) {
    Lin off = p.off;
    int sub = p.sub;
    // looking at a back link of a child does not count as walking to it
    if (sub || !off.isConst() || (off.c != cfg.oParent && off.c != cfg.oPidx)) touch(s, r);
    if (sub == 0) {
      if (!off.isConst()) throw Undec{"symbolic offset in a node"};
      i64 rel;
      if (inNodeArr(cfg, off.c, sub, rel)) off = Lin(rel);
      else {
        auto it = R.cells.find(off.c);
        if (it != R.cells.end() && it->second.size == size) return it->second.v;
        if (off.c < 0 || off.c + size > cfg.nsz) throw Bug{"C25", "oob", "read outside an index node"};
        if (it != R.cells.end()) throw Undec{"partial read of an index node"};
        if (!cfg.knownInNode(off.c, size)) return mkK(Val::UNK);
        return Val();
      }
    }
    Lin idx;
    if (size != 8 || divide(off, 8, idx)) throw Undec{"odd access to a node array"};
    if (!ge(s, idx) || !ge(s, Lin(cfg.bmax - 1) - idx)) throw Bug{"C25", "oob", std::string("index ") + str(idx) + " outside the " + (sub == 1 ? "sizes" : "pointers") + " array of an index node"};
    return readAt(s, R.arr[sub - 1], idx);
  }
  if (size != 1) throw Bug{"C25", "type", "the storage of elements is read as if it were something else"};
  throw Undec{"raw read of element storage"};
}
Val Engine::load(State& s, Val p, Type* ty) {
  i64 sz = DL.getTypeStoreSize(ty);
  if (auto* st = dyn_cast<StructType>(ty)) {
    Val r = mkK(Val::AGG);
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.off = q.off + Lin((i64)DL.getStructLayout(st)->getElementOffset(i)); r.agg->push_back(load(s, q, st->getElementType(i))); }
    return r;
  }
  Val v = loadSz(s, p, sz, ty->isPointerTy());
  if (ty->isPointerTy() && v.k == Val::INT && v.a == Lin(0)) return mkK(Val::NUL);
  if (ty->isIntegerTy(8) && v.k == Val::BOOL) return v;
  return v;
}
static void putCell(Region& R, i64 o, i64 size, Val v) {
  // remove overlapped cells
  auto it = R.cells.lower_bound(o);
  if (it != R.cells.begin()) { auto pr = std::prev(it); if (pr->first + pr->second.size > o) { 
    if (pr->second.v.k == Val::ZERO) { i64 pe = pr->first + pr->second.size; Val z = pr->second.v; pr->second.size = o - pr->first; if (pe > o + size) R.cells[o + size] = {z, pe - o - size}; }
    else R.cells.erase(pr); } }
  it = R.cells.lower_bound(o);
  while (it != R.cells.end() && it->first < o + size) {
    if (it->second.v.k == Val::ZERO && it->first + it->second.size > o + size) { i64 pe = it->first + it->second.size; Val z = it->second.v; R.cells.erase(it); R.cells[o + size] = {z, pe - o - size}; break; }
    it = R.cells.erase(it);
  }
  if (v.k == Val::AGG && v.id == 77) {
    for (size_t i = 0; i + 2 < v.agg->size(); i += 3) R.cells[o + (*v.agg)[i].a.c] = {(*v.agg)[i + 2], (*v.agg)[i + 1].a.c};
    return;
  }
  R.cells[o] = {v, size};
}
void Engine::readOnly(State& s, int r) {
  if (s.ro && (r < 0 || s.R[r]->kind != Region::LOCAL || r == s.roReg))
    throw Bug{"C15", "write", std::string("a reading operation writes to ") + (r == s.roReg ? "the container" : r < 0 || s.R[r]->kind == Region::NODE ? "an index node" : "an element")};
}
void Engine::touch(State& s, int r) {
  if (s.limN < 0 || s.fr.empty()) return;
  bool node = s.R[r]->kind == Region::NODE;
  if (!node && s.R[r]->kind != Region::SEG) return;
  auto& t = node ? s.tn : s.ts;
  if (std::find(t.begin(), t.end(), r) != t.end()) return;
  t.push_back(r);
  if ((int)t.size() > 3 * (node ? s.limN : s.limS) + 8) throw Bug{"C24", "cost", "the operation touches more than " + std::to_string(t.size() - 1) + (node ? " index nodes" : " segments") + ", it is walking the sequence"};
}
void Engine::store(State& s, Val p, Val v, i64 size) {
  if (s.ro) readOnly(s, p.k == Val::REG ? p.id : p.k == Val::ITEM ? -1 : s.roReg);
  if (p.k == Val::ITEM && s.G.count(p.id) && s.G[p.id]->ht > 1 && p.sub == 0 && p.off.isConst() && (p.off.c == cfg.oParent || p.off.c == cfg.oPidx)) {
    int r = resolve(s, p.id, p.a);
    if (r < 0) {
      Group& G = s.wg(p.id);
      if (readAt(s, G.status, p.a).a.c) throw Bug{"C25", "use-after-free", "a block that was already given back is written"};
      Arr& A = p.off.c == cfg.oParent ? G.cpp : G.cpi;
      Arr cp = A;
      writeAt(s, cp, p.a, v);
      s.wg(p.id);
      (p.off.c == cfg.oParent ? s.wg(p.id).cpp : s.wg(p.id).cpi) = cp;
      return;
    }
  }
  int r = regionOf(s, p, false);
  Region const& R = *s.R[r];
  if (R.kind == Region::LOCAL) {
    if (!p.off.isConst()) throw Undec{"symbolic offset in " + R.name};
    i64 o = p.off.c;
    if (R.size >= 0 && (o < 0 || o + size > R.size)) throw Bug{"C25", "oob", "write outside " + R.name};
    putCell(s.wr(r), o, size, v);
    return;
  }
  if (R.kind == Region::NODE) {
    Lin off = p.off;
    int sub = p.sub;
    // looking at a back link of a child does not count as walking to it
    if (sub || !off.isConst() || (off.c != cfg.oParent && off.c != cfg.oPidx)) touch(s, r);
    if (sub == 0) {
      if (!off.isConst()) throw Undec{"symbolic offset in a node"};
      i64 rel;
      if (inNodeArr(cfg, off.c, sub, rel)) off = Lin(rel);
      else {
        if (off.c < 0 || off.c + size > cfg.nsz) throw Bug{"C25", "oob", "write outside an index node"};
        s.wr(r).cells[off.c] = {v, size};
        return;
      }
    }
    Lin idx;
    if (size != 8 || divide(off, 8, idx)) throw Undec{"odd access to a node array"};
    if (!ge(s, idx) || !ge(s, Lin(cfg.bmax - 1) - idx)) throw Bug{"C25", "oob", std::string("index ") + str(idx) + " outside the " + (sub == 1 ? "sizes" : "pointers") + " array of an index node"};
    Arr cp = R.arr[sub - 1];
    writeAt(s, cp, idx, v);
    s.wr(r).arr[sub - 1] = cp;
    return;
  }
  if (size != 1) throw Bug{"C25", "type", "the storage of elements is written as if it were something else"};
  throw Undec{"raw write to element storage"};
}
// Whole sequences: element pointers carry the version of the sequence they were taken from.
int Engine::seqAt(State& s, Val const& p) {
  if (!s.R[p.id] || s.R[p.id]->freed) throw Bug{p.sub ? "C20" : "C25", "use-after-free", p.sub ? "the argument is used after the element it refers to was destroyed" : "an element of a released sequence is used"};
  Region const& R = *s.R[p.id];
  if (!eq(s, R.cells.at(0).v.a - p.off)) throw Bug{p.sub ? "C20" : "C25", "stale", p.sub ? "the argument, a reference into the sequence, is used after the sequence was changed" : "an element is reached through an iterator that an earlier change of the sequence invalidated"};
  if (!ge(s, p.a) || !ge(s, R.cells.at(8).v.a - p.a - Lin(1))) throw Bug{"C25", "oob", "an element at index " + str(p.a) + " of a sequence of " + str(R.cells.at(8).v.a) + " is used"};
  return p.id;
}
Val Engine::readElem(State& s, Val p) {
  if (p.k == Val::FELT) { int r = seqAt(s, p); return readAt(s, s.R[r]->arr[0], p.a); }
  int r = regionOf(s, p, true);
  Region const& R = *s.R[r];
  if (R.kind == Region::LOCAL) {
    if (!p.off.isConst()) throw Undec{"symbolic element offset"};
    auto it = R.cells.find(p.off.c);
    return it == R.cells.end() ? Val() : it->second.v;
  }
  if (R.kind != Region::SEG) throw Bug{"C25", "oob", "an element operation on an index node"};
  touch(s, r);
  Lin i;
  if (divide(p.off, cfg.esz, i)) throw Undec{"misaligned element"};
  if (!ge(s, i) || !ge(s, Lin(cfg.smax - 1) - i)) throw Bug{"C25", "oob", "element index " + str(i) + " outside a segment of capacity " + std::to_string(cfg.smax)};
  return readAt(s, R.arr[0], i);
}
void Engine::writeElem(State& s, Val p, Val v) {
  if (p.k == Val::FELT) {
    int r = seqAt(s, p);
    if (v.k == Val::UNDEF) throw Undec{"an element of a whole sequence is destroyed in place"};
    if (s.ro) throw Bug{"C15", "write", "a reading operation writes to an element"};
    Arr cp = s.R[r]->arr[0];
    writeAt(s, cp, p.a, v);
    s.wr(r).arr[0] = cp;
    return;
  }
  int r = regionOf(s, p, true);
  if (s.ro) readOnly(s, r);
  Region const& R = *s.R[r];
  if (R.kind == Region::LOCAL) {
    if (!p.off.isConst()) throw Undec{"symbolic element offset"};
    if (v.k == Val::UNDEF) s.wr(r).cells.erase(p.off.c);
    else putCell(s.wr(r), p.off.c, cfg.esz, v);
    return;
  }
  touch(s, r);
  Lin i;
  if (divide(p.off, cfg.esz, i)) throw Undec{"misaligned element"};
  if (!ge(s, i) || !ge(s, Lin(cfg.smax - 1) - i)) throw Bug{"C25", "oob", "element index " + str(i) + " outside a segment of capacity " + std::to_string(cfg.smax)};
  Arr cp = R.arr[0];
  writeAt(s, cp, i, v);
  s.wr(r).arr[0] = cp;
}
void Engine::copyBytes(State& s, Val d, Val src, Val n, bool lib) {
  if (n.k != Val::INT) throw Undec{"copy of unknown length"};
  if (n.a.isConst() && n.a.c == 0) return;
  if (!ge(s, n.a - Lin(1))) {
    if (eq(s, n.a)) return;
    throw Bug{"C25", "oob", "a copy of a negative number of bytes: " + str(n.a)};
  }
  if (d.k == Val::FELT || src.k == Val::FELT) {
    if (!n.a.isConst() || n.a.c != cfg.esz) throw Undec{"array copy of a whole sequence"};
    Val v = readElem(s, src);
    readElem(s, d);
    writeElem(s, d, v);
    return;
  }
  int rd = regionOf(s, d, true), rs = regionOf(s, src, true);
  touch(s, rd); touch(s, rs);
  // a copy of one element of a fixed size may be its own trivial constructor or assignment
  if (cfg.kind && (lib || cfg.kind == 1) && (s.R[rd]->kind == Region::SEG || s.R[rs]->kind == Region::SEG)) throw Bug{"C07", "bytes", "elements that are not trivially copyable are copied bytewise"};
  Region const &D = *s.R[rd], &S = *s.R[rs];
  if (D.kind == Region::LOCAL && S.kind == Region::LOCAL) {
    if (!n.a.isConst() || !d.off.isConst() || !src.off.isConst()) throw Undec{"symbolic copy between local objects"};
    i64 k = n.a.c, so = src.off.c, o = d.off.c;
    std::map<i64, Cell> got;
    for (auto& c : S.cells) {
      if (c.first >= so && c.first + c.second.size <= so + k) got[c.first - so] = c.second;
      else if (c.first < so + k && c.first + c.second.size > so) {
        if (c.second.v.k == Val::ZERO) { i64 b = std::max(c.first, so), e = std::min(c.first + c.second.size, so + k); got[b - so] = {c.second.v, e - b}; }
        else throw Undec{"copy cuts a value"};
      }
    }
    if (S.zeroed) throw Undec{"copy from zeroed object"};
    Region& W = s.wr(rd);
    putCell(W, o, k, Val());
    W.cells.erase(o);
    for (auto& c : got) W.cells[o + c.first] = c.second;
    return;
  }
  // runs of counts or child pointers of index nodes, or of elements
  bool nodes = S.kind == Region::NODE && D.kind == Region::NODE && d.sub && d.sub == src.sub;
  i64 stride = nodes ? 8 : cfg.esz, cap = nodes ? cfg.bmax : cfg.smax;
  int which = nodes ? d.sub - 1 : 0;
  const char* thing = nodes ? "slot" : "element";
  Lin cnt;
  if (divide(n.a, stride, cnt)) throw Undec{std::string("copy of a part of an ") + thing};
  Lin so, dof;
  if (S.kind == Region::LOCAL || D.kind == Region::LOCAL) {
    if (!(cnt == Lin(1))) throw Undec{"array copy between storage and a local object"};
    Val v = readElem(s, src);
    readElem(s, d);
    if (v.k == Val::UNDEF) throw Bug{"C25", "uninit", "element storage that holds no element is copied"};
    writeElem(s, d, v);
    return;
  }
  if (!nodes && (S.kind != Region::SEG || D.kind != Region::SEG)) throw Undec{"bytewise copy of a node"};
  if (divide(src.off, stride, so) || divide(d.off, stride, dof)) throw Undec{std::string("misaligned ") + thing};
  for (Lin* x : {&so, &dof})
    if (!ge(s, *x) || !ge(s, Lin(cap) - *x - cnt)) throw Bug{"C25", "oob", "a copy of " + str(cnt) + " " + thing + "s at index " + str(*x) + " leaves a " + (nodes ? "node" : "segment") + " of capacity " + std::to_string(cap)};
  if (s.ro) readOnly(s, rd);
  Arr a = S.arr[which];
  splitAt(s, a, so);
  size_t j1 = splitAt(s, a, so + cnt);
  size_t i1 = splitAt(s, a, so);
  if (i1 > j1) throw Undec{"order of slots"};
  std::vector<Chunk> piece(a.begin() + i1, a.begin() + j1);
  for (auto& c : piece) {
    if (c.v.k == Val::UNDEF && !s.num->provesGe(c.b - c.e) && ge(s, c.e - c.b - Lin(1))) throw Bug{"C25", "uninit", nodes ? "slots of an index node that were never written are copied" : "element storage that holds no element is copied"};
    Lin sh = so - dof;
    c.b = c.b - sh; c.e = c.e - sh;
    c.v = substV(c.v, IOTA, Lin::var(IOTA) + sh);
  }
  Arr b = s.R[rd]->arr[which];
  splitAt(s, b, dof);
  size_t j2 = splitAt(s, b, dof + cnt);
  size_t i2 = splitAt(s, b, dof);
  if (i2 > j2) throw Undec{"order of slots"};
  if (!nodes && hooked & 1) for (size_t k = i2; k < j2; ++k)
    if (b[k].v.k == Val::UNDEF && !s.num->provesGe(b[k].b - b[k].e) && ge(s, b[k].e - b[k].b - Lin(1))) throw Bug{"C18", "direct", "elements are copied bytewise into storage past the allocator's construct"};
  b.erase(b.begin() + i2, b.begin() + j2);
  b.insert(b.begin() + i2, piece.begin(), piece.end());
  coalesce(s, b);
  s.wr(rd).arr[which] = b;
}
void Engine::dealloc(State& s, Val p, bool isNode, Val allocId, Lin n) {
  if (p.k == Val::NUL) throw Bug{"C08", "dealloc", "a null pointer is given to the allocator"};
  if (p.k != Val::REG && p.k != Val::ITEM) { if (p.k == Val::UNDEF) throw Bug{"C08", "dealloc", "an uninitialised pointer is given to the allocator"}; throw Undec{"deallocation of " + str(p)}; }
  int r = p.k == Val::REG ? p.id : -1;
  if (p.k == Val::ITEM) {
    auto it = s.G.find(p.id);
    if (it == s.G.end()) throw Bug{"C08", "dealloc", "a child of a released node is given back"};
    r = resolve(s, p.id, p.a);
    if (r < 0 && readAt(s, it->second->status, p.a).a.c) throw Bug{"C08", "dealloc", "a block is given back twice"};
    if (r < 0) r = materialise(s, p.id, p.a);
  }
  if (s.R[r] && s.R[r]->kind == Region::SEQ) throw Undec{"a whole sequence is given back piecewise"};
  if (!s.R[r] || (s.R[r]->kind == Region::LOCAL)) throw Bug{"C08", "dealloc", "memory that was not obtained from the allocator is given to it"};
  Region const& R = *s.R[r];
  if (R.freed) throw Bug{"C08", "dealloc", "a block is given back twice"};
  if (!(p.off == Lin(0)) || p.sub) throw Bug{"C08", "dealloc", "a pointer into the middle of a block is given back"};
  if ((R.kind == Region::NODE) != isNode) throw Bug{"C08", "dealloc", "a block is given back to the allocator of the other kind"};
  if (!s.num->provesEq(R.allocN - n)) { if (!eq(s, R.allocN - n)) throw Bug{"C08", "dealloc", "a block obtained with count " + str(R.allocN) + " is given back with count " + str(n)}; }
  if (R.allocId.k == Val::INT && allocId.k == Val::INT) { if (!eq(s, R.allocId.a - allocId.a)) throw Bug{"C08", "dealloc", "a block is given back to an allocator that is not equal to the one it came from"}; }
  if (R.kind == Region::SEG && (cfg.cls || hooked == 3 || hooked && leaks))
    for (auto& c : R.arr[0])
      if (c.v.k != Val::UNDEF && !s.num->provesGe(c.b - c.e) && ge(s, c.e - c.b - Lin(1))) throw Bug{cfg.cls ? "C07" : "C18", "leak-elem", "a segment is given back while it holds a live element (" + str(c.v) + ")"};
  int grp = R.group, g = R.g;
  Lin gi = R.gi;
  bool keep = R.heap;
  s.wr(r).freed = true;
  (void)keep; (void)grp;
  if (g >= 0) {
    Arr st = s.G[g]->status;
    { Val one = mkInt(1); one.id = 1; writeAt(s, st, gi, one); }
    s.wg(g).status = st;
    // fold: a released item needs no region of its own unless its children live on
    bool done = true;
    if (grp >= 0 && s.G.count(grp)) {
      Group const& H = *s.G[grp];
      for (auto& c : H.status) if (c.v.a.c == 0 && !s.num->provesGe(c.b - c.e)) done = false;
      for (auto& m : H.mats) if (s.R[m.second] && !s.R[m.second]->freed) done = false;
    }
    if (done) {
      auto& ms = s.wg(g).mats;
      for (size_t i = 0; i < ms.size(); ++i) if (ms[i].second == r) { ms.erase(ms.begin() + i); break; }
      if (grp >= 0) s.G.erase(grp);
      s.R[r] = nullptr;
    }
  }
}
bool Engine::ptrEq(State& s, Val const& a, Val const& b) {
  if (a.k == Val::UNDEF || b.k == Val::UNDEF) throw Bug{"C25", "uninit", "a pointer that was never written is compared"};
  if (a.k == Val::NUL || b.k == Val::NUL) { if (a.k == b.k) return true; Val const& o = a.k == Val::NUL ? b : a; if (o.k == Val::UNK) throw Undec{"comparison of unknown pointer"}; return false; }
  if (a.k == Val::UNK || b.k == Val::UNK) throw Undec{"comparison of unknown pointer"};
  auto canon = [&](Val v) {
    if (v.k == Val::REG && s.R[v.id] && s.R[v.id]->g >= 0) { Val q = mkItem(s.R[v.id]->g, s.R[v.id]->gi); q.off = v.off; q.sub = v.sub; return q; }
    return v;
  };
  Val x = canon(a), y = canon(b);
  if (x.k != y.k || x.id != y.id) {
    if (x.k == Val::FN || y.k == Val::FN) { return x.k == y.k && x.p == y.p; }
    return false;
  }
  if (x.k == Val::FN) return x.p == y.p;
  if (x.sub != y.sub) return false;
  if (x.k == Val::ITEM || x.k == Val::FELT) if (!eq(s, x.a - y.a)) return false;
  return eq(s, x.off - y.off);
}
// ---------------------------------------------------------------- functions, operands
FI* Engine::info(Function* f) {
  auto& p = fis[f];
  if (p) return p.get();
  p.reset(new FI);
  p->f = f;
  p->name = demangled(f->getName());
  int n = 0;
  for (auto& a : f->args()) p->num[&a] = n++;
  for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->num[&i] = n++;
  p->fnNoThrow = f->doesNotThrow();
  if (f->isDeclaration()) return p.get();
  p->dt.recalculate(*f);
  p->li.analyze(p->dt);
  p->fnNoThrow = f->doesNotThrow();
  for (Loop* l : p->li.getLoopsInPreorder()) {
    auto& k = p->kill[l];
    for (auto* b : l->blocks()) for (auto& i : *b) {
      if (i.getType()->isVoidTy() || (b == l->getHeader() && isa<PHINode>(i)) || isa<AllocaInst>(i)) continue;
      k.push_back(p->num[&i]);
    }
  }
  return p.get();
}
static Lin constInt(ConstantInt* c) { return c->getBitWidth() <= 16 && c->getBitWidth() > 1 ? Lin((i64)c->getZExtValue()) : Lin(c->getSExtValue()); }
Val Engine::eval(State& s, Value* v) {
  if (auto* c = dyn_cast<ConstantInt>(v)) {
    if (c->getBitWidth() == 1) return mkB(c->isOne());
    if (c->getBitWidth() > 64) throw Undec{"wide integer"};
    return mkInt(constInt(c));
  }
  if (isa<ConstantPointerNull>(v)) return mkK(Val::NUL);
  if (isa<UndefValue>(v)) { 
    if (auto* st = dyn_cast<StructType>(v->getType())) { Val r = mkK(Val::AGG); r.agg = std::make_shared<std::vector<Val>>(st->getNumElements()); return r; }
    return Val(); }
  if (auto* z = dyn_cast<ConstantAggregateZero>(v)) {
    if (auto* st = dyn_cast<StructType>(z->getType())) { Val r = mkK(Val::AGG); r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); ++i) r.agg->push_back(st->getElementType(i)->isPointerTy() ? mkK(Val::NUL) : mkInt(0)); return r; }
    throw Undec{"aggregate zero"};
  }
  if (isa<GlobalValue>(v) || isa<ConstantExpr>(v)) { Val r = mkK(Val::FN); r.p = v; return r; }
  if (isa<Constant>(v)) throw Undec{"constant"};
  auto it = s.fr.back().fi->num.find(v);
  if (it == s.fr.back().fi->num.end()) throw Undec{"unnumbered value"};
  return (*s.fr.back().regs)[it->second];
}
void Engine::set(State& s, Value* v, Val x) { s.regs()[s.fr.back().fi->num.at(v)] = std::move(x); }
void Engine::enter(State& s, BasicBlock* to) {
  Frame& f = s.fr.back();
  BasicBlock* from = f.bb;
  std::vector<std::pair<Value*, Val>> ph;
  auto it = to->begin();
  for (; it != to->end() && isa<PHINode>(*it); ++it) {
    auto* p = cast<PHINode>(&*it);
    ph.push_back({p, eval(s, p->getIncomingValueForBlock(from))});
  }
  for (auto& x : ph) set(s, x.first, x.second);
  f.prev = from;
  f.bb = to;
  f.it = it;
}
void Engine::pushCall(State& s, Function* fn, std::vector<Val> args) {
  if (s.fr.size() > 60) throw Undec{"recursion too deep in " + info(fn)->name};
  FI* fi = info(fn);
  if (!depthQuiet) funcsSeen.insert(fi->name); else funcsSeen.insert(fi->name);
  Frame f;
  f.fi = fi;
  f.bb = f.prev = &fn->getEntryBlock();
  f.it = f.bb->begin();
  f.regs = std::make_shared<std::vector<Val>>(fi->num.size());
  unsigned i = 0;
  for (auto& a : fn->args()) {
    Val v = i < args.size() ? args[i] : Val();
    if (a.hasByValAttr() && (v.k == Val::REG)) {
      i64 sz = DL.getTypeAllocSize(a.getParamByValType());
      int r = newLocal(s, "parameter", sz);
      copyBytes(s, mkReg(r), v, mkInt(sz));
      f.allocas.push_back(r);
      v = mkReg(r);
    }
    (*f.regs)[i++] = v;
  }
  s.fr.push_back(std::move(f));
}
void Engine::deliver(State& s) {
  // the top frame returns or unwinds
  Frame f = std::move(s.fr.back());
  s.fr.pop_back();
  for (int r : f.allocas) {
    if (cfg.cls && s.R[r]) for (auto& c : s.R[r]->cells)
      if (c.second.v.k == Val::EE || c.second.v.k == Val::EV || c.second.v.k == Val::EM)
        if (c.second.size == cfg.esz) { s.R[r] = nullptr; throw Bug{"C07", "leak-elem", "a local element of " + f.fi->name + " is never destroyed"}; }
    s.R[r] = nullptr;
  }
  if (s.pend == State::UNW && f.fi->fnNoThrow) throw Bug{"C14", "terminate", "an exception leaves " + f.fi->name + ", which must not throw"};
  Frame& c = s.fr.back();
  auto* cb = cast<CallBase>(&*c.it);
  if (s.pend == State::RET) {
    if (!cb->getType()->isVoidTy()) set(s, cb, s.ret);
    s.ret = Val();
    s.pend = State::RUN;
    if (auto* iv = dyn_cast<InvokeInst>(cb)) enter(s, iv->getNormalDest());
    else ++s.fr.back().it;
  } else if (auto* iv = dyn_cast<InvokeInst>(cb)) {
    s.pend = State::RUN;
    enter(s, iv->getUnwindDest());
  }
}
// ---------------------------------------------------------------- instructions
static bool nonneg(State& s, Lin const& l) { return s.num->provesGe(l); }
static Val icmpInt(Engine& E, State& s, CmpInst::Predicate p, Lin a, Lin b, unsigned bits) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkBool(1, a - b);
    case CmpInst::ICMP_NE: return mkBool(2, a - b);
    case CmpInst::ICMP_SGT: return mkBool(0, a - b - Lin(1));
    case CmpInst::ICMP_SGE: return mkBool(0, a - b);
    case CmpInst::ICMP_SLT: return mkBool(0, b - a - Lin(1));
    case CmpInst::ICMP_SLE: return mkBool(0, b - a);
    default: break;
  }
  // unsigned: values are represented modulo 2^64 as signed integers
  bool na = !nonneg(s, a) && !E.ge(s, a), nb = !nonneg(s, b) && !E.ge(s, b);
  if (na != nb) {  // the negative one is huge
    bool aGreater = na;
    switch (p) {
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: return mkB(aGreater);
      default: return mkB(!aGreater);
    }
  }
  switch (p) {
    case CmpInst::ICMP_UGT: return mkBool(0, a - b - Lin(1));
    case CmpInst::ICMP_UGE: return mkBool(0, a - b);
    case CmpInst::ICMP_ULT: return mkBool(0, b - a - Lin(1));
    case CmpInst::ICMP_ULE: return mkBool(0, b - a);
    default: throw Undec{"comparison"};
  }
}
static Val advance(Config const& c, State& s, Val p, Lin d, bool structStep) {
  p.off = p.off + d;
  bool node = (p.k == Val::ITEM && s.G.count(p.id) && s.G[p.id]->ht > 1) || (p.k == Val::REG && s.R[p.id] && s.R[p.id]->kind == Region::NODE);
  if (node && p.sub == 0 && p.off.isConst()) {
    int sub; i64 rel;
    if (inNodeArr(c, p.off.c, sub, rel)) { p.sub = (int8_t)sub; p.off = Lin(rel); }
  }
  return p;
}
bool Engine::step(State& s) {
  // true: a block was entered
  Frame& f = s.fr.back();
  Instruction* I = &*f.it;
  ++steps;
  if (++s.steps > 400000) throw Undec{"path too long"};
  if (late()) throw Undec{"out of time"};
  auto done = [&](Val v) { set(s, I, std::move(v)); ++s.fr.back().it; s.choice = -1; return false; };
  auto needInt = [&](Value* x) {
    Val v = eval(s, x);
    if (v.k == Val::UNDEF) throw Bug{"C25", "uninit", "a value that was never written is used"};
    if (v.k == Val::BOOL) { bool t = truth(s, v); return Lin(t ? 1 : 0); }
    if (v.k != Val::INT) throw Undec{"arithmetic on " + str(v)};
    return v.a;
  };
  switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I);
      i64 sz = DL.getTypeAllocSize(a->getAllocatedType());
      if (a->isArrayAllocation()) throw Undec{"dynamic alloca"};
      int r = newLocal(s, "local object of " + f.fi->name.substr(0, f.fi->name.find('(')), sz);
      s.fr.back().allocas.push_back(r);
      return done(mkReg(r));
    }
    case Instruction::Load: {
      auto* l = cast<LoadInst>(I);
      return done(load(s, eval(s, l->getPointerOperand()), l->getType()));
    }
    case Instruction::Store: {
      auto* st = cast<StoreInst>(I);
      Val v = eval(s, st->getValueOperand());
      Val p = eval(s, st->getPointerOperand());
      if (v.k == Val::AGG && v.id != 77) {
        auto* ty = dyn_cast<StructType>(st->getValueOperand()->getType());
        if (!ty || !v.agg || v.agg->size() != ty->getNumElements()) throw Undec{"aggregate store"};
        for (unsigned i = 0; i < ty->getNumElements(); ++i) {
          if ((*v.agg)[i].k == Val::AGG && (*v.agg)[i].id != 77) throw Undec{"aggregate store"};
          Val q = p; q.off = q.off + Lin((i64)DL.getStructLayout(ty)->getElementOffset(i));
          store(s, q, (*v.agg)[i], DL.getTypeStoreSize(ty->getElementType(i)));
        }
        return done(Val());
      }
      store(s, p, v, DL.getTypeStoreSize(st->getValueOperand()->getType()));
      ++s.fr.back().it; s.choice = -1;
      return false;
    }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I);
      Val p = eval(s, g->getPointerOperand());
      bool first = true;
      Lin total;
      for (auto gi = gep_type_begin(g), ge_ = gep_type_end(g); gi != ge_; ++gi) {
        Value* ix = gi.getOperand();
        Lin d;
        if (StructType* st = gi.getStructTypeOrNull()) d = Lin((i64)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()));
        else {
          Lin i = needInt(ix);
          d = i * (i64)DL.getTypeAllocSize(gi.getIndexedType());
        }
        if (p.k == Val::REG || p.k == Val::ITEM) { if (!(first && d == Lin(0))) p = advance(cfg, s, p, d, false); }
        else if (p.k == Val::FELT) { Lin q; if (divide(d, cfg.esz, q)) throw Undec{"element address"}; p.a = p.a + q; }
        else total = total + d;
        first = false;
      }
      if (p.k == Val::NUL && !(total == Lin(0))) {
        if (!eq(s, total)) { p = mkK(Val::UNK); p.id = 0; return done(p); }
      } else if (p.k == Val::UNDEF || p.k == Val::UNK || p.k == Val::FN || p.k == Val::NUL) {
      } else if (p.k != Val::REG && p.k != Val::ITEM && p.k != Val::FELT) throw Undec{"address of " + str(p)};
      return done(p);
    }
    case Instruction::Add: case Instruction::Sub: {
      unsigned w = I->getType()->getIntegerBitWidth();
      if (w == 64) {  // the distance of pointers into one block
        Val p = eval(s, I->getOperand(0)), q = eval(s, I->getOperand(1));
        auto isPtr = [](Val const& v) { return v.k == Val::REG || v.k == Val::ITEM || v.k == Val::FELT; };
        if (I->getOpcode() == Instruction::Sub && isPtr(p) && p.k == q.k && p.id == q.id && p.sub == q.sub) {
          if (p.k == Val::FELT) { if (p.off == q.off) return done(mkInt((p.a - q.a) * cfg.esz)); }
          else if (p.k == Val::REG || s.num->provesEq(p.a - q.a)) return done(mkInt(p.off - q.off));
        }
        if (isPtr(p) && p.k != Val::FELT && q.k == Val::INT) return done(advance(cfg, s, p, I->getOpcode() == Instruction::Add ? q.a : Lin(0) - q.a, false));
      }
      auto arg = [&](Value* v) { auto* c = dyn_cast<ConstantInt>(v); return c && w <= 16 ? Lin(c->getSExtValue()) : needInt(v); };
      Lin a = arg(I->getOperand(0)), b = arg(I->getOperand(1)), d = I->getOpcode() == Instruction::Add ? a + b : a - b;
      if (w <= 16 && w > 1) {  // kept as unsigned numbers
        i64 m = 1LL << w;
        if (!ge(s, d)) d = d + Lin(m);
        else if (!ge(s, Lin(m - 1) - d)) d = d - Lin(m);
      }
      return done(mkInt(d));
    }
    case Instruction::Mul: {
      Lin a = needInt(I->getOperand(0)), b = needInt(I->getOperand(1));
      if (b.isConst()) return done(mkInt(a * b.c));
      if (a.isConst()) return done(mkInt(b * a.c));
      return done(mkK(Val::UNK));
    }
    case Instruction::Shl: {
      Lin a = needInt(I->getOperand(0)), b = needInt(I->getOperand(1));
      if (b.isConst() && b.c >= 0 && b.c < 40) return done(mkInt(a * (1LL << b.c)));
      return done(mkK(Val::UNK));
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::LShr: case Instruction::AShr: case Instruction::URem: case Instruction::SRem: {
      Lin a = needInt(I->getOperand(0)), b = needInt(I->getOperand(1));
      if (!b.isConst() || b.c <= 0) return done(mkK(Val::UNK));
      bool sh = I->getOpcode() == Instruction::LShr || I->getOpcode() == Instruction::AShr;
      i64 k = sh ? (1LL << b.c) : b.c;
      bool rem = I->getOpcode() == Instruction::URem || I->getOpcode() == Instruction::SRem;
      if (a.isConst() && a.c >= 0) return done(mkInt(rem ? a.c % k : a.c / k));
      Lin q;
      if (!rem && divide(a, k, q) == 0) return done(mkInt(q));
      if (!ge(s, a)) return done(mkK(Val::UNK));
      // a = k*q + r, 0 <= r < k
      Lin qv = Lin::var(VT.sym("q" + std::to_string(VT.v.size())));
      Lin r = a - qv * k;
      s.n().add(qv); s.n().add(r); s.n().add(Lin(k - 1) - r);
      return done(mkInt(rem ? r : qv));
    }
    case Instruction::Xor: {
      Val va = eval(s, I->getOperand(0));
      Val vb = eval(s, I->getOperand(1));
      if (I->getType()->isIntegerTy(1)) {
        bool x = truth(s, va), y = truth(s, vb);
        return done(mkB(x != y));
      }
      Lin a = needInt(I->getOperand(0)), b = needInt(I->getOperand(1));
      if (a.isConst()) std::swap(a, b);
      if (b == Lin(-1)) return done(mkInt(Lin(-1) - a));
      if (a.isConst() && b.isConst()) return done(mkInt(a.c ^ b.c));
      if (b.isConst() && b.c == 1) {
        if (eq(s, a)) return done(mkInt(1));
        if (eq(s, a - Lin(1))) return done(mkInt(0));
      }
      return done(mkK(Val::UNK));
    }
    case Instruction::And: case Instruction::Or: {
      bool isAnd = I->getOpcode() == Instruction::And;
      if (I->getType()->isIntegerTy(1)) {
        bool x = truth(s, eval(s, I->getOperand(0)));
        bool y = truth(s, eval(s, I->getOperand(1)));
        return done(mkB(isAnd ? x && y : x || y));
      }
      Val va = eval(s, I->getOperand(0)), vb = eval(s, I->getOperand(1));
      if (va.k == Val::BOOL && vb.k == Val::INT && vb.a == Lin(1) && isAnd) return done(va);
      Lin a = needInt(I->getOperand(0)), b = needInt(I->getOperand(1));
      if (a.isConst() && b.isConst()) return done(mkInt(isAnd ? a.c & b.c : a.c | b.c));
      return done(mkK(Val::UNK));
    }
    case Instruction::ICmp: {
      auto* c = cast<ICmpInst>(I);
      Val a = eval(s, c->getOperand(0)), b = eval(s, c->getOperand(1));
      auto P = c->getPredicate();
      if (c->getOperand(0)->getType()->isPointerTy()) {
        if (P == CmpInst::ICMP_EQ) return done(mkB(ptrEq(s, a, b)));
        if (P == CmpInst::ICMP_NE) return done(mkB(!ptrEq(s, a, b)));
        if (a.k == b.k && a.id == b.id && a.sub == b.sub && (a.k == Val::REG || (a.k == Val::ITEM && s.num->provesEq(a.a - b.a))))
          return done(icmpInt(*this, s, P, a.off, b.off, 64));
        throw Undec{"pointer order"};
      }
      for (Val* v : {&a, &b}) if (v->k == Val::UNK && v->id > 0 && v->a.isConst()) {
        // an unknown but positive number that belongs to one state of a sequence: its height
        static std::map<std::pair<int, i64>, int> named;
        auto key = std::make_pair(v->id, (i64)v->a.c);
        if (!named.count(key)) named[key] = VT.sym("height");
        *v = mkInt(Lin::var(named[key]));
        auto& S = s.R[key.first - 1];
        s.n().add(v->a - Lin(1));
        // two children in the root, at least as many as half full ones hold
        if (S && S->kind == Region::SEQ && S->cells.at(0).v.a == Lin(key.second)) s.n().add(S->cells.at(8).v.a - (v->a - Lin(1)) * (2 * cfg.smin()));
      }
      if (a.k == Val::UNK || b.k == Val::UNK) throw Undec{"comparison of an unknown value"};
      if (a.k == Val::UNDEF || b.k == Val::UNDEF) throw Bug{"C25", "uninit", "a value that was never written is compared"};
      auto num = [&](Val const& v, Value* o) { return v.k == Val::INT ? v.a : needInt(o); };
      Lin x = num(a, c->getOperand(0)), y = num(b, c->getOperand(1));
      return done(icmpInt(*this, s, P, x, y, c->getOperand(0)->getType()->getIntegerBitWidth()));
    }
    case Instruction::ZExt: {
      Val v = eval(s, I->getOperand(0));
      if (v.k == Val::UNDEF || v.k == Val::UNK) return done(v);
      if (v.k == Val::BOOL) { if (I->getType()->isIntegerTy(8)) return done(v); return done(mkInt(truth(s, v) ? 1 : 0)); }
      unsigned w = I->getOperand(0)->getType()->getIntegerBitWidth();
      if (w > 16 && !ge(s, v.a)) v.a = v.a + Lin(1LL << w);
      return done(v);
    }
    case Instruction::SExt: {
      Val v = eval(s, I->getOperand(0));
      if (v.k == Val::BOOL) return done(mkInt(truth(s, v) ? -1 : 0));
      return done(v);
    }
    case Instruction::Trunc: {
      Val v = eval(s, I->getOperand(0));
      if (v.k == Val::UNDEF || v.k == Val::UNK) return done(v);
      unsigned w = I->getType()->getIntegerBitWidth();
      if (v.k == Val::BOOL) return done(v);
      if (w == 1) return done(mkBool(2, v.a));
      if (v.a.isConst()) {
        if (w >= 64) return done(v);
        unsigned long long m = (unsigned long long)v.a.c & ((1ULL << w) - 1);
        if (w > 16) { i64 sv = (i64)(m << (64 - w)) >> (64 - w); return done(mkInt(sv)); }
        return done(mkInt((i64)m));
      }
      i64 lo = w <= 16 ? 0 : -(1LL << (w - 1)), hi = w <= 16 ? (1LL << w) - 1 : (1LL << (w - 1)) - 1;
      if (s.num->provesGe(v.a - Lin(lo)) && s.num->provesGe(Lin(hi) - v.a)) return done(v);
      if (w <= 32 && ge(s, v.a)) {
        if (ge(s, Lin(hi) - v.a)) return done(v);
        i64 m = 1LL << w;
        if (w > 16 && !ge(s, v.a - Lin(m))) throw Undec{"truncation"};
        // the value does not fit: something else is left of it
        Lin r = Lin::var(VT.sym("cut" + std::to_string(VT.v.size()))), q = Lin::var(VT.sym("quot" + std::to_string(VT.v.size())));
        Num& n = s.n();
        n.add(r); n.add(Lin(hi) - r); n.add(q - Lin(1)); n.addEq(v.a - r - q * m);
        return done(mkInt(r));
      }
      return done(mkK(Val::UNK));
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      Val v = eval(s, I->getOperand(0));
      if (v.k == Val::REG || v.k == Val::ITEM || v.k == Val::NUL || v.k == Val::UNDEF || v.k == Val::FN || v.k == Val::FELT) return done(v);
      return done(mkK(Val::UNK));
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: return done(eval(s, I->getOperand(0)));
    case Instruction::Select: {
      bool t = truth(s, eval(s, I->getOperand(0)));
      return done(eval(s, I->getOperand(t ? 1 : 2)));
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { s.choice = -1; enter(s, b->getSuccessor(0)); return true; }
      bool t = truth(s, eval(s, b->getCondition()));
      s.choice = -1;
      enter(s, b->getSuccessor(t ? 0 : 1));
      return true;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Lin v = needInt(sw->getCondition());
      for (auto& c : sw->cases()) if (eq(s, v - constInt(c.getCaseValue()))) { s.choice = -1; enter(s, c.getCaseSuccessor()); return true; }
      s.choice = -1;
      enter(s, sw->getDefaultDest());
      return true;
    }
    case Instruction::Ret: {
      auto* r = cast<ReturnInst>(I);
      s.ret = r->getReturnValue() ? eval(s, r->getReturnValue()) : Val();
      s.pend = State::RET; s.choice = -1;
      return false;
    }
    case Instruction::Resume: s.pend = State::UNW; s.choice = -1; return false;
    case Instruction::Unreachable: throw Bug{"C25", "flowoff", "control runs off the end of a function that returns a value"};
    case Instruction::LandingPad: {
      Val a = mkK(Val::AGG);
      a.agg = std::make_shared<std::vector<Val>>();
      a.agg->push_back(mkK(Val::FN)); a.agg->push_back(mkInt(1));
      return done(a);
    }
    case Instruction::ExtractValue: {
      auto* e = cast<ExtractValueInst>(I);
      Val a = eval(s, e->getAggregateOperand());
      if (a.k != Val::AGG || a.id == 77 || e->getNumIndices() != 1) throw Undec{"extractvalue"};
      return done((*a.agg)[e->getIndices()[0]]);
    }
    case Instruction::InsertValue: {
      auto* e = cast<InsertValueInst>(I);
      Val a = eval(s, e->getAggregateOperand());
      Val x = eval(s, e->getInsertedValueOperand());
      if (a.k != Val::AGG || e->getNumIndices() != 1) throw Undec{"insertvalue"};
      Val r = a;
      r.agg = std::make_shared<std::vector<Val>>(*a.agg);
      (*r.agg)[e->getIndices()[0]] = x;
      return done(r);
    }
    case Instruction::Call: case Instruction::Invoke: call(s, *cast<CallBase>(I)); return false;
    default: throw Undec{std::string("instruction ") + I->getOpcodeName()};
  }
}
void Engine::call(State& s, CallBase& cb) {
  Function* fn = cb.getCalledFunction();
  if (!fn) throw Undec{"indirect call"};
  auto next = [&](Val ret, bool threw) {
    s.choice = -1;
    if (threw) {
      s.threw = true;
      if (auto* iv = dyn_cast<InvokeInst>(&cb)) { enter(s, iv->getUnwindDest()); s.events.clear(); s.events.push_back(1); return; }
      if (cb.doesNotThrow() || s.fr.back().fi->fnNoThrow) throw Bug{"C14", "terminate", "an exception reaches " + s.fr.back().fi->name + ", which must not throw"};
      s.pend = State::UNW;
      return;
    }
    if (!cb.getType()->isVoidTy()) set(s, &cb, ret);
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) { enter(s, iv->getNormalDest()); s.events.clear(); s.events.push_back(1); return; }
    ++s.fr.back().it;
  };
  if (auto* ii = dyn_cast<IntrinsicInst>(&cb)) {
    switch (ii->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
        ++s.fr.back().it; s.choice = -1; return;
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        Val d = eval(s, ii->getArgOperand(0)), sr = eval(s, ii->getArgOperand(1)), n = eval(s, ii->getArgOperand(2));
        if (hook) { std::vector<Val> av{d, sr, n}; Val ret; if (hook(s, "memcpy", cb, av, ret)) { ++s.fr.back().it; s.choice = -1; return; } }
        if (ii->getIntrinsicID() == Intrinsic::memcpy && d.k != Val::NUL && d.k == sr.k && d.id == sr.id && (d.k == Val::REG || d.k == Val::ITEM) && n.k == Val::INT && n.a.isConst() == false && (d.k == Val::REG || s.num->provesEq(d.a - sr.a))) {
          // overlapping memcpy is undefined
          if (ge(s, n.a - Lin(1))) if (!ge(s, d.off - sr.off - n.a) && !ge(s, sr.off - d.off - n.a)) throw Bug{"C25", "overlap", "memcpy between overlapping ranges"};
        }
        copyBytes(s, d, sr, n, !isa<ConstantInt>(ii->getArgOperand(2)));
        ++s.fr.back().it; s.choice = -1; return;
      }
      case Intrinsic::memset: {
        Val d = eval(s, ii->getArgOperand(0)), v = eval(s, ii->getArgOperand(1)), n = eval(s, ii->getArgOperand(2));
        int r = regionOf(s, d, false);
        if (s.R[r]->kind != Region::LOCAL || !d.off.isConst() || n.k != Val::INT || !n.a.isConst() || v.k != Val::INT || !(v.a == Lin(0))) throw Undec{"memset"};
        if (n.a.c > 0) putCell(s.wr(r), d.off.c, n.a.c, mkK(Val::ZERO));
        ++s.fr.back().it; s.choice = -1; return;
      }
      case Intrinsic::eh_typeid_for: return next(mkInt(1), false);
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        Val a = eval(s, ii->getArgOperand(0)), b = eval(s, ii->getArgOperand(1));
        if (a.k != Val::INT || b.k != Val::INT) throw Undec{"min/max"};
        bool aGe = ge(s, a.a - b.a);
        bool mx = ii->getIntrinsicID() == Intrinsic::umax || ii->getIntrinsicID() == Intrinsic::smax;
        return next(aGe == mx ? a : b, false);
      }
      default: break;
    }
  }
  std::vector<Val> args;
  for (unsigned i = 0; i < cb.arg_size(); ++i) args.push_back(eval(s, cb.getArgOperand(i)));
  std::string const& name = info(fn)->name;
  Val ret;
  if (hook) { if (hook(s, name, cb, args, ret)) { bool t = ret.k == Val::FN && ret.p == (void*)1; return next(ret, t); } }
  if (fn->isDeclaration() || (stateless && name.compare(0, 21, "std::__new_allocator<") == 0 && (name.find("::allocate(unsigned") != std::string::npos || name.find("::deallocate(") != std::string::npos))) {
    bool threw = false;
    if (!external(s, name, cb, args, ret, threw)) throw Undec{"external function " + name};
    return next(ret, threw);
  }
  s.choice = -1;
  pushCall(s, fn, args);
}
static bool has(std::string const& s, char const* t) { return s.find(t) != std::string::npos; }
static bool starts(std::string const& s, char const* t) { return s.compare(0, strlen(t), t) == 0; }
bool Engine::external(State& s, std::string const& name, CallBase& cb, std::vector<Val>& A, Val& ret, bool& threw) {
  auto live = [](Val const& v) { return v.k == Val::EE || v.k == Val::EV || v.k == Val::EM; };
  // allocator
  if (has(name, "::allocate(unsigned")) {
    if (allocThrows && choose(s, 2, "allocation " + std::string(has(name, "node") ? "of an index node" : "of a segment") + " (1: throws)") == 1) { threw = true; return true; }
    s.ops |= OpAlloc;
    bool node = has(name, "node");
    auto p = std::make_shared<Region>();
    p->kind = node ? Region::NODE : Region::SEG;
    p->heap = true;
    p->name = node ? "new node" : "new segment";
    p->allocN = A[1].a;
    p->allocId = allocOf(s, A[0]);
    i64 cap = node ? cfg.bmax : cfg.smax;
    if (A[1].k != Val::INT) throw Undec{"allocation size"};
    if (!node) {
      if (!A[1].a.isConst()) throw Undec{"allocation size"};
      cap = A[1].a.c;
      if (cap != cfg.smax) throw Undec{"segment of unexpected capacity " + std::to_string(cap)};
    } else if (!(A[1].a == Lin(1))) throw Undec{"node count"};
    p->arr[0] = {{Lin(0), Lin(cap), Val()}};
    p->arr[1] = {{Lin(0), Lin(cap), Val()}};
    s.R.push_back(p);
    ret = mkReg((int)s.R.size() - 1);
    return true;
  }
  if (has(name, "::deallocate(")) {
    s.ops |= OpDealloc;
    Val id = allocOf(s, A[0]);
    if (A[2].k != Val::INT) throw Undec{"deallocation size"};
    dealloc(s, A[1], has(name, "node"), id, A[2].a);
    return true;
  }
  // elements
  bool te = starts(name, "TElem::") || starts(name, "KElem::");
  if (starts(name, "void SA<") && (has(name, ">::construct<") || has(name, ">::destroy<"))) {  // the allocator's own
    bool kill = has(name, ">::destroy<");
    te = cfg.kind != 1;
    if (A[0].k == Val::REG && A[1].k != Val::NUL) {
      Val id = allocOf(s, A[0]), p = A[1];
      int r = regionOf(s, p, true);
      Region const& R = *s.R[r];
      if (R.kind == Region::SEG && id.k == Val::INT && R.allocId.k == Val::INT && !eq(s, id.a - R.allocId.a)) throw Bug{"C12", "alloc", "an element is constructed or destroyed by an allocator that did not provide its storage"};
    }
    s.ops |= kill ? OpDestroy : OpConstruct;
    if (kill) {
      Val v = readElem(s, A[1]);
      if (!live(v)) throw Bug{"C07", "destroy", "storage that holds no element is destroyed"};
      writeElem(s, A[1], Val());
      return true;
    }
    Val d = readElem(s, A[1]);
    if (live(d) && (cfg.cls || hooked & 2)) throw Bug{"C07", "construct", "an element is constructed over a live one (" + str(d) + ")"};
    std::string par = name.substr(name.rfind('(') + 1);
    size_t c1 = par.find(", ");
    par = c1 == std::string::npos ? "" : par.substr(c1 + 2);
    bool elem = has(par, "Elem"), mv = elem && has(par, "&&"), cp = elem && !mv;
    Val v = elem ? readElem(s, A[2]) : mkV(par == ")" || par.empty() ? 99 : 1);
    if (elem && !live(v)) throw Bug{"C07", "construct", "an element is constructed from storage that holds none"};
    if (cp) s.ops |= OpCopy;
    if (((ctorThrows && !mv) || moveThrows) && choose(s, 2, "element construction (1: throws)") == 1) { threw = true; return true; }
    writeElem(s, A[1], v);
    if (mv) writeElem(s, A[2], mkK(Val::EM));
    return true;
  }
  if (starts(name, "Elem::") || te) {
    std::string m = name.substr(te ? 7 : 6);
    if (hooked & (starts(m, "~") ? 2 : starts(m, "operator") ? 0 : 1)) {
      Val p = A[0];
      if (s.R[regionOf(s, p, true)]->kind == Region::SEG) throw Bug{"C18", "direct", std::string("an element in the sequence is ") + (starts(m, "~") ? "destroyed" : "constructed") + " without the allocator's " + (starts(m, "~") ? "destroy" : "construct")};
    }
    bool ctor = (starts(m, "TElem(") || starts(m, "KElem(") || starts(m, "Elem(")), dtor = starts(m, "~"), asg = starts(m, "operator=");
    s.ops |= ctor ? OpConstruct : dtor ? OpDestroy : OpAssign;
    if (dtor) {
      Val v = readElem(s, A[0]);
      if (!live(v)) throw Bug{"C07", "destroy", "storage that holds no element is destroyed"};
      writeElem(s, A[0], Val());
      return true;
    }
    if (ctor) {
      bool mv = has(m, "&&)"), cp = has(m, "const&)");
      Val d = readElem(s, A[0]);
      if (cfg.cls && live(d)) throw Bug{"C07", "construct", "an element is constructed over a live one (" + str(d) + ")"};
      Val v;
      if (mv || cp) {
        if (cp) s.ops |= OpCopy;
        v = readElem(s, A[1]);
        if (!live(v)) throw Bug{"C07", "construct", "an element is constructed from storage that holds none"};
      } else if (m == "Elem()" || m == "TElem()" || m == "KElem()") v = mkV(99);
      else v = mkV(1);
      bool local = A[0].k == Val::REG && s.R[A[0].id] && s.R[A[0].id]->kind == Region::LOCAL;
      if (!te && ((ctorThrows && !(mv && !local)) || (moveThrows && !local)) && choose(s, 2, "element construction (1: throws)") == 1) { threw = true; return true; }
      writeElem(s, A[0], v);
      if (mv) writeElem(s, A[1], mkK(Val::EM));
      return true;
    }
    if (asg) {
      bool mv = has(m, "&&)");
      if (!mv) s.ops |= OpCopy;
      Val d = readElem(s, A[0]), v = readElem(s, A[1]);
      if (!live(d)) throw Bug{"C07", "assign", "storage that holds no element is assigned to"};
      if (!live(v)) throw Bug{"C07", "assign", "an element is assigned from storage that holds none"};
      writeElem(s, A[0], v);
      if (mv) writeElem(s, A[1], mkK(Val::EM));
      ret = A[0];
      return true;
    }
    return false;
  }
  for (char const* g : {"operator new(unsigned long)", "operator new[](unsigned long)", "operator delete(void*)", "operator delete(void*, unsigned long)", "operator delete[](void*)", "malloc", "calloc", "realloc", "free"})
    if (name == g) throw Bug{"C18", "direct", "memory is obtained or released by " + name + " instead of the allocator"};
  if (name == "__cxa_allocate_exception" || name == "__cxa_begin_catch" || name == "__cxa_get_exception_ptr") { ret = mkK(Val::FN); return true; }
  if (name == "__cxa_end_catch" || name == "__cxa_free_exception") return true;
  if (name == "__cxa_throw" || name == "__cxa_rethrow") { s.note(name == "__cxa_throw" ? "throw" : "rethrow"); threw = true; return true; }
  if (starts(name, "std::out_of_range::") ) { s.rangeErr = true; return true; }
  if (starts(name, "std::__throw_")) { if (starts(name, "std::__throw_out_of_range")) s.rangeErr = true; s.note("throw"); threw = true; return true; }
  for (char const* g : {"invalid_argument", "domain_error", "length_error", "logic_error", "runtime_error", "range_error", "overflow_error", "underflow_error", "exception", "bad_alloc"})
    if (starts(name, (std::string("std::") + g + "::").c_str())) return true;
  if (name == "std::terminate()" || name == "__clang_call_terminate") throw Bug{"C14", "terminate", "std::terminate is reached"};
  return false;
}
// ---------------------------------------------------------------- exploration
void Engine::explore(State s0, size_t depth, Loop* L, std::vector<Out>& outs) {
  struct It { State s; bool arrived; };
  std::vector<It> st;
  st.push_back({std::move(s0), false});
  while (!st.empty()) {
    It cur = std::move(st.back());
    st.pop_back();
    State& s = cur.s;
    bool arrived = cur.arrived;
    if (steps > stepLimit) throw Undec{"analysis budget exhausted"};
    if (outs.size() > 20000) throw Undec{"too many partitions"};
    for (;;) {
      try {
        if (s.pend != State::RUN) {
          if (s.fr.size() == depth) { outs.push_back({s.pend, 0, std::move(s)}); break; }
          BasicBlock* ob = s.fr[s.fr.size() - 2].bb;
          deliver(s);
          if (s.pend != State::RUN) continue;
          arrived = s.fr.back().bb != ob || s.fr.back().it == s.fr.back().bb->getFirstNonPHI()->getIterator();
          if (s.fr.back().bb == ob && !isa<InvokeInst>(ob->getTerminator())) arrived = false;
        }
        if (arrived) {
          arrived = false;
          Frame& f = s.fr.back();
          if (L && s.fr.size() == depth) {
            if (f.bb == L->getHeader()) { outs.push_back({s.pend, 1, std::move(s)}); break; }
            if (!L->contains(f.bb)) { outs.push_back({s.pend, 2, std::move(s)}); break; }
          }
          Loop* l2 = f.fi->li.getLoopFor(f.bb);
          if (l2 && l2->getHeader() == f.bb) {
            std::vector<Out> ex;
            runLoop(std::move(s), l2, ex);
            for (auto& o : ex) {
              if (o.kind >= 3) outs.push_back(std::move(o));
              else st.push_back({std::move(o.st), o.kind == 2});
            }
            break;
          }
        }
        s.events.clear();
        if (step(s)) arrived = true;
        else if (!s.events.empty() && s.events[0] == 1) { s.events.clear(); arrived = true; }
      } catch (Fork& f) {
        for (auto& a : f.alts) {
          State t = s;
          for (auto& c : a.cons) { t.n().add(c); }
          if (t.num->bottom) continue;
          if (a.choice >= 0) t.choice = a.choice;
          if (!a.cons.empty() && !t.num->feasible()) continue;
          t.note(loc(s) + ": " + a.desc);
          st.push_back({std::move(t), arrived});
        }
        break;
      } catch (Bug& b) {
        Out o{State::RUN, 3, std::move(s)};
        o.st.ret = mkK(Val::FN);
        o.st.note("!" + b.prop + "!" + b.kind + "!" + b.msg);
        outs.push_back(std::move(o));
        break;
      } catch (Undec& u) {
        Out o{State::RUN, 4, std::move(s)};
        o.st.note(loc(o.st) + ": ?" + u.why);
        outs.push_back(std::move(o));
        break;
      }
    }
  }
}
static void prune(State& s, FI* fi, Loop* L) {
  auto& r = s.regs();
  for (int k : fi->kill[L]) r[k] = Val();
}
std::vector<Out> Engine::iterate(State const& s, Loop* L) {
  std::vector<Out> o;
  State c = s;
  int was = s.logDec;
  std::vector<Lin> outer;
  if (was) outer = s.dec;
  c.dec.clear();
  c.logDec = was + 1;
  explore(std::move(c), s.fr.size(), L, o);
  for (auto& x : o) {
    x.st.logDec = was;
    if (x.kind != 1) { if (was) x.st.dec.insert(x.st.dec.begin(), outer.begin(), outer.end()); else x.st.dec.clear(); }
  }
  for (auto& x : o) if (x.kind == 1) prune(x.st, x.st.fr.back().fi, L);
  return o;
}
static bool auLin(Lin const& l1, Lin const& l2, int kv, Lin& out) {
  // out(k) with out(1) = l1, out(2) = l2
  Lin km = Lin::var(kv) - Lin(1);
  if (l1 == l2) { out = l1; return true; }
  Lin d = l2 - l1;
  if (d.isConst()) { out = l1 + km * d.c; return true; }
  typedef std::pair<int, i64> T;
  std::map<std::pair<int, i64>, std::vector<Lin>> a, b;  // (group, coef) -> args
  std::map<int, i64> p, q;
  for (T const& t : l1.t) if (VT.v[t.first].g >= 0) a[{VT.v[t.first].g, t.second}].push_back(VT.v[t.first].arg); else p[t.first] = t.second;
  for (T const& t : l2.t) if (VT.v[t.first].g >= 0) b[{VT.v[t.first].g, t.second}].push_back(VT.v[t.first].arg); else q[t.first] = t.second;
  if (p != q || a.size() != b.size()) return false;
  Lin r(l1.c);
  r = r + km * (l2.c - l1.c);
  for (auto& x : p) r.add(Lin::var(x.first), x.second);
  for (auto& kv1 : a) {
    auto it = b.find(kv1.first);
    if (it == b.end() || it->second.size() != kv1.second.size()) return false;
    auto x = kv1.second, y = it->second;
    // equal arguments first
    for (size_t i = 0; i < x.size();) {
      bool f = false;
      for (size_t j = 0; j < y.size(); ++j) if (x[i] == y[j]) { r.add(Lin::var(VT.psum(kv1.first.first, x[i])), kv1.first.second); x.erase(x.begin() + i); y.erase(y.begin() + j); f = true; break; }
      if (!f) ++i;
    }
    for (auto& xa : x) {
      bool f = false;
      for (size_t j = 0; j < y.size(); ++j) {
        Lin da = y[j] - xa;
        if (!da.isConst()) continue;
        r.add(Lin::var(VT.psum(kv1.first.first, xa + km * da.c)), kv1.first.second);
        y.erase(y.begin() + j);
        f = true;
        break;
      }
      if (!f) return false;
    }
  }
  out = r;
  return true;
}
static bool auVal(Val const& a, Val const& b, int kv, Val& out) {
  if (same(a, b)) { out = a; return true; }
  if (a.k != b.k || a.id != b.id || a.sub != b.sub || a.p != b.p || a.k == Val::AGG) return false;
  out = a;
  return auLin(a.a, b.a, kv, out.a) && auLin(a.off, b.off, kv, out.off);
}
static bool auArr(Arr const& a, Arr const& b, int kv, Arr& out) {
  if (a.size() != b.size()) return false;
  out.clear();
  for (size_t i = 0; i < a.size(); ++i) {
    Chunk c;
    if (!auLin(a[i].b, b[i].b, kv, c.b) || !auLin(a[i].e, b[i].e, kv, c.e)) return false;
    if (!auVal(a[i].v, b[i].v, kv, c.v)) {
      // a single slot in the first iteration may be an instance of the run seen in the second
      if (a[i].e - a[i].b == Lin(1) && usesIota(b[i].v) && same(substV(b[i].v, IOTA, a[i].b), a[i].v)) c.v = b[i].v;
      else return false;
    }
    out.push_back(c);
  }
  return true;
}
static Arr substA(Arr const& a, int var, Lin const& by) {
  Arr r;
  for (auto& c : a) r.push_back({subst(c.b, var, by), subst(c.e, var, by), substV(c.v, var, by)});
  return r;
}
static bool changed(Arr const& a, Arr const& b) {
  if (a.size() != b.size()) return true;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i].b == b[i].b && a[i].e == b[i].e && same(a[i].v, b[i].v))) return true;
  return false;
}
bool Engine::generalise(State& s0, State& b1, State& b2, Loop* L, bool mayPeel, State& g, int& kv, std::vector<Lin>& cand) {
  wantPeel = false;
  splitOn.clear();
  auto fail = [&](std::string w) { if (DBG) fprintf(stderr, "   generalise fails: %s\n", w.c_str()); return false; };
  kv = VT.sym("k" + std::to_string(VT.v.size()));
  g = s0;
  if (s0.log.size() != b1.log.size() || b1.log.size() != b2.log.size()) return fail("algorithm in a loop");
  std::vector<Lin> ints;
  // registers of this frame
  auto &r0 = *s0.fr.back().regs, &r1 = *b1.fr.back().regs, &r2 = *b2.fr.back().regs;
  auto& rg = g.regs();
  for (size_t i = 0; i < r0.size(); ++i) {
    if (same(r0[i], r1[i]) && same(r1[i], r2[i])) continue;
    Val t;
    if (!auVal(r1[i], r2[i], kv, t)) {
      if (r1[i].k == Val::BOOL || r1[i].k == Val::INT) { return fail("register " + str(r0[i]) + " / " + str(r1[i]) + " / " + str(r2[i])); }
      return fail("register " + str(r0[i]) + " / " + str(r1[i]) + " / " + str(r2[i]));
    }
    if (!semEq(s0, substV(t, kv, Lin(0)), r0[i])) return fail("register base " + str(r0[i]) + " / " + str(r1[i]) + " / " + str(r2[i]) + " -> " + str(t));
    rg[i] = t;
    if (t.k == Val::INT) ints.push_back(t.a);
  }
  size_t n = std::max(s0.R.size(), std::max(b1.R.size(), b2.R.size()));
  for (size_t i = 0; i < n; ++i) {
    auto get = [&](State& s) { return i < s.R.size() ? s.R[i] : nullptr; };
    auto p0 = get(s0), p1 = get(b1), p2 = get(b2);
    if (p0 == p1 && p1 == p2) continue;
    if (!p0 && !p1 && !p2) continue;
    if (!p0 || !p1 || !p2) return fail("regions differ");
    if (p0->freed != p1->freed || p1->freed != p2->freed) return fail("freed differs");
    Region& R = g.wr((int)i);
    if (p0->kind == Region::LOCAL) {
      std::set<i64> offs;
      for (auto& c : p1->cells) offs.insert(c.first);
      for (auto& c : p2->cells) offs.insert(c.first);
      for (auto& c : p0->cells) offs.insert(c.first);
      for (i64 o : offs) {
        auto c0 = p0->cells.find(o), c1 = p1->cells.find(o), c2 = p2->cells.find(o);
        Val t;
        bool ok = c0 != p0->cells.end() && c1 != p1->cells.end() && c2 != p2->cells.end() && c0->second.size == c1->second.size && c1->second.size == c2->second.size;
        i64 sz = c1 != p1->cells.end() ? c1->second.size : c0 != p0->cells.end() ? c0->second.size : c2->second.size;
        if (ok && same(c0->second.v, c1->second.v) && same(c1->second.v, c2->second.v)) continue;
        ok = ok && auVal(c1->second.v, c2->second.v, kv, t) && semEq(s0, substV(t, kv, Lin(0)), c0->second.v);
        if (!ok) t = mkK(Val::UNK);
        else if (t.k == Val::INT) ints.push_back(t.a);
        putCell(R, o, sz, t);
      }
      continue;
    }
    for (auto& c : p0->cells) {
      auto c1 = p1->cells.find(c.first), c2 = p2->cells.find(c.first);
      if (c1 == p1->cells.end() || c2 == p2->cells.end()) return fail("node cell");
      if (same(c.second.v, c1->second.v) && same(c1->second.v, c2->second.v)) continue;
      Val t;
      if (!auVal(c1->second.v, c2->second.v, kv, t) || !semEq(s0, substV(t, kv, Lin(0)), c.second.v)) return fail("node cell value");
      R.cells[c.first].v = t;
      if (t.k == Val::INT) ints.push_back(t.a);
    }
    if (p1->cells.size() != p0->cells.size()) return fail("node cells");
    for (int k = 0; k < 2; ++k) {
      if (!changed(p0->arr[k], p1->arr[k]) && !changed(p1->arr[k], p2->arr[k])) continue;
      Arr t;
      if (!auArr(p1->arr[k], p2->arr[k], kv, t)) return fail("array " + str(p1->arr[k]) + " / " + str(p2->arr[k]));
      if (!arrEq(s0, substA(t, kv, Lin(0)), p0->arr[k])) return fail("array base " + str(p0->arr[k]) + " vs " + str(substA(t, kv, Lin(0))));
      R.arr[k] = t;
      if (DBG) fprintf(stderr, "   array %s\n / %s\n / %s\n -> %s\n", str(p0->arr[k]).c_str(), str(p1->arr[k]).c_str(), str(p2->arr[k]).c_str(), str(t).c_str());
    }
  }
  if (s0.G.size() != b1.G.size() || b1.G.size() != b2.G.size()) return fail("groups differ");
  for (auto& kg : s0.G) {
    auto i1 = b1.G.find(kg.first), i2 = b2.G.find(kg.first);
    if (i1 == b1.G.end() || i2 == b2.G.end()) return fail("groups differ");
    if (kg.second == i1->second && i1->second == i2->second) continue;
    Group const &g0 = *kg.second, &g1 = *i1->second, &g2 = *i2->second;
    if (g0.mats.size() != g1.mats.size() || g1.mats.size() != g2.mats.size()) return fail("materialised children differ");
    for (size_t i = 0; i < g0.mats.size(); ++i) if (!(g0.mats[i].first == g1.mats[i].first && g1.mats[i].first == g2.mats[i].first)) return fail("materialised child moves");
    Arr Group::*fs[] = {&Group::cpp, &Group::cpi, &Group::status};
    for (auto f : fs) {
      if (!changed(g0.*f, g1.*f) && !changed(g1.*f, g2.*f)) continue;
      Arr t;
      if (!auArr(g1.*f, g2.*f, kv, t)) return fail("ghost array " + str(g1.*f) + " / " + str(g2.*f));
      if (!arrEq(s0, substA(t, kv, Lin(0)), g0.*f)) return fail("ghost base " + str(g0.*f) + " vs " + str(substA(t, kv, Lin(0))));
      g.wg(kg.first).*f = t;
    }
  }
  // candidate facts
  for (auto& l : ints) cand.push_back(l);
  std::set<Lin> c0(s0.num->cons.begin(), s0.num->cons.end()), c1;
  std::vector<Lin> n1, n2;
  for (auto& c : b1.num->cons) if (!c0.count(c)) { n1.push_back(c); }
  c1.insert(b1.num->cons.begin(), b1.num->cons.end());
  for (auto& c : b2.num->cons) if (!c1.count(c)) n2.push_back(c);
  std::set<Lin> learned, advancing;
  for (auto& y : n2) for (auto& x : n1) {
    Lin t;
    if (auLin(x, y, kv, t) && mentions(t, kv)) { cand.push_back(t); learned.insert(t); advancing.insert(x); }
  }
  // what the first iteration decides once and for all, the states at the head are told apart by
  if (partition) {
    State z = s0;
    for (auto& x : n1) {
      if (advancing.count(x)) continue;
      z.n().touch(x);
      if (z.num->provesGe(x) || z.num->deepInfeasible({Lin(-1) - x})) continue;
      splitOn.push_back(x);
      if (DBG) fprintf(stderr, "   split on %s\n", str(x).c_str());
      return false;
    }
  }
  {
    std::set<Lin> seen;
    bool aligned = b1.dec.size() == b2.dec.size();
    for (size_t yi = 0; yi < b2.dec.size(); ++yi) for (size_t xi = 0; xi < b1.dec.size(); ++xi) {
      if (cand.size() > 120) break;
      if (aligned && xi != yi) continue;
      Lin const &x = b1.dec[xi], &y = b2.dec[yi];
      Lin t;
      if (!auLin(x, y, kv, t) || !mentions(t, kv)) continue;
      // what the iteration from k decides, and what the one before it has decided
      for (int back = 0; back < 2; ++back) {
        Lin u = back ? t : subst(t, kv, Lin::var(kv) + Lin(1));
        if (!seen.insert(u).second) continue;
        cand.push_back(u); cand.push_back(-u); cand.push_back(u - Lin(1)); cand.push_back(Lin(-1) - u);
      }
    }
  }
  std::sort(cand.begin(), cand.end());
  cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
  std::vector<Lin> keep;
  State z = s0;
  bool peel = false;
  for (auto& c : cand) {
    Lin at0 = subst(c, kv, Lin(0));
    z.n().touch(at0);
    if (z.num->provesGe(at0) || z.num->deepInfeasible({Lin(-1) - at0})) keep.push_back(c);
    else if (learned.count(c)) { peel = true; if (DBG) fprintf(stderr, "   needs peeling for %s\n", str(c).c_str()); }
  }
  if (peel && mayPeel) { wantPeel = true; return false; }
  cand = keep;
  if (DBG) { fprintf(stderr, "   generalised, %zu candidate facts:\n", cand.size()); for (auto& c : cand) fprintf(stderr, "      %s >= 0\n", str(c).c_str()); }
  return true;
}
bool Engine::conforms(State& t, State& g, int kv, int, std::vector<Lin> const& cand, std::vector<bool>* ok) {
  auto no = [&](std::string w) { if (DBG) fprintf(stderr, "   back edge does not conform: %s\n", w.c_str()); return false; };
  Lin k1 = Lin::var(kv) + Lin(1);
  auto &rt = *t.fr.back().regs, &rg = *g.fr.back().regs;
  auto veq = [&](Val const& have, Val const& tmpl) { return tmpl.k == Val::UNK || semEq(t, have, substV(tmpl, kv, k1)); };
  for (size_t i = 0; i < rt.size(); ++i) if (!same(rt[i], rg[i]) && !veq(rt[i], rg[i])) return no("register " + str(rt[i]) + " vs " + str(rg[i]));
    else if (same(rt[i], rg[i]) && (mentions(rg[i].a, kv) || mentions(rg[i].off, kv))) return no("register does not advance");
  size_t n = std::max(t.R.size(), g.R.size());
  for (size_t i = 0; i < n; ++i) {
    auto p = i < t.R.size() ? t.R[i] : nullptr, q = i < g.R.size() ? g.R[i] : nullptr;
    if (!p && !q) continue;
    if (!p || !q || p->freed != q->freed) return no("regions");
    if (p->kind == Region::LOCAL) {
      std::set<i64> offs;
      for (auto& c : p->cells) offs.insert(c.first);
      for (auto& c : q->cells) offs.insert(c.first);
      for (i64 o : offs) {
        auto a = p->cells.find(o), b = q->cells.find(o);
        if (b == q->cells.end()) {
          // a value the template knows nothing about: it must be unreadable, i.e. the template had it undefined
          return no("new local value");
        }
        if (b->second.v.k == Val::UNK) continue;
        if (a == p->cells.end() || !veq(a->second.v, b->second.v)) return no("local " + p->name + (a == p->cells.end() ? " gone" : " " + str(a->second.v)) + " vs " + str(b->second.v));
      }
    } else {
      if (p->cells.size() != q->cells.size()) return no("cells");
      for (auto& c : p->cells) { auto b = q->cells.find(c.first); if (b == q->cells.end() || !veq(c.second.v, b->second.v)) return no("node cell"); }
      for (int k = 0; k < 2; ++k) if (!arrEq(t, p->arr[k], substA(q->arr[k], kv, k1))) return no("array " + str(p->arr[k]) + " vs " + str(substA(q->arr[k], kv, k1)));
    }
  }
  if (t.G.size() != g.G.size()) return no("groups");
  for (auto& kg : t.G) {
    auto i = g.G.find(kg.first);
    if (i == g.G.end()) return no("groups");
    if (kg.second->mats.size() != i->second->mats.size()) return no("mats");
    if (!arrEq(t, kg.second->cpp, substA(i->second->cpp, kv, k1)) || !arrEq(t, kg.second->cpi, substA(i->second->cpi, kv, k1)) || !arrEq(t, kg.second->status, substA(i->second->status, kv, k1))) return no("ghost");
  }
  if (ok) for (size_t i = 0; i < cand.size(); ++i) if ((*ok)[i]) {
    Lin c = subst(cand[i], kv, k1);
    t.n().touch(c);
    if (!t.num->provesGe(c) && !t.num->deepInfeasible({Lin(-1) - c})) { (*ok)[i] = false; if (DBG) fprintf(stderr, "   fact dropped: %s\n", str(cand[i]).c_str()); }
  }
  return true;
}
void Engine::runLoop(State s, Loop* L, std::vector<Out>& exits) {
  struct Head { State s; bool have; std::vector<Out> o; int d; bool peeled; int splits = 0; };
  std::list<Head> work;
  FI* fi = s.fr.back().fi;
  prune(s, fi, L);
  work.push_back({std::move(s), false, {}, 0, false});
  int heads = 0;
  while (!work.empty()) {
    Head h = std::move(work.front());
    work.pop_front();
    if (++heads > (noSummary ? 3000 : unroll > 10 ? 600 : 60)) { Out o{State::RUN, 4, std::move(h.s)}; o.st.note(loc(o.st) + ": ?loop with too many phases"); exits.push_back(std::move(o)); continue; }
    if (!h.have) h.o = iterate(h.s, L);
    std::vector<Out> B, X;
    for (auto& o : h.o) (o.kind == 1 ? B : X).push_back(std::move(o));
    if (B.empty()) { for (auto& x : X) exits.push_back(std::move(x)); continue; }
    if (h.d > (noSummary ? 600 : unroll)) {
      for (auto& x : X) exits.push_back(std::move(x));
      Out o{State::RUN, 4, std::move(B[0].st)};
      o.st.note(loc(o.st) + ": ?loop not summarised");
      exits.push_back(std::move(o));
      continue;
    }
    bool done = false, peel = false;
    bool mayPart = partition;
    if (h.splits > 6) partition = false;
    std::vector<std::vector<Out>> O2(B.size());
    std::vector<bool> have2(B.size(), false);
    for (size_t i = 0; i < B.size() && !done && !peel && !noSummary; ++i) {
      // quick check: pointer phis must stay in the same block
      auto &r0 = *h.s.fr.back().regs, &r1 = *B[i].st.fr.back().regs;
      bool quick = true;
      for (size_t k = 0; k < r0.size(); ++k) if (r0[k].k != r1[k].k || r0[k].id != r1[k].id || r0[k].sub != r1[k].sub) { quick = false; break; }
      if (!quick) continue;
      O2[i] = iterate(B[i].st, L);
      have2[i] = true;
      for (auto& b2 : O2[i]) {
        if (b2.kind != 1) continue;
        State g; int kv; std::vector<Lin> cand;
        if (DBG) fprintf(stderr, "loop at %s: trying to generalise\n", loc(h.s).c_str());
        if (!generalise(h.s, B[i].st, b2.st, L, !h.peeled, g, kv, cand)) {
          if (!splitOn.empty()) {
            for (int side = 0; side < 2; ++side) {
              State t = h.s;
              t.n().add(side ? Lin(-1) - splitOn[0] : splitOn[0]);
              if (t.num->bottom || t.num->deepInfeasible({})) continue;
              t.note(loc(h.s) + ": " + str(side ? Lin(-1) - splitOn[0] : splitOn[0]) + " >= 0");
              work.push_back({std::move(t), false, {}, h.d, h.peeled, h.splits + 1});
            }
            done = true;
            break;
          }
          if (wantPeel) { peel = true; break; }
          continue;
        }
        g.n().add(Lin::var(kv));
        std::vector<Out> ok;
        std::vector<bool> keep(cand.size(), true);
        bool good = false;
        std::vector<Out> conf, rest;
        for (int round = 0; round < 12; ++round) {
          State gg = g;
          for (size_t c = 0; c < cand.size(); ++c) if (keep[c]) gg.n().add(cand[c]);
          ok = iterate(gg, L);
          bool bad = false;
          for (auto& o : ok) if (o.kind >= 3) { bad = true; if (DBG) fprintf(stderr, "   generic iteration fails: %s\n", o.st.tr ? o.st.tr->s.c_str() : ""); }
          if (bad) break;
          std::vector<bool> k2 = keep;
          size_t nconf = 0;
          for (auto& o : ok) if (o.kind == 1 && conforms(o.st, g, kv, 1, cand, &k2)) { ++nconf; o.kind = 9; }
          if (!nconf) break;
          if (k2 == keep) { good = true; break; }
          keep = k2;
        }
        if (!good) continue;
        ++loopsGen;
        if (DBG) fprintf(stderr, "   loop summarised\n");
        for (auto& o : ok) {
          if (o.kind == 9) continue;
          o.st.approx = true;
          if (o.kind == 1) work.push_back({std::move(o.st), false, {}, h.d + 1, false, h.splits});
          else exits.push_back(std::move(o));
        }
        done = true;
        break;
      }
    }
    partition = mayPart;
    if (done) continue;
    if (!peel) ++loopsUnroll;
    for (auto& x : X) exits.push_back(std::move(x));
    for (size_t i = 0; i < B.size(); ++i) work.push_back({std::move(B[i].st), (bool)have2[i], std::move(O2[i]), h.d + (peel ? 0 : 1), peel, h.splits});
  }
}
// ---------------------------------------------------------------- top level
void Engine::report(State& s, Bug const& b, std::string where) {
  // a path counts only when integers satisfying everything on it exist
  Num n = *s.num;
  n.saturate();
  std::map<int, i64> m;
  int r = n.bottom ? 0 : intModel(n.cons, m);
  if (r == 0) { ++infeasible; return; }
  if (r < 0) { ++undecPaths; undec["no integer witness found for: " + b.msg]++; return; }
  Finding f;
  f.prop = b.prop; f.kind = b.kind; f.msg = b.msg; f.loc = where;
  std::vector<std::string> t;
  for (auto p = s.tr; p; p = p->up) t.push_back(p->s);
  for (auto it = t.rbegin(); it != t.rend(); ++it) if ((*it)[0] != '!') f.path += "    " + *it + "\n";
  f.approx = s.approx; f.threw = s.threw;
  for (auto& kv : m) f.pins[kv.first] = kv.second;
  for (auto& kv : m) if (VT.v[kv.first].g < 0) f.model += VT.v[kv.first].name + "=" + std::to_string(kv.second) + " ";
  for (auto& o : findings) if (o.prop == f.prop && o.kind == f.kind && o.msg == f.msg && o.loc == f.loc && o.approx <= f.approx) return;
  findings.push_back(f);
}
double timeIsUp = 1e9;
bool late() {
  static auto start = std::chrono::steady_clock::now();
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > timeIsUp;
}
std::vector<State> Engine::run(State s, Function* f, std::vector<Val> args) {
  std::vector<State> res;
  pushCall(s, f, args);
  std::vector<Out> outs;
  size_t depth = s.fr.size();
  try { explore(std::move(s), depth, nullptr, outs); }
  catch (Undec& u) { undec[u.why]++; ++undecPaths; }
  for (auto& o : outs) {
    ++paths;
    if (o.kind == 4) { ++undecPaths; std::string w = o.st.tr ? o.st.tr->s : "?"; undec[w]++; continue; }
    if (o.kind == 3) {
      Bug b;
      std::string w = o.st.tr->s;
      size_t p1 = w.find('!', 1), p2 = w.find('!', p1 + 1);
      b.prop = w.substr(1, p1 - 1); b.kind = w.substr(p1 + 1, p2 - p1 - 1); b.msg = w.substr(p2 + 1);
      report(o.st, b, loc(o.st));
      continue;
    }
    // pop the base frame
    State& t = o.st;
    try {
      for (int r : t.fr.back().allocas) {
        if (cfg.cls && t.R[r]) for (auto& c : t.R[r]->cells)
          if ((c.second.v.k == Val::EE || c.second.v.k == Val::EV || c.second.v.k == Val::EM) && c.second.size == cfg.esz)
            throw Bug{"C07", "leak-elem", "a local element of " + t.fr.back().fi->name + " is never destroyed"};
        t.R[r] = nullptr;
      }
      if (t.pend == State::UNW && t.fr.back().fi->fnNoThrow) throw Bug{"C14", "terminate", "an exception leaves a function that must not throw"};
      t.fr.pop_back();
      res.push_back(std::move(t));
    } catch (Bug& b) { report(t, b, "at exit"); }
  }
  return res;
}
void Engine::settle(State s, std::function<void(State&)> fn, std::function<void(State&)> done) {
  std::vector<State> st;
  st.push_back(std::move(s));
  int n = 0;
  while (!st.empty()) {
    State c = std::move(st.back());
    st.pop_back();
    if (++n > 3000) { undec["final check has too many partitions"]++; ++undecPaths; return; }
    if (late()) { undec["out of time"]++; ++undecPaths; return; }
    try { fn(c); if (done) done(c); }
    catch (Fork& f) {
      for (auto& a : f.alts) {
        State t = c;
        for (auto& l : a.cons) t.n().add(l);
        if (t.num->bottom || !t.num->feasible()) continue;
        t.note("final check: " + a.desc);
        st.push_back(std::move(t));
      }
    } catch (Bug& b) { report(c, b, "final state"); }
    catch (Undec& u) { undec[u.why]++; ++undecPaths; }
  }
}
