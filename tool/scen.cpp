#include "scen.h"
using namespace llvm;
static Lin PS(int g, Lin const& i) { return Lin::var(VT.psum(g, i)); }
Function* Scen::fn(std::string const& n) { return E.M.getFunction(n); }

// fields that are none of those known hold something
static void fillUnknown(Region& R, i64 size) {
  i64 o = 0;
  auto fill = [&](i64 to) { o = (o + 7) / 8 * 8; for (; o + 8 <= to; o += 8) R.cells[o] = {mkK(Val::UNK), 8}; };
  auto cells = R.cells;
  for (auto& c : cells) { fill(c.first); o = std::max(o, c.first + c.second.size); }
  fill(size);
}
Cont Scen::mkCont(State& s, int ht, int allocId, Lin base) {
  Cont c;
  c.ht = ht; c.base = base;
  c.reg = E.newLocal(s, "the container", cfg.seqsz);
  Val id = mkInt(Lin(allocId));
  if (allocId < 0) id = mkInt(Lin::var(VT.sym("alloc" + std::to_string(-allocId))));
  Val root = mkK(Val::NUL);
  if (ht == 1) {
    Lin n = Lin::var(VT.sym("n"));
    s.n().add(n - Lin(1)); s.n().add(Lin(cfg.smax) - n);
    auto p = std::make_shared<Region>();
    p->kind = Region::SEG; p->name = "root segment"; p->heap = true; p->allocN = Lin(cfg.smax); p->allocId = id;
    p->arr[0] = {{Lin(0), n, mkE(base + Lin::var(IOTA))}, {n, Lin(cfg.smax), Val()}};
    s.R.push_back(p);
    c.rootReg = (int)s.R.size() - 1;
    E.coalesce(s, s.wr(c.rootReg).arr[0]);
    c.n = n;
    root = mkReg(c.rootReg);
  } else if (ht >= 2) {
    Lin L = Lin::var(VT.sym("rootlen"));
    s.n().add(L - Lin(2)); s.n().add(Lin(cfg.bmax) - L);
    int g = E.newGroup(s, ht - 1, L, base);
    auto p = std::make_shared<Region>();
    p->kind = Region::NODE; p->name = "root node"; p->heap = true; p->allocN = Lin(1); p->allocId = id; p->group = g;
    s.R.push_back(p);
    int r = (int)s.R.size() - 1;
    c.rootReg = r; c.g = g;
    Group& G = s.wg(g);
    G.allocId = id;
    G.cpp = {{Lin(0), L, mkReg(r)}};
    G.cpi = {{Lin(0), L, mkInt(Lin::var(IOTA))}};
    Region& R = s.wr(r);
    R.cells[cfg.oParent] = {mkK(Val::NUL), 8};
    R.cells[cfg.oPidx] = {mkInt(Lin::var(VT.sym("rootpidx"))), cfg.wPidx};
    Lin pi = R.cells[cfg.oPidx].v.a;
    s.n().add(pi); s.n().add(Lin(cfg.bmax - 1) - pi);
    R.cells[cfg.oLen] = {mkInt(L), cfg.wLen};
    Lin i = Lin::var(IOTA);
    R.arr[0] = {{Lin(0), L, mkInt(PS(g, i + Lin(1)) - PS(g, i))}, {L, Lin(cfg.bmax), Val()}};
    R.arr[1] = {{Lin(0), L, mkItem(g, i)}, {L, Lin(cfg.bmax), Val()}};
    c.n = PS(g, L) - PS(g, Lin(0));
    root = mkReg(r);
  }
  Region& C = s.wr(c.reg);
  C.cells[cfg.oRoot] = {root, 8};
  if (!E.stateless) { C.cells[cfg.oAlloc] = {id, 4}; C.cells[cfg.oNAlloc] = {id, 4}; }
  C.cells[cfg.oSize] = {mkInt(c.n), 8};
  C.cells[cfg.oHeight] = {mkInt(ht), 8};
  fillUnknown(C, cfg.seqsz);
  return c;
}
Iter Scen::mkIter(State& s, Cont const& c, bool end, char const* nm, Iter const* ref, int div, int dir, int edge) {
  Iter it;
  std::string N = nm;
  auto slot = [&](int h, Lin len, std::string sym) {
    if (ref && h > div) return ref->at.at(h);
    if (end) return h == 1 ? len : len - Lin(1);
    if (edge && h < c.ht) return edge < 0 ? Lin(0) : len - Lin(1);
    Lin k = Lin::var(VT.sym(sym));
    s.n().add(k); s.n().add(len - k - Lin(1));
    if (ref && h == div) s.n().add(dir > 0 ? k - ref->at.at(h) - Lin(1) : ref->at.at(h) - k - Lin(1));
    return k;
  };
  if (c.ht < 2) {
    it.leafPtr = mkK(Val::NUL); it.leafIdx = mkInt(0);
    it.segPtr = c.ht ? mkReg(c.rootReg) : mkK(Val::NUL);
    it.segLen = mkInt(c.n);
    it.segIdx = it.pos = mkInt(it.at[1] = slot(1, c.n, N));
    return it;
  }
  int g = c.g;
  Val self = mkReg(c.rootReg);
  for (int h = c.ht; ; --h) {
    Lin L = s.G[g]->L, i = it.at[h] = slot(h, L, N + ".i" + std::to_string(h));
    if (h == 2) {
      Lin a = PS(g, i), b = PS(g, i + Lin(1)), z = PS(g, Lin(0)), t = PS(g, L);
      s.n().touch(a); s.n().touch(b);
      i64 lo = GB[g].lo, hi = GB[g].hi;
      s.n().add(a - z - i * lo); s.n().add(i * hi - a + z);
      Lin rest = L - i - Lin(1);
      s.n().add(t - b - rest * lo); s.n().add(rest * hi - t + b);
      Lin len = b - a;
      s.n().add(len - Lin(lo)); s.n().add(Lin(hi) - len);
      Lin k = it.at[1] = slot(1, len, N + ".k");
      it.leafPtr = self; it.leafIdx = mkInt(i);
      it.segPtr = mkItem(g, i); it.segLen = mkInt(len); it.segIdx = mkInt(k);
      it.pos = mkInt(end ? c.n : s.G[g]->base - c.base + a - z + k);
      return it;
    }
    int r = E.materialise(s, g, i);
    self = mkItem(g, i);
    g = s.R[r]->group;
  }
}
int Scen::putIter(State& s, Iter const& it) {
  int r = E.newLocal(s, "an iterator", cfg.itsz);
  Region& R = s.wr(r);
  R.cells[cfg.iSegPtr] = {it.segPtr, 8}; R.cells[cfg.iSegIdx] = {it.segIdx, cfg.wSegIdx}; R.cells[cfg.iSegLen] = {it.segLen, cfg.wSegLen};
  R.cells[cfg.iLeafPtr] = {it.leafPtr, 8}; R.cells[cfg.iLeafIdx] = {it.leafIdx, cfg.wLeafIdx}; R.cells[cfg.iPos] = {it.pos, cfg.wPos};
  fillUnknown(R, cfg.itsz);
  return r;
}
Iter Scen::getIter(State& s, int reg) {
  Iter it;
  Region const& R = *s.R[reg];
  auto rd = [&](i64 o) { auto i = R.cells.find(o); return i == R.cells.end() ? Val() : i->second.v; };
  it.segPtr = rd(cfg.iSegPtr); it.segIdx = rd(cfg.iSegIdx); it.segLen = rd(cfg.iSegLen);
  it.leafPtr = rd(cfg.iLeafPtr); it.leafIdx = rd(cfg.iLeafIdx); it.pos = rd(cfg.iPos);
  return it;
}
int Scen::mkElem(State& s, int tok) {
  int r = E.newLocal(s, "the argument", cfg.esz);
  s.wr(r).cells[0] = {mkV(tok), cfg.esz};
  return r;
}
// a structural defect: a count or link that disagrees with what it describes
static Bug bad(std::string m) { return Bug{"C03", "structure", m}; }
static Bug fillBug(std::string m) { return Bug{"C03", "fill", m}; }
static Lin need(Val const& v, char const* what) {
  if (v.k == Val::UNDEF) throw Bug{"C03", "structure", std::string(what) + " was never written"};
  if (v.k != Val::INT) throw Undec{std::string(what) + " is " + str(v)};
  return v.a;
}
// chunks of a (restricted to [b,e)), skipping empty ones; decides emptiness
static void overRange(Engine& E, State& s, Arr const& a, Lin b, Lin e, std::function<void(Lin, Lin, Val const&)> f) {
  Lin cur = b;
  for (size_t i = 0; i < a.size(); ++i) {
    if (!E.ge(s, e - cur - Lin(1))) return;
    if (!E.ge(s, a[i].e - cur - Lin(1))) continue;
    Lin to = E.ge(s, a[i].e - e) ? e : a[i].e;
    f(cur, to, a[i].v);
    cur = to;
  }
}
Lin Scen::walk(State& s, Val p, int ht, bool root, Val parent, Lin pidx, Lin acc, Val szCell, WalkRes& w, ItQuery* q) {
  if (p.k == Val::NUL) throw bad("a child pointer is null");
  if (p.k == Val::UNDEF) throw bad("a child pointer was never written");
  int r = -1;
  if (p.k == Val::ITEM) { if (!s.G.count(p.id)) throw Bug{"C08", "dangling", "a released block is still reachable"}; r = E.resolve(s, p.id, p.a); if (r < 0) throw Undec{"walk"}; }
  else if (p.k == Val::REG) r = p.id;
  else throw Undec{"child pointer " + str(p)};
  if (!(p.off == Lin(0)) || p.sub) throw bad("a child pointer points into the middle of a block");
  if (!s.R[r] || s.R[r]->freed) throw Bug{"C08", "dangling", "a released block is still reachable from the container"};
  if (!w.regs.insert(r).second) throw bad("a block is reachable twice");
  if (s.R[r]->kind == Region::LOCAL) throw bad("a child pointer does not point to a block");
  if ((s.R[r]->kind == Region::SEG) != (ht == 1)) throw bad("the leaves are not all at the depth that height() says");
  if (ht == 1) {
    Lin L = need(szCell, "the size of a segment");
    if (!E.ge(s, L - Lin(1)) || !E.ge(s, Lin(cfg.smax) - L)) throw bad("a segment is recorded as holding " + str(L) + " elements");
    if (!root && !E.ge(s, L - Lin(cfg.smin()))) throw fillBug("a segment holds " + str(L) + " elements, fewer than " + std::to_string(cfg.smin()));
    Arr a = s.R[r]->arr[0];
    overRange(E, s, a, Lin(0), L, [&](Lin b, Lin e, Val const& v) {
      bool run = mentions(v.a, IOTA);
      if (v.k == Val::UNDEF) throw Bug{"C07", "hole", "slot " + str(b) + " of a segment of length " + str(L) + " holds no element"};
      if (v.k == Val::EE && run) { Lin a0 = subst(v.a, IOTA, b); if (!(subst(v.a, IOTA, b + Lin(1)) - a0 == Lin(1))) throw Undec{"element run"}; w.c.push_back({0, a0, e - b, 0}); return; }
      Lin ln = e - b;
      int kind = v.k == Val::EE ? 0 : v.k == Val::EV ? 1 : v.k == Val::EM ? 2 : 3;
      if (kind == 3) throw Undec{"segment slot " + str(v)};
      // the same element more than once
      w.c.push_back({kind, v.k == Val::EE ? v.a : Lin(0), Lin(1), v.id});
      if (!E.eq(s, ln - Lin(1))) w.c.push_back({kind, v.k == Val::EE ? v.a : Lin(0), Lin(1), v.id});
    });
    if (cfg.cls && !skipLeak) overRange(E, s, a, L, Lin(cfg.smax), [&](Lin b, Lin, Val const& v) {
      if (v.k != Val::UNDEF) throw Bug{"C07", "leak-elem", "slot " + str(b) + " beyond the length " + str(L) + " of a segment still holds a live element (" + str(v) + ")"};
    });
    return L;
  }
  Val self = mkReg(r);
  auto cell = [&](i64 o) { auto i = s.R[r]->cells.find(o); return i == s.R[r]->cells.end() ? Val() : i->second.v; };
  Val pp = cell(cfg.oParent);
  if (pp.k == Val::UNDEF) throw bad("the parent pointer of an index node was never written");
  if (!E.ptrEq(s, pp, parent)) throw bad("the parent pointer of an index node does not point to its parent");
  if (root && cell(cfg.oPidx).k == Val::UNDEF) throw Bug{"C25", "unwritten", "the parent index of the root was never written"};
  if (!root) { Lin pi = need(cell(cfg.oPidx), "the parent index of an index node"); if (!E.eq(s, pi - pidx)) throw bad("an index node at slot " + str(pidx) + " records parent index " + str(pi)); }
  Lin L = need(cell(cfg.oLen), "the length of an index node");
  if (!E.ge(s, L - Lin(1)) || !E.ge(s, Lin(cfg.bmax) - L)) throw bad("an index node is recorded as holding " + str(L) + " children");
  if (root ? !E.ge(s, L - Lin(2)) : !E.ge(s, L - Lin(cfg.bmin()))) throw fillBug(std::string(root ? "the root" : "an index node") + " holds " + str(L) + " children");
  Lin start = acc;
  Arr ptrs = s.R[r]->arr[1], szs = s.R[r]->arr[0];
  bool isLeaf = q && ht == 2 && q->leafReg == r;
  Lin qi = isLeaf ? q->it.leafIdx.a : Lin(0);
  overRange(E, s, ptrs, Lin(0), L, [&](Lin b, Lin e, Val const& v0) {
    Val v = v0;
    if (v.k == Val::UNDEF) throw bad("child pointer " + str(b) + " of an index node of length " + str(L) + " was never written");
    if (v.k == Val::NUL) throw bad("child pointer " + str(b) + " of an index node is null");
    if (v.k != Val::ITEM && v.k != Val::REG) throw Undec{"child pointer " + str(v)};
    bool run = v.k == Val::ITEM && mentions(v.a, IOTA);
    if (!run && !E.eq(s, e - b - Lin(1))) throw bad("two slots of an index node point to the same child");
    auto single = [&](Lin slot, Val pv) {
      Val sz = E.readAt(s, s.R[r]->arr[0], slot);
      Lin want = need(sz, "the size of a child");
      if (isLeaf && !q->found && E.eq(s, slot - qi)) { q->found = true; q->segStart = acc; q->segPtr = pv; q->segLen = sz; }
      Lin got = walk(s, pv, ht - 1, false, self, slot, acc, sz, w, q);
      if (!E.eq(s, got - want)) throw bad("the recorded size of a child at slot " + str(slot) + " is " + str(want) + " but it holds " + str(got));
      acc = acc + got;
    };
    if (v.k == Val::REG) { single(b, v); return; }
    Lin d = run ? v.a - Lin::var(IOTA) : v.a - b;
    if (mentions(d, IOTA)) throw Undec{"child run"};
    if (!(v.off == Lin(0)) || v.sub) throw bad("a child pointer points into the middle of a block");
    int g = v.id;
    if (!s.G.count(g)) throw Bug{"C08", "dangling", "a released block is still reachable"};
    if (s.G[g]->ht != ht - 1) throw bad("the leaves are not all at the depth that height() says");
    std::function<void(Lin, Lin)> seg = [&](Lin lo, Lin hi) {
      if (!E.ge(s, hi - lo - Lin(1))) return;
      for (auto m : s.G[g]->mats) {
        if (!E.ge(s, m.first - lo) || !E.ge(s, hi - m.first - Lin(1))) continue;
        seg(lo, m.first);
        single(m.first - d, mkItem(g, m.first));
        seg(m.first + Lin(1), hi);
        return;
      }
      // a child whose recorded size is not the original one is looked into
      bool again = false;
      overRange(E, s, szs, lo - d, hi - d, [&](Lin x, Lin y, Val const& z) {
        if (again) return;
        Lin want = PS(g, Lin::var(IOTA) + d + Lin(1)) - PS(g, Lin::var(IOTA) + d);
        Lin have = need(z, "the size of a child");
        if (have == want) return;
        bool one = E.eq(s, y - x - Lin(1));
        if (E.eq(s, subst(have, IOTA, x) - subst(want, IOTA, x))) {
          if (one) return;
          Lin l = y - Lin(1), dl = subst(have, IOTA, l) - subst(want, IOTA, l);
          if (!E.eq(s, dl)) { E.materialise(s, g, l + d); again = true; return; }
          if (!E.eq(s, y - x - Lin(2))) throw Undec{"sizes run"};
          return;
        }
        E.materialise(s, g, x + d); again = true;
      });
      if (again) { seg(lo, hi); return; }
      Group const& G = *s.G[g];
      if (!E.ge(s, lo) || !E.ge(s, G.L - hi)) throw Undec{"child run beyond its group"};
      overRange(E, s, G.status, lo, hi, [&](Lin, Lin, Val const& st) { if (st.a.c) throw Bug{"C08", "dangling", "a released block is still reachable from the container"}; });
      if (ht > 2) {
        overRange(E, s, G.cpp, lo, hi, [&](Lin x, Lin y, Val const& p) {
          bool run = p.k == Val::ITEM && mentions(p.a, IOTA);
          if (!E.ptrEq(s, run ? substV(p, IOTA, x) : p, self)) throw bad("the parent pointer of an index node does not point to its parent");
          if (run && E.ge(s, y - x - Lin(2))) throw bad("two children of an index node record different parents");
        });
        overRange(E, s, G.cpi, lo, hi, [&](Lin x, Lin y, Val const& pi) {
          Lin df = need(pi, "the parent index of an index node") - (Lin::var(IOTA) - d);
          if (mentions(df, IOTA)) { Lin d0 = subst(df, IOTA, x); if (!E.eq(s, d0)) throw bad("a parent index is off by " + str(d0)); if (!E.eq(s, y - x - Lin(1))) throw bad("two children record the same parent index"); }
          else if (!E.eq(s, df)) throw bad("the parent index of an index node is off by " + str(df));
        });
      }
      Lin a = PS(g, lo), z = PS(g, hi);
      s.n().touch(a); s.n().touch(z);
      if (isLeaf && !q->found && E.ge(s, qi + d - lo) && E.ge(s, hi - Lin(1) - qi - d)) {
        q->found = true;
        Lin m = PS(g, qi + d), m1 = PS(g, qi + d + Lin(1));
        s.n().touch(m); s.n().touch(m1);
        q->segStart = acc + m - a;
        q->segPtr = mkItem(g, qi + d);
        q->segLen = mkInt(m1 - m);
      }
      w.c.push_back({0, G.base + a - PS(g, Lin(0)), z - a, 0});
      w.reached[g].push_back({lo, hi});
      acc = acc + z - a;
    };
    seg(b + d, e + d);
  });
  return acc - start;
}
WalkRes Scen::walkCont(State& s, Cont const& c, ItQuery* q) {
  WalkRes w;
  Region const& C = *s.R[c.reg];
  auto rd = [&](i64 o) { auto i = C.cells.find(o); return i == C.cells.end() ? Val() : i->second.v.k == Val::ZERO ? (o == cfg.oRoot ? mkK(Val::NUL) : mkInt(0)) : i->second.v; };
  Val root = rd(cfg.oRoot), sz = rd(cfg.oSize), ht = rd(cfg.oHeight);
  if (root.k == Val::UNDEF) throw bad("the root pointer was never written");
  if (root.k == Val::INT && root.a == Lin(0)) root = mkK(Val::NUL);
  Lin n = need(sz, "the size"), h = need(ht, "the height");
  if (!E.stateless) { Val a = rd(cfg.oAlloc), b = rd(cfg.oNAlloc);
    if (a.k == Val::UNDEF || b.k == Val::UNDEF) throw Bug{"C12", "alloc", "the stored allocator was never set"}; }
  if (root.k == Val::NUL) {
    if (!E.eq(s, n)) throw bad("an empty container has size " + str(n));
    if (!E.eq(s, h)) throw bad("an empty container has height " + str(h));
    return w;
  }
  if (!h.isConst()) throw Undec{"symbolic height"};
  if (h.c < 1 || h.c > 66) throw bad("a non-empty container has height " + str(h));
  if (root.k == Val::ITEM) {
    if (!s.G.count(root.id)) throw Bug{"C08", "dangling", "the root was released"};
    root = mkReg(E.materialise(s, root.id, root.a));
  }
  Lin t = walk(s, root, (int)h.c, true, mkK(Val::NUL), Lin(0), Lin(0), sz, w, q);
  auto origin = [&](Val const& from, bool node) {
    if (E.stateless) return;
    Val own = rd(node ? cfg.oNAlloc : cfg.oAlloc);
    if (own.k != Val::INT || from.k != Val::INT) throw Undec{"allocator identity"};
    if (!E.eq(s, own.a - from.a)) throw Bug{"C12", "alloc", std::string(node ? "an index node" : "a segment") + " of the container comes from another allocator than the one it would be given back to"};
  };
  for (int r : w.regs) origin(s.R[r]->allocId, s.R[r]->kind == Region::NODE);
  for (auto& kv : w.reached) origin(s.G[kv.first]->allocId, s.G[kv.first]->ht > 1);
  if (!E.eq(s, t - n)) throw bad("size() is " + str(n) + " but the container holds " + str(t) + " elements");
  w.total = t;
  return w;
}
void Scen::matchContent(State& s, std::vector<Slice> got, std::vector<Slice> want, std::string prop) {
  size_t i = 0, j = 0;
  Lin pos;
  auto nm = [](Slice const& x) { return x.kind == 0 ? "old[" + str(x.a) + "]" : x.kind == 4 ? "a copy of old[" + str(x.a) + "]" : x.kind == 1 ? "the new value #" + std::to_string(x.tok) : x.kind == 3 ? "element " + str(x.a) + " of the result of an algorithm" : std::string("a moved-from element"); };
  auto old = [](Slice const& x) { return x.kind == 0 || x.kind == 4; };
  for (;;) {
    if (i < got.size() && !E.ge(s, got[i].len - Lin(1))) { ++i; continue; }
    if (j < want.size() && !E.ge(s, want[j].len - Lin(1))) { ++j; continue; }
    if (i == got.size() && j == want.size()) return;
    if (i == got.size()) throw Bug{prop, "content", "the sequence ends at index " + str(pos) + " where " + nm(want[j]) + " should follow"};
    if (j == want.size()) throw Bug{prop, "content", "an extra element at index " + str(pos) + ": " + nm(got[i])};
    Slice &x = got[i], &y = want[j];
    if ((x.kind != y.kind && !(old(x) && old(y))) || ((x.kind == 1 || x.kind == 3) && x.tok != y.tok) || ((old(x) || x.kind == 3) && !E.eq(s, x.a - y.a)))
      throw Bug{prop, "content", "at index " + str(pos) + " there is " + nm(x) + " instead of " + nm(y)};
    Lin l;
    auto drop = [](Slice& z, Lin k) { if (z.kind != 4) z.a = z.a + k; z.len = z.len - k; };
    if (x.kind != y.kind) { l = Lin(1); drop(x, l); drop(y, l); }  // a run of old elements against copies of one
    else if (x.len == y.len || E.eq(s, x.len - y.len)) { l = x.len; ++i; ++j; }
    else if (E.ge(s, x.len - y.len)) { l = y.len; drop(x, l); ++j; }
    else { l = x.len; drop(y, l); ++i; }
    pos = pos + l;
  }
}
void Scen::checkLeaks(State& s, std::vector<WalkRes*> ws) {
  for (size_t r = 0; r < s.R.size(); ++r) {
    auto& p = s.R[r];
    if (!p || p->freed || p->kind == Region::LOCAL) continue;
    bool in = false;
    for (auto* w : ws) if (w->regs.count((int)r)) in = true;
    if (!in) {
      if (p->kind == Region::SEG && cfg.cls && !skipLeak) for (auto& c : p->arr[0]) if (c.v.k != Val::UNDEF && E.ge(s, c.e - c.b - Lin(1))) throw Bug{"C07", "leak-elem", "elements of an unreachable segment are never destroyed"};
      throw Bug{"C08", "leak", std::string(p->kind == Region::SEG ? "a segment" : "an index node") + " (" + p->name + ") is neither reachable nor given back"};
    }
  }
  for (auto& kg : s.G) {
    Lin sum;
    for (auto* w : ws) { auto it = w->reached.find(kg.first); if (it != w->reached.end()) for (auto& x : it->second) sum = sum + x.second - x.first; }
    for (auto& m : kg.second->mats) if (s.R[m.second] && !s.R[m.second]->freed) sum = sum + Lin(1);
    for (auto& c : kg.second->status) if (c.v.a.c && E.ge(s, c.e - c.b - Lin(1))) sum = sum + c.e - c.b;
    Lin df = kg.second->L - sum;
    if (!E.eq(s, df)) {
      if (E.ge(s, df)) throw Bug{"C08", "leak", str(df) + " children of an index node are neither reachable nor given back"};
      throw Undec{"leak count"};
    }
  }
}
void Scen::prepareIter(State& s, ItQuery& q) {
  Val v = q.it.leafPtr;
  if (v.k == Val::UNDEF) throw Bug{"C04", "iterator", "the leaf pointer of the iterator was never written"};
  if (v.k == Val::ITEM) {
    try { q.leafReg = E.materialise(s, v.id, v.a); }
    catch (Bug&) { throw Bug{"C04", "iterator", "the iterator refers to a released index node"}; }
  } else if (v.k == Val::REG) {
    if (!s.R[v.id] || s.R[v.id]->freed) throw Bug{"C04", "iterator", "the iterator refers to a released index node"};
    q.leafReg = v.id;
  } else if (v.k != Val::NUL) throw Undec{"iterator leaf " + str(v)};
  for (Val* x : {&q.it.leafIdx, &q.it.segIdx, &q.it.segLen, &q.it.pos, &q.it.segPtr})
    if (x->k == Val::UNDEF) throw Bug{"C04", "iterator", "a field of the iterator was never written"};
  for (Val* x : {&q.it.leafIdx, &q.it.segIdx, &q.it.segLen, &q.it.pos})
    if (x->k != Val::INT) throw Undec{"iterator field " + str(*x)};
}
void Scen::checkIter(State& s, Cont const& c, WalkRes& w, ItQuery& q, Lin pos, std::string prop) {
  auto no = [&](std::string m) { return Bug{prop, "iterator", "the iterator for position " + str(pos) + ": " + m}; };
  Iter& it = q.it;
  Lin n = w.total, k = it.segIdx.a;
  if (!E.eq(s, it.pos.a - pos)) throw no("its position is " + str(it.pos.a));
  Val root = s.R[c.reg]->cells[cfg.oRoot].v;
  Val h = s.R[c.reg]->cells[cfg.oHeight].v;
  if (root.k == Val::NUL || root.k == Val::ZERO) {
    if (it.leafPtr.k != Val::NUL || it.segPtr.k != Val::NUL || !E.eq(s, it.leafIdx.a) || !E.eq(s, k) || !E.eq(s, it.segLen.a)) throw no("it is not the end iterator of an empty container");
    return;
  }
  Lin start;
  if (h.a == Lin(1)) {
    if (it.leafPtr.k != Val::NUL) throw no("it refers to an index node in a container of one segment");
    if (!E.eq(s, it.leafIdx.a)) throw no("its leaf index is " + str(it.leafIdx.a) + " in a container of one segment");
    if (!E.ptrEq(s, it.segPtr, root)) throw no("its segment is not the one segment of the container");
    if (!E.eq(s, it.segLen.a - n)) throw no("its segment length is " + str(it.segLen.a) + " instead of " + str(n));
  } else {
    if (it.leafPtr.k == Val::NUL) throw no("it refers to no index node");
    if (!w.regs.count(q.leafReg)) throw no("it refers to an index node that is not in the container");
    if (!q.found) throw no("its leaf index " + str(it.leafIdx.a) + " is not a child of its index node");
    if (!E.ptrEq(s, it.segPtr, q.segPtr)) throw no("its segment is not the child its leaf entry designates");
    Lin len = need(q.segLen, "segment size");
    if (!E.eq(s, it.segLen.a - len)) throw no("its segment length is " + str(it.segLen.a) + " but the segment holds " + str(len));
    start = q.segStart;
  }
  if (!E.eq(s, start + k - pos)) throw no("it designates the element at index " + str(start + k));
  if (!E.ge(s, it.segLen.a - k - Lin(1))) if (!E.eq(s, pos - n)) throw no("it stands past the end of a segment that is not the last");
}
