#include "runner.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
using namespace llvm;
static std::string esc(std::string const& s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static Lin PS(int g, Lin const& i) { return Lin::var(VT.psum(g, i)); }
static void unchanged(Scen& sc, State& t, Cont const& c) {
  ItQuery* q = nullptr;
  WalkRes w = sc.walkCont(t, c, q);
  sc.matchContent(t, w.c, {{0, c.base, c.n, 0}}, "C09");
  sc.checkLeaks(t, {&w});
}
static void inserts(Runner& R, int ht, int edge = 0) {
  Scen& sc = R.sc;
  R.lim = {4 * std::max(ht - 1, 0) + 2, 4};
  struct W { char const* nm; int pos; bool ret; int arg; } ws[] = {  // pos 0 given, 1 back, 2 front; arg 0 element, 1 int
      {"w_insert_copy", 0, true, 0}, {"w_insert_move", 0, true, 0}, {"w_emplace", 0, true, 1},
      {"w_push_back_copy", 1, false, 0}, {"w_push_back_move", 1, false, 0}, {"w_emplace_back", 1, false, 1},
      {"w_push_front_copy", 2, false, 0}, {"w_push_front_move", 2, false, 0}, {"w_emplace_front", 2, false, 1}};
  for (auto& w : ws)
    for (int mode = 0; mode < 2; ++mode) {
      if (w.pos && mode) continue;
      // tall trees: at the edges of a subtree below the root, and at the ends
      if (edge && strcmp(w.nm, "w_emplace") && (edge > 0 || strcmp(w.nm, "w_emplace_back")) && (edge > 0 || strcmp(w.nm, "w_emplace_front"))) continue;
      if (edge && mode) continue;
      if (w.pos == 0 && mode == 0 && ht == 0) continue;
      Cont c;
      Iter it;
      int out = -1;
      Lin pos;
      std::string nm = std::string(w.nm) + "/h" + std::to_string(ht) + (w.pos ? "" : mode ? "/end" : edge < 0 ? "/first" : edge > 0 ? "/last" : "/mid");
      R.scenario(nm, w.nm, {"C01"}, {"C09"}, [&](State& s) {
        c = sc.mkCont(s, ht, 7, Lin(0));
        std::vector<Val> a;
        if (w.ret) { out = R.E.newLocal(s, "the result", R.cfg.Isz); a.push_back(mkReg(out)); }
        a.push_back(mkReg(c.reg));
        if (w.pos == 0) { it = sc.mkIter(s, c, mode == 1, "p", nullptr, 0, 0, edge); a.push_back(mkReg(sc.putIter(s, it))); pos = it.pos.a; }
        else pos = w.pos == 1 ? c.n : Lin(0);
        a.push_back(w.arg ? mkInt(5) : mkReg(sc.mkElem(s, 1)));
        return a;
      }, [&](State& t) {
        ItQuery q;
        if (w.ret) { q.it = sc.getIter(t, out); sc.prepareIter(t, q); }
        WalkRes wr = sc.walkCont(t, c, w.ret ? &q : nullptr);
        sc.matchContent(t, wr.c, {{0, Lin(0), pos, 0}, {1, Lin(0), Lin(1), 1}, {0, pos, c.n - pos, 0}}, "C01");
        sc.checkLeaks(t, {&wr});
        if (w.ret) sc.checkIter(t, c, wr, q, pos, "C04");
      }, [&](State& t) { unchanged(sc, t, c); });
    }
}
// the value that is inserted is an element of the sequence
static void owns(Runner& R, int ht) {
  Scen& sc = R.sc;
  R.lim = {-1, -1};
  if (!ht) return;
  struct W { char const* nm; int pos; } ws[] = {{"w_insert_copy", 0}, {"w_push_back_copy", 1}, {"w_push_front_copy", 2}};
  for (auto& w : ws)
    // where the element is relative to the position: div the highest slot that differs, 0 the same element
    for (int end = 0; end < (w.pos ? 1 : 2); ++end) for (int div = 0; div <= ht; ++div) for (int dir = -1; dir <= 1; dir += 2) {
      if (w.pos && (div || dir > 0)) continue;
      if (!w.pos && (div == 0 && (dir > 0 || end))) continue;
      if (end && (div != 1 || dir > 0)) continue;
      Cont c;
      Iter it, own;
      Lin pos, j;
      std::string nm = std::string(w.nm) + "/own element/h" + std::to_string(ht) + (w.pos ? "" : end ? "/end" : "/d" + std::to_string(div) + (dir < 0 ? "-" : "+"));
      R.scenario(nm, w.nm, {"C20"}, {"C20"}, [&](State& s) {
        c = sc.mkCont(s, ht, 7, Lin(0));
        std::vector<Val> a;
        if (!w.pos) a.push_back(mkReg(R.E.newLocal(s, "the result", R.cfg.Isz)));
        a.push_back(mkReg(c.reg));
        if (!w.pos) {
          it = sc.mkIter(s, c, end, "p"); a.push_back(mkReg(sc.putIter(s, it))); pos = it.pos.a;
          own = end ? sc.mkIter(s, c, false, "q") : div ? sc.mkIter(s, c, false, "q", &it, div, dir) : it;
        } else { own = sc.mkIter(s, c, false, "q"); pos = w.pos == 1 ? c.n : Lin(0); }
        j = own.pos.a;
        Val p = own.segPtr;
        p.off = p.off + own.segIdx.a * R.cfg.esz;
        a.push_back(p);
        return a;
      }, [&](State& t) {
        WalkRes wr = sc.walkCont(t, c, nullptr);
        sc.matchContent(t, wr.c, {{0, Lin(0), pos, 0}, {0, j, Lin(1), 0}, {0, pos, c.n - pos, 0}}, "C20");
        sc.checkLeaks(t, {&wr});
      }, [&](State& t) { unchanged(sc, t, c); });
    }
}
static void erases(Runner& R, int ht, int edge = 0) {
  Scen& sc = R.sc;
  R.lim = {4 * std::max(ht - 1, 0), 4};
  if (!ht) return;
  struct W { char const* nm; int pos; } ws[] = {{"w_erase", 0}, {"w_pop_back", 1}, {"w_pop_front", 2}};
  for (auto& w : ws) {
    if (edge > 0 && w.pos) continue;
    Cont c;
    Iter it;
    int out = -1;
    Lin pos;
    R.scenario(std::string(w.nm) + "/h" + std::to_string(ht) + (w.pos || !edge ? "" : edge < 0 ? "/first" : "/last"), w.nm, {"C02"}, {"C02"}, [&](State& s) {
      c = sc.mkCont(s, ht, 7, Lin(0));
      std::vector<Val> a;
      if (!w.pos) { out = R.E.newLocal(s, "the result", R.cfg.Isz); a.push_back(mkReg(out)); }
      a.push_back(mkReg(c.reg));
      if (!w.pos) { it = sc.mkIter(s, c, false, "p", nullptr, 0, 0, edge); a.push_back(mkReg(sc.putIter(s, it))); pos = it.pos.a; }
      else pos = w.pos == 1 ? c.n - Lin(1) : Lin(0);
      return a;
    }, [&](State& t) {
      ItQuery q;
      if (!w.pos) { q.it = sc.getIter(t, out); sc.prepareIter(t, q); }
      WalkRes wr = sc.walkCont(t, c, w.pos ? nullptr : &q);
      sc.matchContent(t, wr.c, {{0, Lin(0), pos, 0}, {0, pos + Lin(1), c.n - pos - Lin(1), 0}}, "C02");
      sc.checkLeaks(t, {&wr});
      if (!w.pos) sc.checkIter(t, c, wr, q, pos, "C04");
    }, [&](State& t) { throw Bug{"C02", "throws", "erase throws"}; });
  }
}

// the container is as it was
static WalkRes intact(Scen& sc, State& t, Cont const& c, ItQuery* q, PV const& props) {
  WalkRes w = sc.walkCont(t, c, q);
  sc.matchContent(t, w.c, {{0, c.base, c.n, 0}}, props[0]);
  sc.checkLeaks(t, {&w});
  return w;
}
static void mayNotThrow(State&, char const* prop) { throw Bug{prop, "throws", "an exception leaves an operation that must not throw"}; }
// a pointer or reference to the element at pos
static void checkElem(Scen& sc, State& t, Cont const& c, Val p, Lin pos, char const* prop) {
  if (p.k == Val::NUL || p.k == Val::UNDEF) throw Bug{prop, "lookup", "the result for index " + str(pos) + " refers to nothing"};
  Val e = sc.E.readElem(t, p);
  if (e.k == Val::UNDEF) throw Bug{prop, "lookup", "the result for index " + str(pos) + " refers to a slot that holds no element"};
  if (e.k != Val::EE) throw Undec{"looked up " + str(e)};
  if (!sc.E.eq(t, e.a - c.base - pos)) throw Bug{prop, "lookup", "the result for index " + str(pos) + " refers to the element with index " + str(e.a - c.base)};
}
static void checkInt(Scen& sc, State& t, Val const& v, Lin want, char const* prop, char const* what) {
  if (v.k == Val::UNDEF) throw Bug{prop, "value", std::string(what) + " is never set"};
  if (v.k != Val::INT) throw Undec{std::string(what) + " is " + str(v)};
  if (!sc.E.eq(t, v.a - want)) throw Bug{prop, "value", std::string(what) + " is " + str(v.a) + " instead of " + str(want)};
}
static void readOnly(State& s, Cont const& c) { s.ro = true; s.roReg = c.reg; }
static void lookups(Runner& R, int ht, bool tall = false) {
  Scen& sc = R.sc;
  R.lim = {2 * std::max(ht - 1, 0), 3};
  enum { IT, EL, NUM, FLAG };
  struct W { char const* nm; int what; int arg; int pos; } ws[] = {  // arg 1: an index below size, 2: any index; pos 0 first, 1 last, 2 end, 3 arg
      {"w_begin", IT, 0, 0}, {"w_begin_const", IT, 0, 0}, {"w_cbegin", IT, 0, 0},
      {"w_penultimate", IT, 0, 1}, {"w_penultimate_const", IT, 0, 1}, {"w_cpenultimate", IT, 0, 1},
      {"w_end", IT, 0, 2}, {"w_end_const", IT, 0, 2}, {"w_cend", IT, 0, 2},
      {"w_rend", IT, 0, 0}, {"w_rend_const", IT, 0, 0}, {"w_crend", IT, 0, 0},
      {"w_nth", IT, 2, 3}, {"w_nth_const", IT, 2, 3}, {"w_at", EL, 2, 3}, {"w_at_const", EL, 2, 3},
      {"w_sub", EL, 1, 3}, {"w_sub_const", EL, 1, 3}, {"w_front", EL, 0, 0}, {"w_front_const", EL, 0, 0}, {"w_back", EL, 0, 1}, {"w_back_const", EL, 0, 1},
      {"w_rbegin", EL, 0, 1}, {"w_rbegin_const", EL, 0, 1}, {"w_crbegin", EL, 0, 1},
      {"w_size", NUM, 0, 2}, {"w_empty", FLAG, 0, 0}, {"w_height", NUM, 0, 4}};
  for (auto& w : ws) for (int far = 0; far < 2; ++far) {  // far: indices in the upper half of the range of the type
    if (far && w.arg != 2) continue;
    if (tall && (far || strstr(w.nm, "_const") || w.nm[2] == 'c' || w.nm[2] == 'r')) continue;
    if (w.what == NUM || w.what == FLAG) R.lim = {0, 0}; else R.lim = {2 * std::max(ht - 1, 0), 3};
    if (!ht && (w.arg == 1 || (w.arg == 0 && (w.pos == 1 || w.what == EL)))) continue;
    Cont c;
    int out = -1;
    Lin pos;
    std::string nm = w.nm;
    bool at = nm.find("w_at") == 0, nth = nm.find("w_nth") == 0;
    auto inside = [&](State& t) { return !far && R.E.ge(t, c.n - pos - Lin(1)); };
    R.scenario(nm + (far ? "/far/h" : "/h") + std::to_string(ht), nm, {"C06"}, {"C06"}, [&](State& s) {
      c = sc.mkCont(s, ht, 7, Lin(0));
      std::vector<Val> a;
      if (w.what == IT) { out = R.E.newLocal(s, "the result", R.cfg.Isz); a.push_back(mkReg(out)); }
      a.push_back(mkReg(c.reg));
      pos = w.pos == 0 ? Lin(0) : w.pos == 1 ? c.n - Lin(1) : w.pos == 2 ? c.n : w.pos == 4 ? Lin(ht) : tall ? sc.mkIter(s, c, false, "p", nullptr, 0, 0, -1).pos.a : Lin::var(VT.sym("index"));  // tall trees: in the first segment of a subtree
      if (w.pos == 0 && !ht) pos = Lin(0);
      if (w.arg) { a.push_back(mkInt(pos)); s.n().add(far ? -pos - Lin(1) : pos); if (w.arg == 1) s.n().add(c.n - pos - Lin(1)); }
      readOnly(s, c);
      return a;
    }, [&](State& t) {
      Lin want = pos;
      if (at && !inside(t)) throw Bug{"C06", "throws", "at() returns for an index beyond the end"};
      if (nth && !inside(t)) want = c.n;
      if (w.what == IT) {
        ItQuery q;
        q.it = sc.getIter(t, out);
        try { sc.prepareIter(t, q); } catch (Bug& b) { b.prop = "C06"; throw b; }
        WalkRes wr = intact(sc, t, c, &q, {"C06"});
        sc.checkIter(t, c, wr, q, want, "C06");
      } else if (w.what == EL) { checkElem(sc, t, c, t.ret, want, "C06"); }
      else if (w.what == NUM) checkInt(sc, t, t.ret, want, w.pos == 4 ? "C03" : "C06", w.pos == 4 ? "height()" : "size()");
      else if (R.E.truth(t, t.ret) != !ht) throw Bug{"C06", "value", "empty() is wrong"};
    }, [&](State& t) {
      if (!at) mayNotThrow(t, "C06");
      if (!t.rangeErr) throw Bug{"C06", "throws", "at() throws something else than std::out_of_range"};
      if (inside(t)) throw Bug{"C06", "throws", "at() throws for an index below size()"};
    });
  }
}
// iterator moves
static void moves(Runner& R, int ht, bool tall = false, bool step = false) {
  Scen& sc = R.sc;
  R.lim = {3 * std::max(ht - 1, 0), 3};
  // prims: what only the operations on whole sequences use
  enum { STEP, DIST, DISTP, SEGM, SEGN, REFD, REF, SB, SE, IDX };
  struct W { char const* nm; int what; int dir; bool old; } ws[] = {
      {"w_inc", STEP, 1, false}, {"w_dec", STEP, -1, false}, {"w_inc_ret", STEP, 1, false}, {"w_dec_ret", STEP, -1, false},
      {"w_postinc", STEP, 1, false}, {"w_postdec", STEP, -1, false}, {"w_postinc_old", STEP, 1, true}, {"w_postdec_old", STEP, -1, true},
      {"w_addeq", DIST, 1, false}, {"w_subeq", DIST, -1, false}, {"w_add", DIST, 1, false}, {"w_radd", DIST, 1, false}, {"w_sub_n", DIST, -1, false}, {"w_prev_count", DISTP, -1, false},
      {"w_subscript", REFD, 1, false},
      {"w_move_before", SEGM, -1, false}, {"w_move_after", SEGM, 1, false}, {"w_before", SEGM, -1, false}, {"w_after", SEGM, 1, false},
      {"w_move_before_n", SEGN, -1, false}, {"w_move_after_n", SEGN, 1, false}, {"w_before_n", SEGN, -1, false}, {"w_after_n", SEGN, 1, false},
      {"w_deref", REF, 0, false}, {"w_arrow", REF, 0, false}, {"w_current", REF, 0, false}, {"w_segbegin", SB, 0, false}, {"w_segend", SE, 0, false},
      {"w_index_of", IDX, 0, false}};
  for (auto& w : ws)
    for (int cst = 0; cst < 2; ++cst)
      for (int end = 0; end < 2; ++end) {
        if (!end && !ht) continue;
        if (w.what == DISTP && (cst || !R.cfg.hasPrevCount)) continue;
        if (!ht && w.what != SEGM && w.what != DIST && w.what != DISTP && w.what != IDX) continue;
        if (!ht && w.what == SEGM) continue;
        if (end && (w.what == REF || (w.what == STEP && w.dir > 0) || w.what == SB || w.what == SE)) continue;
        if (end && w.dir > 0 && (w.what == SEGM || w.what == SEGN)) continue;
        std::string wr = std::string(w.nm) + (cst ? w.what == IDX ? "_const" : "_c" : "");
        Cont c;
        Iter it;
        int out = -1, arg = -1;
        Lin pos, d;
        // tall trees: one of each kind, from the near edge of a subtree below the root
        if (tall && (cst || w.what > SEGN || w.old || !strchr("idasbm", w.nm[2]) || strstr(w.nm, "_ret") || !strcmp(w.nm, "w_before") || !strcmp(w.nm, "w_after") || !strcmp(w.nm, "w_addeq") || !strcmp(w.nm, "w_subeq"))) continue;
        if (step && w.what != STEP && w.what != SEGM) continue;
        R.group = step ? "tallstep" : tall ? "tall" : w.what == DISTP ? "prims" : "moves";
        PV also = w.what == DISTP ? PV{"C05", "C10"} : PV{"C05"};
        R.scenario(wr + "/h" + std::to_string(ht) + (end ? "/end" : "/mid"), wr, also, also, [&](State& s) {
          c = sc.mkCont(s, ht, 7, Lin(0));
          it = sc.mkIter(s, c, end, "p", nullptr, 0, 0, tall && !end ? w.dir : 0);
          std::vector<Val> a;
          if (w.what <= SEGN) { out = R.E.newLocal(s, "the result", R.cfg.Isz); a.push_back(mkReg(out)); }
          if (w.what == IDX) a.push_back(mkReg(c.reg));
          arg = sc.putIter(s, it);
          a.push_back(mkReg(arg));
          pos = it.pos.a;
          if (w.what == STEP && !w.old) pos = pos + Lin(w.dir);
            if (w.what == DIST || w.what == DISTP || w.what == REFD) { d = Lin::var(VT.sym("distance")); if (w.what == DISTP) s.n().add(d); a.push_back(mkInt(d)); pos = pos + d * w.dir; }
          if (w.what == SEGM || w.what == SEGN) {
            if (w.what == SEGN) { d = Lin::var(VT.sym("count")); s.n().add(d); a.push_back(mkInt(d)); }
            pos = w.dir > 0 ? pos - it.segIdx.a + it.segLen.a + d : pos - it.segIdx.a - Lin(1) - d;
          }
          // the precondition: the move stays inside
          Lin to = w.old ? it.pos.a + Lin(w.dir) : pos;
          s.n().add(to); s.n().add(c.n - to - Lin(w.what == REFD ? 1 : 0));
          readOnly(s, c);
          return a;
        }, [&](State& t) {
          if (w.what <= SEGN) {
            ItQuery q;
            q.it = sc.getIter(t, out);
            try { sc.prepareIter(t, q); } catch (Bug& b) { b.prop = "C05"; throw b; }
            WalkRes x = intact(sc, t, c, &q, {"C05"});
            try { sc.checkIter(t, c, x, q, pos, "C05"); } catch (Bug& b) { if (w.what == DISTP) b.kind = "position"; throw; }
          } else if (w.what == REF || w.what == REFD) checkElem(sc, t, c, t.ret, pos, "C05");
          else if (w.what == SB) checkElem(sc, t, c, t.ret, pos - it.segIdx.a, "C05");
          else if (w.what == SE) {
            Val p = t.ret;
            if (p.k != Val::REG && p.k != Val::ITEM) throw Bug{"C05", "value", "end() of a segment is no pointer into it"};
            p.off = p.off - Lin(R.cfg.esz);
            checkElem(sc, t, c, p, pos - it.segIdx.a + it.segLen.a - Lin(1), "C05");
          } else checkInt(sc, t, t.ret, pos, "C05", "index_of()");
        }, [&](State& t) { mayNotThrow(t, "C05"); });
      }
}
// comparisons and difference of two iterators of one container
static void comparisons(Runner& R, int ht) {
  Scen& sc = R.sc;
  R.lim = {1, 1};
  char const* ops[] = {"eq", "ne", "lt", "gt", "le", "ge", "diff"};
  char const* sfx[] = {"", "_c", "_m"};
  for (auto o : ops) for (auto sf : sfx)
    for (int end = 0; end < 2; ++end) for (int swp = 0; swp < 2; ++swp)
      for (int div = 0; div <= ht; ++div) {
        if (!ht && (!end || div)) continue;
        if (!div && swp) continue;
        std::string wr = std::string("w_") + o + sf, op = o;
        Lin pa, pb;
        Cont c;
        R.scenario(wr + "/h" + std::to_string(ht) + (end ? "/end" : "/mid") + (swp ? "/swapped" : "") + "/differing at height " + std::to_string(div), wr, {"C19"}, {"C19"}, [&](State& s) {
          c = sc.mkCont(s, ht, 7, Lin(0));
          Iter p = sc.mkIter(s, c, end, "p"), q = p;
          if (div) q = sc.mkIter(s, c, false, "q", &p, div, end ? -1 : 1);
          if (swp) std::swap(p, q);
          pa = p.pos.a; pb = q.pos.a;
          if (div) {  // the order of positions follows from the order of the paths
            Lin df = (end != 0) == (swp != 0) ? pb - pa : pa - pb;
            (void)df;
          }
          int a = sc.putIter(s, p), b = sc.putIter(s, q);
          readOnly(s, c);
          return std::vector<Val>{mkReg(a), mkReg(b)};
        }, [&](State& t) {
          if (op == "diff") { checkInt(sc, t, t.ret, pa - pb, "C19", "the difference of two iterators"); return; }
          if (t.ret.k == Val::UNDEF) throw Bug{"C19", "value", "the result is never set"};
          bool r = R.E.truth(t, t.ret);
          int cmp = R.E.eq(t, pa - pb) ? 0 : R.E.ge(t, pa - pb) ? 1 : -1;
          bool want = op == "eq" ? cmp == 0 : op == "ne" ? cmp != 0 : op == "lt" ? cmp < 0 : op == "gt" ? cmp > 0 : op == "le" ? cmp <= 0 : cmp >= 0;
          if (r != want) throw Bug{"C19", "order", "comparing (" + op + ") the iterators at " + str(pa) + " and " + str(pb) + " yields " + (r ? "true" : "false")};
        }, [&](State& t) { mayNotThrow(t, "C19"); });
      }
}
static void empty(Scen& sc, State& t, Cont const& c, char const* prop, char const* who) {
  WalkRes w = sc.walkCont(t, c, nullptr);
  if (w.c.size()) throw Bug{prop, "content", std::string(who) + " is not empty"};
}
static void ownAlloc(Scen& sc, State& t, Cont const& c, i64 id, char const* who) {
  Config& g = sc.cfg;
  if (sc.E.stateless) return;
  for (i64 o : {g.oAlloc, g.oNAlloc}) {
    auto i = t.R[c.reg]->cells.find(o);
    if (i == t.R[c.reg]->cells.end()) throw Bug{"C12", "alloc", std::string(who) + " has no allocator"};
    if (i->second.v.k != Val::INT) throw Undec{"allocator identity"};
    if (!sc.E.eq(t, i->second.v.a - Lin(id))) throw Bug{"C12", "alloc", std::string(who) + " has the wrong allocator"};
  }
}
static void wholes(Runner& R, int ht, bool propagate) {
  Scen& sc = R.sc;
  R.lim = {-1, -1};
  Cont c, o;
  std::string H = "/h" + std::to_string(ht);
  auto raw = [&](State& s) { Cont x; x.reg = R.E.newLocal(s, "the new container", R.cfg.seqsz); return x; };
  auto noThrow = [&](State& t) { mayNotThrow(t, "C14"); };
  R.scenario("w_clear" + H, "w_clear", {"C10"}, {"C14"}, [&](State& s) { c = sc.mkCont(s, ht, 7, Lin(0)); return std::vector<Val>{mkReg(c.reg)}; },
    [&](State& t) { WalkRes w = sc.walkCont(t, c, nullptr); sc.matchContent(t, w.c, {}, "C10"); sc.checkLeaks(t, {&w}); ownAlloc(sc, t, c, 7, "a cleared container"); }, noThrow);
  R.scenario("w_dtor" + H, "w_dtor", {}, {"C14"}, [&](State& s) { c = sc.mkCont(s, ht, 7, Lin(0)); return std::vector<Val>{mkReg(c.reg)}; },
    [&](State& t) { sc.checkLeaks(t, {}); }, noThrow);
  if (!ht)
    R.scenario("w_ctor_alloc", "w_ctor_alloc", {"C10"}, {"C10"}, [&](State& s) {
      c = raw(s);
      int a = R.E.newLocal(s, "the allocator", 4);
      s.wr(a).cells[0] = {mkInt(7), 4};
      return std::vector<Val>{mkReg(c.reg), mkReg(a)};
    }, [&](State& t) { empty(sc, t, c, "C10", "a new container"); ownAlloc(sc, t, c, 7, "a new container"); }, noThrow);
  auto moved = [&](State& t, int allowed, i64 idC, i64 idO) {
    if (t.ops & ~allowed) throw Bug{"C11", "ops", std::string("moving or swapping a container ") + (t.ops & ~allowed & (OpConstruct | OpAssign | OpDestroy) ? "constructs, assigns or destroys elements" : "allocates or releases memory")};
    WalkRes w = sc.walkCont(t, c, nullptr), v = sc.walkCont(t, o, nullptr);
    sc.matchContent(t, w.c, {{0, o.base, o.n, 0}}, "C11");
    sc.matchContent(t, v.c, {}, "C11");
    sc.checkLeaks(t, {&w, &v});
    ownAlloc(sc, t, c, idC, "the target");
    ownAlloc(sc, t, o, idO, "the source");
  };
  R.lim = {1, 1};
  R.scenario("w_move_ctor" + H, "w_move_ctor", {"C11"}, {"C11"}, [&](State& s) { o = sc.mkCont(s, ht, 7, Lin(0)); c = raw(s); return std::vector<Val>{mkReg(c.reg), mkReg(o.reg)}; },
    [&](State& t) { moved(t, 0, 7, 7); }, noThrow);
  R.scenario("w_move_ctor_alloc" + H, "w_move_ctor_alloc", {"C11"}, {"C11"}, [&](State& s) {
    o = sc.mkCont(s, ht, 7, Lin(0)); c = raw(s);
    int a = R.E.newLocal(s, "the allocator", 4);
    s.wr(a).cells[0] = {mkInt(7), 4};
    return std::vector<Val>{mkReg(c.reg), mkReg(o.reg), mkReg(a)};
  }, [&](State& t) { moved(t, 0, 7, 7); }, noThrow);
  R.lim = {-1, -1};
  for (int h2 = 0; h2 <= ht; ++h2)
    for (int sw = 0; sw < 2; ++sw) {
      if (sw && h2 == ht) continue;
      int ha = sw ? h2 : ht, hb = sw ? ht : h2;
      std::string HH = "/h" + std::to_string(ha) + "-h" + std::to_string(hb);
      for (int ids = 0; ids < 2; ++ids) {
        if (ids && !propagate) continue;
        i64 idO = ids ? 8 : 7;
        auto both = [&](State& s) {
          c = sc.mkCont(s, ha, 7, Lin(0));
          Lin base = Lin::var(VT.sym("base"));
          o = sc.mkCont(s, hb, (int)idO, base);
          s.n().add(base - c.n - Lin(1));
          return std::vector<Val>{mkReg(c.reg), mkReg(o.reg)};
        };
        std::string AA = ids ? "/other allocator" : "";
        R.lim = {-1, -1};
        R.scenario("w_move_assign" + HH + AA, "w_move_assign", {"C11"}, {"C11"}, both, [&](State& t) { moved(t, OpDestroy | OpDealloc, idO, idO); }, noThrow);
        R.lim = {1, 1};
        for (char const* sn : {"w_swap", "w_fswap"})
          R.scenario(sn + HH + AA, sn, {"C11"}, {"C11"}, both, [&](State& t) {
            if (t.ops) throw Bug{"C11", "ops", "swapping containers touches elements or memory"};
            WalkRes w = sc.walkCont(t, c, nullptr), v = sc.walkCont(t, o, nullptr);
            sc.matchContent(t, w.c, {{0, o.base, o.n, 0}}, "C11");
            sc.matchContent(t, v.c, {{0, c.base, c.n, 0}}, "C11");
            sc.checkLeaks(t, {&w, &v});
            ownAlloc(sc, t, c, idO, "the first container");
            ownAlloc(sc, t, o, 7, "the second container");
          }, noThrow);
      }
    }
  R.lim = {1, 1};
  R.scenario("w_swap" + H + "/self", "w_swap", {"C11"}, {"C11"}, [&](State& s) { c = sc.mkCont(s, ht, 7, Lin(0)); return std::vector<Val>{mkReg(c.reg), mkReg(c.reg)}; },
    [&](State& t) { intact(sc, t, c, nullptr, {"C11"}); }, noThrow);
  for (char const* g : {"w_get_alloc", "w_get_stored"})
    if (!ht && !R.E.stateless) R.scenario(g, g, {"C12"}, {"C12"}, [&](State& s) { c = sc.mkCont(s, ht, 7, Lin(0)); readOnly(s, c); return std::vector<Val>{mkReg(c.reg)}; },
      [&](State& t) { checkInt(sc, t, t.ret, Lin(7), "C12", "the allocator"); }, noThrow);
}
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: stan module.bc name scenario-regex heights [out.json]\n"); return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("stan", errs()); return 2; }
  Engine E(*M);
  auto* gv = M->getGlobalVariable("META", true);
  if (!gv || !gv->hasInitializer()) { fprintf(stderr, "no META\n"); return 2; }
  std::vector<i64> m;
  for (unsigned i = 0;; ++i) { auto* c = gv->getInitializer()->getAggregateElement(i); if (!c) break; m.push_back(cast<ConstantInt>(c)->getSExtValue()); }
  Config& c = E.cfg;
  i64* f[] = {&c.smax, &c.bmax, &c.esz, &c.nsz, &c.oParent, &c.oPidx, &c.oLen, &c.oSizes, &c.oPtrs, &c.oRoot, &c.oSize, &c.oHeight, &c.oAlloc, &c.oNAlloc, &c.seqsz, &c.kind, &c.iSegPtr, &c.iSegIdx, &c.iSegLen, &c.iLeafPtr, &c.iLeafIdx, &c.iPos, &c.itsz, &c.Isz, &c.CIsz, &c.mSmin, &c.mBmin, &c.hasPrevCount, &c.wPidx, &c.wLen, &c.wSegIdx, &c.wSegLen, &c.wLeafIdx, &c.wPos};
  if (m.size() + 3 == sizeof f / sizeof *f) { m.push_back(0); m.push_back(2); m.push_back(2); }
  if (m.size() != sizeof f / sizeof *f) { fprintf(stderr, "META has %zu entries\n", m.size()); return 2; }
  for (size_t i = 0; i < m.size(); ++i) *f[i] = m[i];
  c.cls = c.kind == 1 || c.kind == 3;
  c.name = argv[2];
  E.stateless = c.name.find("std") != std::string::npos || c.name.find("empty") != std::string::npos;
  auto hk = c.name.find("hook");
  if (hk != std::string::npos) E.hooked = c.name.compare(hk, 5, "hookc") == 0 ? 1 : c.name.compare(hk, 5, "hookd") == 0 ? 2 : 3;
  Runner R(E, argv[3]);
  std::string hs = argv[4];
  if (auto* e = getenv("ST_SHARD")) sscanf(e, "%ld/%ld", &R.shard, &R.shards);
  late();
  if (auto* e = getenv("ST_DEADLINE")) R.deadline = atof(e);
  if (auto* e = getenv("ST_MOST")) R.most = atof(e);
  if (M->getGlobalVariable("FLAT", true)) flatScenarios(R, c.name);
  else for (char h : hs) {
    E.unroll = std::max(10, h - '0' + 4);
    R.group = "inserts"; E.moveThrows = h == '0'; inserts(R, h - '0'); E.moveThrows = false;  // placing the first element may throw
    R.group = "owns"; owns(R, h - '0');
    R.group = "erases"; erases(R, h - '0');
    R.group = "lookups"; lookups(R, h - '0');
    R.group = "moves"; moves(R, h - '0');
    if (h > '3') moves(R, h - '0', true);
    if (h > '4') { R.group = "talllook"; lookups(R, h - '0', true); moves(R, h - '0', true, true); }
    if (h > '4') for (int e = -1; e < 2; e += 2) { R.group = "tallins"; inserts(R, h - '0', e); R.group = "tallera"; erases(R, h - '0', e); }
    R.group = "comparisons"; comparisons(R, h - '0');
    // a bytewise move leaves nothing to destroy: only elements that stay in place are known to be live still
    E.leaks = E.hooked == 2;
    R.group = "wholes"; wholes(R, h - '0', c.name.find("prop") != std::string::npos);
  }
  if (getenv("ST_COST")) for (auto& c : R.cost) printf("cost %s %d %d\n", c.first.c_str(), c.second.first, c.second.second);
  FILE* o = argc > 5 ? fopen(argv[5], "w") : stdout;
  fprintf(o, "{\"config\":\"%s\",\"scenarios\":%ld,\"paths\":%ld,\"exits\":%ld,\"throwing_exits\":%ld,\"undecided\":%ld,\"infeasible\":%ld,\"loops_summarised\":%ld,\"loops_unrolled\":%ld,\"skipped\":%ld,\"lp\":%lld,\n\"functions\":[", c.name.c_str(), R.scenarios, E.paths, R.exits, R.throwsN, E.undecPaths, E.infeasible, E.loopsGen, E.loopsUnroll, R.skipped, NLP);
  bool first = true;
  for (auto& n : E.funcsSeen) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(n).c_str()); first = false; }
  fprintf(o, "],\n\"undec\":{");
  first = true;
  for (auto& u : E.undec) { fprintf(o, "%s\"%s\":%ld", first ? "" : ",", esc(u.first).c_str(), u.second); first = false; }
  fprintf(o, "},\n\"list\":[");
  first = true;
  for (auto& l : R.list) { fprintf(o, "%s\"%s\"", first ? "" : ",\n", esc(l).c_str()); first = false; }
  fprintf(o, "],\n\"findings\":[");
  first = true;
  for (auto& x : R.all) {
    auto& d = x.second;
    fprintf(o, "%s{\"scenario\":\"%s\",\"prop\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"path\":\"%s\",\"model\":\"%s\"}", first ? "" : ",\n", esc(x.first).c_str(), esc(d.prop).c_str(), esc(d.kind).c_str(), esc(d.msg).c_str(), esc(d.loc).c_str(), esc(d.path).c_str(), esc(d.model).c_str());
    first = false;
  }
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
  return 0;
}
