// Operations on whole sequences.  Here a sequence is one symbolic array of unbounded length, together with a version
// that every structural change advances; the single-element operations and the iterator moves, which the analysis of
// trees (main.cpp) decides, are primitives on it, and the algorithms of the standard library are recorded as events.
#include "runner.h"
using namespace llvm;
enum { VER = 0, LEN = 8 };  // cells of a SEQ region
static Lin iota() { return Lin::var(IOTA); }
static int newSeq(State& s, Lin n, Arr a, Val id, Val nid, bool heap, std::string nm) {
  auto p = std::make_shared<Region>();
  p->kind = Region::SEQ; p->name = nm; p->heap = heap; p->allocId = id;
  p->cells[VER] = {mkInt(0), 8};
  p->cells[LEN] = {mkInt(n), 8};
  p->cells[16] = {nid, 4};
  p->arr[0] = a;
  s.R.push_back(p);
  return (int)s.R.size() - 1;
}
static Val felt(int r, Lin pos, Lin ver) { Val v = mkK(Val::FELT); v.id = r; v.a = pos; v.off = ver; return v; }
static Lin verOf(State& s, int r) { return s.R[r]->cells.at(VER).v.a; }
// the height of a sequence that is not empty: some positive number
static Val htOf(int r, Lin ver) { Val v = mkK(Val::UNK); v.id = r + 1; v.a = ver; return v; }
static Lin lenOf(State& s, int r) { return s.R[r]->cells.at(LEN).v.a; }

struct FlatHook {
  Engine& E;
  Config& cfg;
  struct Nm { std::string q, targs; };  // qualified name without template arguments of the function, those arguments
  std::map<std::string, Nm> names;
  FlatHook(Engine& e) : E(e), cfg(e.cfg) {}
  // a character of the name of an operator, or of an arrow
  static bool part(std::string const& t, size_t i) {
    if (t[i] == '>' && i && t[i - 1] == '-') return true;
    auto op = [&](size_t k) { return i >= 8 + k && t.compare(i - 8 - k, 8, "operator") == 0; };
    return op(0) || (op(1) && t[i] == t[i - 1]) || (op(2) && t[i] == '>' && t[i - 2] == '<' && t[i - 1] == '=');
  }
  Nm const& nameOf(std::string const& full) {
    auto it = names.find(full);
    if (it != names.end()) return it->second;
    // the brackets that are not a part of the name of an operator
    auto open = [](std::string const& t, size_t i) { return t[i] == '<' && !part(t, i); };
    auto close = [](std::string const& t, size_t i) { return t[i] == '>' && !part(t, i); };
    int d = 0, b = 0;
    size_t p = full.size();
    for (size_t i = 0; i < full.size(); ++i) {
      if (open(full, i)) ++d;
      else if (close(full, i)) --d;
      else if (full[i] == '{') ++b;
      else if (full[i] == '}') --b;
      else if (full[i] == '(' && d == 0 && b == 0 && !(i > 7 && full.compare(i - 8, 8, "operator") == 0)) {
        // the parameters, unless a local entity of the function follows
        int k = 0;
        size_t j = i;
        for (; j < full.size(); ++j) { if (full[j] == '(') ++k; else if (full[j] == ')' && --k == 0) break; }
        if (full.compare(j, 3, ")::") == 0) { i = j; continue; }
        if (full.compare(j, 9, ") const::") == 0) { i = j; continue; }
        p = i;
        break;
      }
    }
    std::string h = full.substr(0, p), ta;
    if (!h.empty() && close(h, h.size() - 1)) {
      int k = 0;
      size_t i = h.size();
      while (i-- > 0) { if (close(h, i)) ++k; else if (open(h, i) && --k == 0) break; }
      ta = h.substr(i); h = h.substr(0, i);
    }
    d = b = 0;
    size_t st = 0;
    for (size_t i = 0; i < h.size(); ++i) {
      if (open(h, i) || h[i] == '(' || h[i] == '{') ++d;
      else if (close(h, i) || h[i] == ')' || h[i] == '}') --d;
      else if (h[i] == ' ' && d == 0 && h.compare(i + 1, 8, "operator") != 0 && h.compare(i + 1, 7, "const::") != 0) st = i + 1;
    }
    return names[full] = {h.substr(st), ta};
  }
  struct It { Val ptr; Lin pos; };
  It readIt(State& s, Val p) {
    if (p.k != Val::REG || !p.off.isConst() || !s.R[p.id]) throw Undec{"iterator at " + str(p)};
    auto rd = [&](i64 o) { auto i = s.R[p.id]->cells.find(p.off.c + o); return i == s.R[p.id]->cells.end() ? Val() : i->second.v.k == Val::ZERO ? (o == cfg.iSegPtr ? mkK(Val::NUL) : mkInt(0)) : i->second.v; };
    It r;
    r.ptr = rd(cfg.iSegPtr);
    Val pos = rd(cfg.iPos), ix = rd(cfg.iSegIdx);
    if (r.ptr.k == Val::UNDEF || pos.k == Val::UNDEF) throw Bug{"C25", "uninit", "an iterator that was never set is used"};
    if (pos.k != Val::INT || (r.ptr.k != Val::FELT && r.ptr.k != Val::NUL)) throw Undec{"iterator " + str(r.ptr)};
    if (ix.k != Val::INT || !(ix.a == Lin(0))) throw Undec{"iterator with a segment index"};
    r.pos = pos.a;
    return r;
  }
  // the iterator designates a position of a live, unchanged sequence
  void checkIt(State& s, It const& i) {
    if (i.ptr.k == Val::NUL) { if (!E.eq(s, i.pos)) throw Undec{"null iterator"}; return; }
    auto& R = s.R[i.ptr.id];
    if (!R || R->freed) throw Bug{"C25", "use-after-free", "an iterator of a released sequence is used"};
    if (!E.eq(s, R->cells.at(VER).v.a - i.ptr.off)) throw Bug{"C25", "stale", "an iterator that an earlier change of the sequence invalidated is used"};
    if (!E.eq(s, i.ptr.a - i.pos)) throw Undec{"iterator position"};
  }
  void writeIt(State& s, Val p, Val ptr, Lin pos) {
    Val u = mkK(Val::UNK);
    struct { i64 o; Val v; i64 n; } w[] = {{cfg.iSegPtr, ptr, 8}, {cfg.iSegIdx, mkInt(0), cfg.wSegIdx}, {cfg.iSegLen, ptr.k == Val::NUL ? mkInt(0) : u, cfg.wSegLen}, {cfg.iLeafPtr, ptr.k == Val::NUL ? ptr : u, 8}, {cfg.iLeafIdx, ptr.k == Val::NUL ? mkInt(0) : u, cfg.wLeafIdx}, {cfg.iPos, mkInt(pos), cfg.wPos}};
    for (auto& x : w) { Val q = p; q.off = q.off + Lin(x.o); E.store(s, q, x.v, x.n); }
  }
  Val cell(State& s, Val c, i64 o, i64 sz, bool ptr = false) { c.off = c.off + Lin(o); return E.loadSz(s, c, sz, ptr); }
  void put(State& s, Val c, i64 o, Val v, i64 sz) { c.off = c.off + Lin(o); E.store(s, c, v, sz); }
  static Lin num(Val const& v, char const* w) { if (v.k == Val::UNDEF) throw Bug{"C25", "uninit", std::string(w) + " was never written"}; if (v.k != Val::INT) throw Undec{std::string(w) + " is " + str(v)}; return v.a; }
  // region of the sequence a container holds, -1 if empty
  int held(State& s, Val root, Val sz) {
    if (root.k == Val::UNDEF) throw Bug{"C25", "uninit", "the root pointer was never written"};
    if (root.k == Val::NUL) { if (!E.eq(s, num(sz, "the size"))) throw Bug{"C03", "structure", "an empty container has size " + str(sz)}; return -1; }
    if (root.k != Val::REG) throw Undec{"root " + str(root)};
    if (!s.R[root.id] || s.R[root.id]->freed) throw Bug{"C25", "use-after-free", "a released sequence is used"};
    if (s.R[root.id]->kind != Region::SEQ) throw Undec{"root"};
    if (!E.eq(s, num(sz, "the size") - lenOf(s, root.id))) throw Bug{"C03", "structure", "a container of " + str(lenOf(s, root.id)) + " elements records the size " + str(sz)};
    return root.id;
  }
  static void shift(Arr& a, size_t from, Lin d) { for (size_t i = from; i < a.size(); ++i) { a[i].b = a[i].b + d; a[i].e = a[i].e + d; a[i].v = substV(a[i].v, IOTA, iota() - d); } }
  bool operator()(State& s, std::string const& full, CallBase& cb, std::vector<Val>& A, Val& ret) {
    if (full == "memcpy") return false;
    Nm const& N = nameOf(full);
    size_t c = N.q.rfind("::");
    std::string f = c == std::string::npos ? N.q : N.q.substr(c + 2);
    if (relation(s, full, f, A, ret)) return true;
    if (full.find("}::operator()") != std::string::npos) return false;  // a lambda
    if (N.q.find("segmented_tree") != std::string::npos) return library(s, f, cb, A, ret);
    if (N.q.compare(0, 5, "std::") == 0 && (N.targs.find("segmented_tree::iterator_t<") != std::string::npos)) return algorithm(s, N, cb, A, ret);
    return false;
  }
  bool library(State& s, std::string const& f, CallBase& cb, std::vector<Val>& A, Val& ret) {
    if (f == "insert_single_iterator") {
      if (A.size() != 3) throw Undec{f};
      Val C = A[0];
      It i = readIt(s, A[1]);
      if (A[2].k != Val::REG || !s.R[A[2].id] || s.R[A[2].id]->kind != Region::LOCAL) throw Undec{"insertion of something else than a temporary"};
      Val v = E.readElem(s, A[2]);
      if (v.k == Val::UNDEF) throw Bug{"C07", "construct", "an element is inserted from storage that holds none"};
      int r = held(s, cell(s, C, cfg.oRoot, 8, true), cell(s, C, cfg.oSize, 8));
      if (i.ptr.k == Val::NUL ? r >= 0 : r < 0) throw Bug{"C25", "stale", "an element is inserted at an iterator that does not belong to the sequence as it is"};
      checkIt(s, i);
      if (r >= 0 && i.ptr.id != r) throw Bug{"C25", "stale", "an element is inserted at an iterator of another sequence"};
      Val id = cell(s, C, cfg.oAlloc, 4), nid = cell(s, C, cfg.oNAlloc, 4);
      if (r >= 0 && (!E.ge(s, i.pos) || !E.ge(s, lenOf(s, r) - i.pos))) throw Bug{"C25", "oob", "an element is inserted at index " + str(i.pos) + " of a sequence of " + str(lenOf(s, r))};
      if (E.allocThrows && E.choose(s, 2, "allocation for an insertion (1: throws)") == 1) { ret = mkK(Val::FN); ret.p = (void*)1; return true; }
      Arr a;
      if (r < 0) a = {{Lin(0), Lin(1), v}};
      else {
        a = s.R[r]->arr[0];
        size_t j = E.splitAt(s, a, i.pos);
        shift(a, j, Lin(1));
        a.insert(a.begin() + j, Chunk{i.pos, i.pos + Lin(1), v});
        E.coalesce(s, a);
      }
      // nothing is decided below
      s.ops |= OpAlloc | OpConstruct;
      if (r < 0) {
        r = newSeq(s, Lin(1), a, id, nid, true, "a new sequence");
        put(s, C, cfg.oRoot, mkReg(r), 8);
      } else {
        Region& R = s.wr(r);
        R.arr[0] = a;
        R.cells[VER].v.a = R.cells[VER].v.a + Lin(1);
        R.cells[LEN].v.a = R.cells[LEN].v.a + Lin(1);
      }
      put(s, C, cfg.oSize, mkInt(lenOf(s, r)), 8);
      put(s, C, cfg.oHeight, htOf(r, verOf(s, r)), 8);
      if (cfg.cls) E.writeElem(s, A[2], mkK(Val::EM));
      writeIt(s, A[1], felt(r, i.pos, verOf(s, r)), i.pos);
      return true;
    }
    if (f == "erase_single" || f == "erase_single_iterator") {
      bool byVal = f == "erase_single";
      Val C = byVal ? A[1] : A[0], itp = byVal ? A[2] : A[1];
      It i = readIt(s, itp);
      int r = held(s, cell(s, C, cfg.oRoot, 8, true), cell(s, C, cfg.oSize, 8));
      checkIt(s, i);
      if (r < 0 || i.ptr.k == Val::NUL) throw Bug{"C25", "oob", "an element of an empty sequence is erased"};
      if (i.ptr.id != r) throw Bug{"C25", "stale", "an element is erased through an iterator of another sequence"};
      Lin n = lenOf(s, r);
      if (!E.ge(s, i.pos) || !E.ge(s, n - i.pos - Lin(1))) throw Bug{"C25", "oob", "the element at index " + str(i.pos) + " of a sequence of " + str(n) + " is erased"};
      if (!E.eq(s, s.R[r]->allocId.a - cell(s, C, cfg.oAlloc, 4).a)) throw Bug{"C08", "dealloc", "blocks are given back to an allocator that is not equal to the one they came from"};
      bool last = E.eq(s, n - Lin(1));
      Arr a = s.R[r]->arr[0];
      if (!last) {
        E.splitAt(s, a, i.pos);
        size_t k = E.splitAt(s, a, i.pos + Lin(1)), j = E.splitAt(s, a, i.pos);
        if (j > k) throw Undec{"order of slots"};
        a.erase(a.begin() + j, a.begin() + k);
        shift(a, j, Lin(-1));
        E.coalesce(s, a);
      }
      s.ops |= OpDealloc | OpDestroy;
      if (last) {
        s.wr(r).freed = true;
        put(s, C, cfg.oRoot, mkK(Val::NUL), 8);
        put(s, C, cfg.oHeight, mkInt(0), 8);
        put(s, C, cfg.oSize, mkInt(0), 8);
        writeIt(s, byVal ? A[0] : itp, mkK(Val::NUL), Lin(0));
      } else {
        Region& R = s.wr(r);
        R.arr[0] = a;
        R.cells[VER].v.a = R.cells[VER].v.a + Lin(1);
        R.cells[LEN].v.a = n - Lin(1);
        put(s, C, cfg.oSize, mkInt(n - Lin(1)), 8);
        put(s, C, cfg.oHeight, htOf(r, verOf(s, r)), 8);
        writeIt(s, byVal ? A[0] : itp, felt(r, i.pos, verOf(s, r)), i.pos);
      }
      return true;
    }
    bool fi = f == "find_index_root", ff = f == "find_first_root", fl = f == "find_last_root", fe = f == "find_end_root";
    if (fi || ff || fl || fe) {
      if (A.size() != (fi ? 5u : 4u)) throw Undec{f};
      int r = held(s, A[1], A[2]);
      Lin n = r < 0 ? Lin(0) : lenOf(s, r);
      Lin pos = fi ? num(A[4], "an index") : ff ? Lin(0) : fl ? n - Lin(1) : n;
      if (r < 0) {
        if (fl || (fi && !E.eq(s, pos))) throw Bug{"C25", "oob", "a position of an empty sequence is looked up"};
        writeIt(s, A[0], mkK(Val::NUL), Lin(0));
        return true;
      }
      if (fi && (!E.ge(s, pos) || !E.ge(s, n - pos - Lin(1)))) throw Bug{"C25", "oob", "index " + str(pos) + " of a sequence of " + str(n) + " is looked up"};
      writeIt(s, A[0], felt(r, pos, verOf(s, r)), pos);
      return true;
    }
    bool mn = f == "move_next_iterator", mp = f == "move_prev_iterator", mnc = f == "move_next_iterator_count", mpc = f == "move_prev_iterator_count", mic = f == "move_iterator_count";
    if (mn || mp || mnc || mpc || mic) {
      It i = readIt(s, A[0]);
      Lin d = mn ? Lin(1) : mp ? Lin(-1) : num(A[1], "a distance");
      if (mpc) d = -d;
      checkIt(s, i);
      if (i.ptr.k == Val::NUL) { if (!E.eq(s, d)) throw Bug{"C25", "oob", "an iterator of an empty sequence is moved by " + str(d)}; return true; }
      Lin to = i.pos + d;
      if (!E.ge(s, to) || !E.ge(s, lenOf(s, i.ptr.id) - to)) throw Bug{"C25", "oob", "an iterator is moved to index " + str(to) + " of a sequence of " + str(lenOf(s, i.ptr.id))};
      writeIt(s, A[0], felt(i.ptr.id, to, i.ptr.off), to);
      return true;
    }
    if (f == "move_next_leaf" || f == "move_prev_leaf" || f == "move_next_segment" || f == "move_prev_segment" || f == "move_next_segment_count" || f == "move_prev_segment_count") throw Undec{f};
    if (f == "purge_root") {
      if (A.size() != 4) throw Undec{f};
      if (A[1].k == Val::NUL) throw Undec{"purge of a null root"};
      int r = held(s, A[1], A[2]);
      if (A[3].k == Val::INT && A[3].a == Lin(0)) throw Bug{"C08", "dealloc", "a sequence is released as if its height were 0"};
      if (A[3].k != Val::UNK || (A[3].id && A[3].id != r + 1)) throw Undec{"height"};
      if (!E.eq(s, s.R[r]->allocId.a - cell(s, A[0], cfg.oAlloc, 4).a) || !E.eq(s, s.R[r]->cells.at(16).v.a - cell(s, A[0], cfg.oNAlloc, 4).a))
        throw Bug{"C08", "dealloc", "blocks are given back to an allocator that is not equal to the one they came from"};
      s.ops |= OpDestroy | OpDealloc;
      s.wr(r).freed = true;
      return true;
    }
    return false;
  }
  // ---- functors: what a wrapped comparison computes from the one that was given, for two stand-in elements x and y
  enum { TX = 2001, TY = 2002 };
  bool summing = false;
  Val other;                  // an element besides x and y that is looked at
  Val otherAt;
  bool small = false;  // sequences of a fixed number of elements, for operations that are written as loops over the elements
  std::string what(State& s, Val const& p) {
    Val v = E.readElem(s, p);
    if (!summing) {
      if (v.k == Val::EE && v.a.isConst()) return "e" + std::to_string(v.a.c);
      if (v.k == Val::EV) return "v" + std::to_string(v.id);
      throw Undec{"comparison of " + str(v)};
    }
    if (v.k == Val::EV && v.id == TX) return "x";
    if (v.k == Val::EV && v.id == TY) return "y";
    other = v; otherAt = p;
    return "o";
  }
  bool relation(State& s, std::string const& full, std::string const& f, std::vector<Val>& A, Val& ret) {
    if (!summing && !small) return false;
    std::string key;
    size_t k = 0;
    bool pred = full.compare(0, 18, "Pred::operator()(E") == 0, pred2 = full.compare(0, 17, "Pred2::operator()") == 0, cmp = full.compare(0, 15, "Cmp::operator()") == 0;
    if (pred || pred2 || cmp) {
      Val id = E.loadSz(s, A.at(0), 8, false);
      if (id.k != Val::INT) throw Undec{"the functor is " + str(id)};
      if (!E.eq(s, id.a - Lin(77))) throw Undec{"a functor that was not given"};
      key = pred ? "Pred" : pred2 ? "Pred2" : "Cmp"; k = 1;
    } else if (f == "operator<" && (full.compare(0, 15, "operator<(Elem ") == 0 || full.compare(0, 16, "operator<(TElem ") == 0)) key = "<";
    else if (f == "operator==" && (full.compare(0, 16, "operator==(Elem ") == 0 || full.compare(0, 17, "operator==(TElem ") == 0)) key = "==";
    else return false;
    if (A.size() != k + (pred ? 1 : 2)) throw Undec{full};
    key += "(" + what(s, A[k]) + (pred ? ")" : "," + what(s, A[k + 1]) + ")");
    for (auto& o : s.oracle) if (o.first == key) { ret = mkB(o.second); return true; }
    int c = E.choose(s, 2, key);
    s.oracle.push_back({key, c});
    ret = mkB(c);
    return true;
  }
  struct Sum { std::string cmp; Val id, value, valueAt; };
  // which known relation the functor is; "!..." if it is definitely not the one it is made of; "" if it is not known
  Sum summarise(State const& s0, std::string const& type, Val const& obj, unsigned arity) {
    Sum r;
    if (summing) return r;
    Function* fn = nullptr;
    for (auto& g : E.M) {
      if (g.isDeclaration()) continue;
      std::string n = demangled(g.getName()), m = type + "::operator()";
      size_t at = n.find(m);
      if (at == std::string::npos || (at && n[at - 1] != ' ') || (n[at + m.size()] != '(' && n[at + m.size()] != '<')) continue;
      if (fn) return r;
      fn = &g;
    }
    if (!fn || fn->arg_size() != arity + 1) return r;
    State s = s0;
    s.oracle.clear(); s.choice = -1;
    std::vector<Val> a{obj};
    for (unsigned i = 0; i < arity; ++i) {
      int q = E.newLocal(s, i ? "y" : "x", cfg.esz);
      E.writeElem(s, mkReg(q), mkV(i ? TY : TX));
      a.push_back(mkReg(q));
    }
    summing = true;
    other = Val();
    auto und = E.undec;
    long up = E.undecPaths, pa = E.paths;
    std::vector<State> outs;
    try { outs = E.run(s, fn, a); } catch (...) { summing = false; throw; }
    summing = false;
    bool lost = E.undecPaths != up;
    E.undec = und; E.undecPaths = up; E.paths = pa;
    if (lost || outs.empty()) return r;
    struct Row { std::map<std::string, int> o; bool v; };
    std::vector<Row> rows;
    std::set<std::string> rel;
    for (auto& t : outs) {
      if (t.pend != State::RET && t.pend != State::RUN) return r;
      Row w;
      for (auto& o : t.oracle) { w.o[o.first] = o.second; rel.insert(o.first.substr(0, o.first.find('('))); }
      Val v = t.ret;
      if (v.k == Val::BOOL && v.a.isConst()) w.v = v.id == 0 ? v.a.c >= 0 : v.id == 1 ? v.a.c == 0 : v.a.c != 0;
      else if (v.k == Val::INT && v.a.isConst()) w.v = v.a.c != 0;
      else return r;
      rows.push_back(w);
    }
    if (rel.size() != 1) return r;
    std::string base = *rel.begin();
    bool withOther = false;
    for (auto& w : rows) for (auto& o : w.o) if (o.first.find('o', o.first.find('(')) != std::string::npos) withOther = true;
    std::string u = arity == 1 ? (withOther ? "x,o" : "x") : "x,y", rv = arity == 1 ? "o,x" : "y,x";
    if (withOther && arity == 2) return r;
    // truth of base(x,y), base(y,x): all that can be
    for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) {
      if ((base == "Cmp" || base == "<") && p && q) continue;
      if (base == "==" && p != q) continue;
      if (base == "Pred" && q) continue;
      for (auto& w : rows) {
        bool fits = true;
        for (auto& o : w.o) {
          std::string in = o.first.substr(o.first.find('('));
          bool same = in == "(x,x)" || in == "(y,y)";
          int val = in == "(" + u + ")" ? p : in == "(" + rv + ")" ? q : same ? (base == "==" ? 1 : base == "Pred2" ? o.second : 0) : -1;
          if (val < 0) return r;
          if (val != o.second) fits = false;
        }
        if (fits && w.v != (bool)p) { r.cmp = "!" + base + (arity == 1 ? p ? ", which fails where that holds" : ", which holds where that fails" : std::string(p ? ", false for elements x, y where that is true for x, y" : ", true for elements x, y where that is false for x, y") + (q ? " and true for y, x" : " and false for y, x")); return r; }
      }
    }
    r.cmp = base == "<" ? "std::less<" : base == "==" ? (arity == 1 ? "==" : "std::equal_to<") : base;
    r.id = mkInt(77);
    if (withOther) { r.value = other; r.valueAt = otherAt; }
    return r;
  }
  Sum functorAt(State const& s, CallBase& cb, std::vector<Val>& A, size_t at, std::string const& type, unsigned arity) {
    State t = s;
    Val obj;
    if (A.size() > at && cb.isByValArgument((unsigned)at)) obj = A[at];
    else {  // passed in registers
      int q = E.newLocal(t, "the functor", 64);
      for (size_t i = at; i < A.size(); ++i) t.wr(q).cells[8 * (i64)(i - at)] = {A[i], 8};
      obj = mkReg(q);
    }
    return summarise(t, type, obj, arity);
  }
  Val comparator(State& s, std::string& ty, Val const& v) {
    if (ty == "Cmp" || ty == "Pred" || ty == "Pred2") { Val q = v; return E.loadSz(s, q, 8, false); }
    return mkInt(-1);
  }
  // how many parameters a function has, from its name
  static size_t params(std::string const& n) {
    size_t e = n.rfind(')'), c = 0;
    if (e == std::string::npos) return 0;
    int d = 0;
    for (size_t i = e + 1; i-- > 0;) {
      if (strchr(")>}", n[i])) ++d;
      if (strchr("(<{", n[i]) && --d == 0) return i + 1 == e ? 0 : c + 1;
      if (n[i] == ',' && d == 1) ++c;
    }
    return 0;
  }
  bool algorithm(State& s, Nm const& N, CallBase& cb, std::vector<Val>& A, Val& ret) {
    std::string f = N.q.substr(5);
    std::vector<std::string> ta;
    { int d = 0; std::string cur; for (size_t i = 1; i + 1 < N.targs.size(); ++i) { char c = N.targs[i]; if (c == '<' || c == '(' || c == '{') ++d; if (c == '>' || c == ')' || c == '}') --d; if (c == ',' && d == 0) { ta.push_back(cur); cur.clear(); } else if (!(c == ' ' && cur.empty())) cur += c; } ta.push_back(cur); }
    for (auto& t : ta) while (!t.empty() && t.back() == ' ') t.pop_back();
    if (small) for (auto x : {"stable_sort", "sort", "reverse", "inplace_merge", "remove", "remove_if", "unique", "equal", "lexicographical_compare"}) if (f == x) throw Undec{f + " is known for any number of elements"};
    auto ev = std::make_shared<Event>();
    ev->algo = f;
    auto plain = [&](std::string const& t) { return t.compare(0, 33, "boost::segmented_tree::iterator_t") == 0; };
    auto range = [&](Val const& x, Val const& y, int& r, Lin& b, Lin& e) {
      It i = readIt(s, x), j = readIt(s, y);
      checkIt(s, i); checkIt(s, j);
      if (i.ptr.k == Val::NUL && j.ptr.k == Val::NUL) { r = -1; b = e = Lin(0); return; }
      if (i.ptr.k == Val::NUL || j.ptr.k == Val::NUL || i.ptr.id != j.ptr.id) throw Bug{"C25", "oob", "an algorithm is given a range made of two sequences"};
      r = i.ptr.id; b = i.pos; e = j.pos;
      if (!E.ge(s, e - b)) throw Bug{"C25", "oob", "an algorithm is given a range that ends before it begins"};
    };
    auto setArr = [&](int r, Lin b, Lin e, std::vector<Chunk> mid) {
      Arr a = s.R[r]->arr[0];
      E.splitAt(s, a, b); E.splitAt(s, a, e);
      size_t k = E.splitAt(s, a, e), j = E.splitAt(s, a, b);
      if (j > k) throw Undec{"order of slots"};
      a.erase(a.begin() + j, a.begin() + k);
      a.insert(a.begin() + j, mid.begin(), mid.end());
      E.coalesce(s, a);
      s.wr(r).arr[0] = a;
    };
    auto tokRun = [&](int tok, Lin b) { Val v = mkV(tok); v.a = iota() - b; return v; };
    bool ss = f == "stable_sort", so = f == "sort", rv = f == "reverse", im = f == "inplace_merge", rm = f == "remove", ri = f == "remove_if", un = f == "unique";
    static int tokens = 1000;
    for (auto x : {"partition", "nth_element", "partial_sort", "make_heap", "sort_heap", "random_shuffle", "shuffle", "next_permutation"})
      if (f == x && plain(ta[0])) { size_t k = f == "partition"; range(A[k], A[f == "nth_element" || f == "partial_sort" ? 2 : k + 1], ev->r, ev->b, ev->e); if (ev->r >= 0 && E.ge(s, ev->e - ev->b - Lin(2))) throw Bug{"C21", "unstable", "std::" + f + ", which keeps no order, is applied to the sequence"}; }
    if ((ss || so || rv || im || rm || ri || un) && !plain(ta[0])) throw Undec{f + " over " + ta[0]};
    if (ss || so || rv || im || rm || ri || un) {
      size_t k = rm || ri || un ? 1 : 0, nit = im ? 3 : 2;
      if (A.size() < k + nit) throw Undec{f};
      range(A[k], A[k + nit - 1], ev->r, ev->b, ev->e);
      if (im && ev->r >= 0) { It m = readIt(s, A[1]); checkIt(s, m); if (m.ptr.k != Val::FELT || m.ptr.id != ev->r) throw Bug{"C25", "oob", "an algorithm is given a range made of two sequences"}; ev->mid = m.pos; if (!E.ge(s, m.pos - ev->b) || !E.ge(s, ev->e - m.pos)) throw Bug{"C25", "oob", "inplace_merge is given a middle outside its range"}; }
      if (rm) {
        if (A.size() != 4) throw Undec{f};
        ev->value = E.readElem(s, A[3]);
        ev->id = A[3];
      } else if (ta.size() > 1) {
        ev->cmp = ta[1];
        ev->id = comparator(s, ev->cmp, A.size() > k + nit ? A[k + nit] : Val());
        if (ev->cmp != "Cmp" && ev->cmp != "Pred" && ev->cmp != "Pred2" && ev->cmp.compare(0, 5, "std::") != 0 || ev->cmp.compare(0, 22, "std::reference_wrapper<") == 0) {
          Sum m = functorAt(s, cb, A, k + nit, ev->cmp, ri ? 1 : 2);
          if (!m.cmp.empty()) { ev->cmp = m.cmp; ev->id = m.id; ev->value = m.value; if (m.valueAt.k != Val::UNDEF) ev->id = m.valueAt; }
        }
      }
      if (so) throw Bug{"C21", "unstable", "an unstable sort is applied to the sequence"};
      if (ev->r >= 0) {
        ev->before = s.R[ev->r]->arr[0];
        Lin n = ev->e - ev->b;
        bool some = E.ge(s, n - Lin(1));
        ev->tok = ++tokens;
        Lin m = n;
        if (some) {
          // remaining elements, then remains
          if (rm || ri || un) {
            static std::map<size_t, int> kept;  // the same symbol each time this is decided
            size_t nth = s.log.size();
            if (!kept.count(nth)) kept[nth] = VT.sym("kept");
            m = Lin::var(kept[nth]);
            State t = s;
            t.n().add(m - Lin(un ? 1 : 0)); t.n().add(n - m);
            bool e0 = E.eq(t, n - m), z0 = un ? false : E.eq(t, m);
            s = std::move(t);
            std::vector<Chunk> c;
            if (!z0) c.push_back({ev->b, ev->b + m, tokRun(ev->tok, ev->b)});
            if (!e0) c.push_back({ev->b + m, ev->e, mkK(Val::EM)});
            setArr(ev->r, ev->b, ev->e, c);
          } else setArr(ev->r, ev->b, ev->e, {{ev->b, ev->e, tokRun(ev->tok, ev->b)}});
        } else m = Lin(0);
        ev->m = m;
        if (k) writeIt(s, A[0], felt(ev->r, ev->b + m, verOf(s, ev->r)), ev->b + m);
      } else if (k) writeIt(s, A[0], mkK(Val::NUL), Lin(0));
      s.ops |= OpAssign;
      s.log.push_back(ev);
      return true;
    }
    bool eq = f == "equal", lx = f == "lexicographical_compare";
    if (eq || lx) {
      if (!plain(ta[0]) || (ta.size() > 1 && ta[1].find("iterator") != std::string::npos && !plain(ta[1]))) throw Undec{f + " over " + ta[0]};
      // equal may be called with three or four iterators
      bool four = lx || params(demangled(cb.getCalledFunction()->getName())) - (ta.size() > 2) == 4;
      range(A[0], A[1], ev->r, ev->b, ev->e);
      // with a predicate: it has to decide what the operator does
      if (ta.size() > 2) {
        size_t at = four ? 4 : 3;
        Sum m = functorAt(s, cb, A, at, ta[2], 2);
        if (ta[2].compare(0, eq ? 15 : 11, eq ? "std::equal_to<" : "std::less<", eq ? 14 : 10) == 0) m.cmp = "std::";
        if (m.cmp.empty()) throw Undec{"comparison with a predicate"};
        std::string right = eq ? "std::equal_to<" : "std::less<";
        if (m.cmp != "std::" && m.cmp != right) throw Bug{"C19", "functor", "the elements are not compared with operator" + std::string(eq ? "==" : "<") + " but with something made of " + (m.cmp[0] == '!' ? m.cmp.substr(1) : m.cmp)};
      }
      if (four) { range(A[2], A[3], ev->r2, ev->b2, ev->e2); }
      else {
        It i = readIt(s, A[2]);
        checkIt(s, i);
        ev->r2 = i.ptr.k == Val::NUL ? -1 : i.ptr.id;
        ev->b2 = i.pos;
        Lin n2 = ev->r2 < 0 ? Lin(0) : lenOf(s, ev->r2);
        ev->e2 = ev->b2 + ev->e - ev->b;
        if (!E.ge(s, n2 - ev->e2)) throw Bug{"C25", "oob", "std::equal is told to read " + str(ev->e - ev->b) + " elements of a sequence of " + str(n2)};
      }
      Lin n1 = ev->e - ev->b, n2 = ev->e2 - ev->b2;
      bool z1 = !E.ge(s, n1 - Lin(1)), z2 = !E.ge(s, n2 - Lin(1));
      bool res;
      if (z1 || z2) res = eq ? z1 && z2 : z1 && !z2;
      else {
        bool ln = eq && !E.eq(s, n1 - n2);
        if (ln) res = false;
        else {
          if (ev->r == ev->r2) { if (!E.eq(s, ev->b - ev->b2)) throw Undec{"a sequence is compared with itself"}; res = eq ? true : E.ge(s, n2 - n1 - Lin(1)); }
          else res = E.choose(s, 2, f + " of the elements") == 1;
        }
      }
      ev->outcome = res;
      ret = mkB(res);
      s.log.push_back(ev);
      return true;
    }
    if (f == "distance" || f == "next" || f == "prev" || f == "advance" || f == "move" || f == "forward" || f == "__addressof" || f == "addressof" || f == "make_move_iterator") return false;
    return false;
  }
};
// ---------------------------------------------------------------- scenarios
struct FC { int reg = -1; bool full = false; int seq = -1; Lin n, base; i64 id = 7; };
struct Flat {
  Runner& R;
  Engine& E;
  Config& cfg;
  Scen& sc;
  FlatHook H;
  bool ca, ma, sw;
  Flat(Runner& r, bool a, bool b, bool c) : R(r), E(r.E), cfg(r.cfg), sc(r.sc), H(r.E), ca(a), ma(b), sw(c) {}
  Val allocArg(State& s, i64 id) { int a = E.newLocal(s, "the allocator", 4); s.wr(a).cells[0] = {mkInt(id), 4}; return mkReg(a); }
  FC raw(State& s) { FC c; c.reg = E.newLocal(s, "the new container", cfg.seqsz); return c; }
  FC mk(State& s, bool full, i64 id, Lin base, char const* nm, i64 fixed = -1) {
    FC c;
    c.full = full; c.base = base; c.id = id;
    c.reg = E.newLocal(s, "the container", cfg.seqsz);
    Val root = mkK(Val::NUL);
    if (full) {
      c.n = fixed > 0 ? Lin(fixed) : Lin::var(VT.sym(nm));
      if (fixed <= 0) s.n().add(c.n - Lin(1));
      c.seq = newSeq(s, c.n, {{Lin(0), c.n, mkE(base + iota())}}, mkInt(id), mkInt(id), true, "the old sequence");
      root = mkReg(c.seq);
    }
    Region& C = s.wr(c.reg);
    C.cells[cfg.oRoot] = {root, 8};
    C.cells[cfg.oAlloc] = {mkInt(id), 4};
    C.cells[cfg.oNAlloc] = {mkInt(id), 4};
    C.cells[cfg.oSize] = {mkInt(c.n), 8};
    C.cells[cfg.oHeight] = {full ? htOf(c.seq, Lin(0)) : mkInt(0), 8};
    return c;
  }
  // a second container, its elements distinct from those of the first
  FC mk2(State& s, bool full, i64 id, FC const& c) {
    Lin b = Lin::var(VT.sym("base"));
    s.n().add(b - c.n - Lin(1));
    return mk(s, full, id, b, "m");
  }
  Val iter(State& s, FC const& c, Lin pos) {
    int r = E.newLocal(s, "an iterator", cfg.itsz);
    H.writeIt(s, mkReg(r), c.full ? felt(c.seq, pos, Lin(0)) : mkK(Val::NUL), c.full ? pos : Lin(0));
    return mkReg(r);
  }
  Lin anyPos(State& s, Lin n, char const* nm) { Lin p = Lin::var(VT.sym(nm)); s.n().add(p); s.n().add(n - p); return p; }
  struct Src { int seq; Lin n, base; Val f, l; };
  Src source(State& s, Lin after) {
    Src x;
    x.base = Lin::var(VT.sym("srcbase"));
    x.n = Lin::var(VT.sym("count"));
    s.n().add(x.n); s.n().add(x.base - after - Lin(1));
    Arr a{{Lin(0), x.n, mkE(x.base + iota())}};
    x.seq = newSeq(s, x.n, a, Val(), Val(), false, "the source range");
    x.f = felt(x.seq, Lin(0), Lin(0)); x.l = felt(x.seq, x.n, Lin(0));
    return x;
  }
  std::vector<Slice> slices(State& s, Arr const& a, Lin n) {
    std::vector<Slice> w;
    Lin cur;
    for (auto& c : a) {
      if (!E.ge(s, c.e - c.b - Lin(1))) continue;
      bool run = mentions(c.v.a, IOTA);
      Lin a0 = subst(c.v.a, IOTA, c.b), ln = c.e - c.b;
      if (run && !(subst(c.v.a, IOTA, c.b + Lin(1)) - a0 == Lin(1))) throw Undec{"element run " + str(c.v)};
      if (c.v.k == Val::UNDEF) throw Bug{"C25", "hole", "index " + str(c.b) + " of the sequence holds no element"};
      if (c.v.k == Val::EE) {
        if (run) w.push_back({0, a0, ln, 0});
        else w.push_back({4, a0, ln, 0});
      } else if (c.v.k == Val::EV) {
        if (c.v.id >= 1000) w.push_back({3, a0, ln, c.v.id});
        else w.push_back({1, Lin(0), ln, c.v.id});
      } else if (c.v.k == Val::EM) w.push_back({2, Lin(0), ln, 0});
      else throw Undec{"element " + str(c.v)};
    }
    return w;
  }
  // the sequence a container holds, with everything that has to be true of it
  std::vector<Slice> content(State& s, FC const& c, std::set<int>& reach, i64 id) {
    Val C = mkReg(c.reg);
    Val root = H.cell(s, C, cfg.oRoot, 8, true), sz = H.cell(s, C, cfg.oSize, 8), ht = H.cell(s, C, cfg.oHeight, 8);
    Val a = H.cell(s, C, cfg.oAlloc, 4), na = H.cell(s, C, cfg.oNAlloc, 4);
    if (a.k != Val::INT || na.k != Val::INT) throw Bug{"C12", "alloc", "the stored allocator was never set"};
    if (!E.eq(s, a.a - Lin(id)) || !E.eq(s, na.a - Lin(id))) throw Bug{"C12", "alloc", "the container has the allocator " + str(a.a) + "/" + str(na.a) + " instead of " + std::to_string(id)};
    if (root.k == Val::REG && (!s.R[root.id] || s.R[root.id]->freed)) throw Bug{"C08", "dangling", "a released sequence is still in a container"};
    int r = H.held(s, root, sz);
    if (r < 0) { if (ht.k != Val::INT || !E.eq(s, ht.a)) throw Bug{"C03", "structure", "an empty container has height " + str(ht)}; return {}; }
    if (ht.k == Val::INT && ht.a == Lin(0)) throw Bug{"C03", "structure", "a container of elements has height 0"};
    if (ht.k == Val::UNK && ht.id && (ht.id != r + 1 || !E.eq(s, ht.a - verOf(s, r)))) throw Bug{"C03", "structure", "a container has the height of another sequence"};
    if (!reach.insert(r).second) throw Bug{"C08", "dangling", "two containers hold the same elements"};
    if (!E.eq(s, s.R[r]->allocId.a - a.a) || !E.eq(s, s.R[r]->cells.at(16).v.a - na.a)) throw Bug{"C12", "alloc", "the container holds blocks that came from another allocator than the one it has"};
    if (!E.ge(s, lenOf(s, r) - Lin(1))) throw Undec{"empty sequence"};
    return slices(s, s.R[r]->arr[0], lenOf(s, r));
  }
  void leaks(State& s, std::set<int> const& reach) {
    for (size_t r = 0; r < s.R.size(); ++r) {
      auto& p = s.R[r];
      if (!p || p->freed || p->kind != Region::SEQ || !p->heap || reach.count((int)r)) continue;
      if (cfg.cls) throw Bug{"C07", "leak", "the elements of " + p->name + " are never destroyed and its blocks never given back"};
      throw Bug{"C08", "leak", "the blocks of " + p->name + " are neither reachable nor given back"};
    }
  }
  void result(State& s, int out, FC const& c, Lin pos, char const* prop) {
    FlatHook::It i;
    try { i = H.readIt(s, mkReg(out)); H.checkIt(s, i); }
    catch (Bug& b) { throw Bug{prop, "iterator", "the returned iterator: " + b.msg}; }
    if (!E.eq(s, i.pos - pos)) throw Bug{prop, "iterator", "the returned iterator stands at index " + str(i.pos) + " instead of " + str(pos)};
    Val root = H.cell(s, mkReg(c.reg), cfg.oRoot, 8, true);
    if (root.k == Val::NUL ? i.ptr.k != Val::NUL : i.ptr.k != Val::FELT || i.ptr.id != root.id) throw Bug{prop, "iterator", "the returned iterator does not belong to the sequence"};
  }
  void match(State& s, std::vector<Slice> got, std::vector<Slice> want, char const* prop) { sc.matchContent(s, got, want, prop); }
  // valid, whatever it holds
  void valid(State& s, std::vector<FC const*> cs, std::vector<i64> ids) {
    std::set<int> reach;
    for (size_t i = 0; i < cs.size(); ++i) content(s, *cs[i], reach, ids[i]);
    leaks(s, reach);
  }
  void noCopy(State& t, char const* prop) { if (t.ops & OpCopy) throw Bug{prop, "copy", "elements are copied instead of moved"}; }
  std::string mask() { return std::string(ca ? "C" : "-") + (ma ? "M" : "-") + (sw ? "S" : "-"); }
  void bulk();
  void allocs();
  void alias();
  void splices();
  void algos();
  void relations();
  typedef std::vector<std::string> Toks;
  // elements by rank and by class of equal ones
  struct World { std::map<std::string, int> rank, cls; };
  void worlds(State& t, Toks const& el, bool needRank, bool needClass, bool pred, std::function<void(World const&)> f);
  Toks tokens(State& s, std::vector<Slice> const& w);
  void smallSorts(char const* nm, bool given);
  void smallMerges(char const* nm, bool given);
  void smallRelations(char const* nm);
  struct Few { Flat& f; Few(Flat& x) : f(x) { f.H.small = f.R.forced = true; } ~Few() { f.H.small = f.R.forced = false; } };
  Val functor(State& s);
  void comparison(State& t, Event const& e, bool given, std::string own, std::string def, char const* prop);
};
static char const* EF[] = {"/empty", ""};
void Flat::bulk() {
  FC c;
  FC const* cp = &c;
  Src x;
  Lin n, pos, p2;
  int out = -1;
  auto basic = [&](State& t) { valid(t, {cp}, {7}); };
  auto gone = [&](State& t) { leaks(t, {}); };
  enum { COUNT, VALUE, RANGE, INPUT, IL };
  auto srcArgs = [&](State& s, int kind, Lin after, std::vector<Val>& a) {
    if (kind == COUNT || kind == VALUE) {
      n = Lin::var(VT.sym("count"));
      s.n().add(n);
      a.push_back(mkInt(n));
      if (kind == VALUE) a.push_back(mkReg(sc.mkElem(s, 1)));
    } else {
      x = source(s, after);
      n = x.n;
      if (kind == RANGE) { a.push_back(x.f); a.push_back(x.l); }
      else if (kind == IL) { a.push_back(x.f); a.push_back(mkInt(x.n)); }
      else {
        int cur = E.newLocal(s, "the position of the source", 8);
        s.wr(cur).cells[0] = {x.f, 8};
        a.push_back(mkReg(cur)); a.push_back(x.l);
        a.push_back(mkK(Val::NUL)); a.push_back(x.l);
      }
    }
  };
  auto want = [&](int kind) { return kind == COUNT ? Slice{1, Lin(0), n, 99} : kind == VALUE ? Slice{1, Lin(0), n, 1} : Slice{0, x.base, n, 0}; };
  struct { char const* nm; int kind; } ctors[] = {{"f_ctor_count", COUNT}, {"f_ctor_value", VALUE}, {"f_ctor_range", RANGE}, {"f_ctor_input", INPUT}, {"f_ctor_il", IL}};
  for (auto& w : ctors)
    R.scenario(w.nm, w.nm, {"C10"}, {}, [&](State& s) {
      c = raw(s);
      std::vector<Val> a{mkReg(c.reg)};
      srcArgs(s, w.kind, Lin(0), a);
      a.push_back(allocArg(s, 7));
      return a;
    }, [&](State& t) { std::set<int> r; match(t, content(t, c, r, 7), {want(w.kind)}, "C10"); leaks(t, r); }, gone);
  struct { char const* nm; int kind; } asg[] = {{"f_assign_count", VALUE}, {"f_assign_range", RANGE}, {"f_assign_input", INPUT}, {"f_assign_il", IL}, {"f_opassign_il", IL}};
  for (auto& w : asg) for (int full = 0; full < 2; ++full)
    R.scenario(std::string(w.nm) + EF[full], w.nm, {"C10"}, {}, [&](State& s) {
      c = mk(s, full, 7, Lin(0), "n");
      std::vector<Val> a{mkReg(c.reg)};
      srcArgs(s, w.kind, c.n, a);
      return a;
    }, [&](State& t) { std::set<int> r; match(t, content(t, c, r, 7), {want(w.kind)}, "C10"); leaks(t, r); }, basic);
  struct { char const* nm; int kind; } ins[] = {{"f_insert_count", VALUE}, {"f_insert_range", RANGE}, {"f_insert_input", INPUT}, {"f_insert_il", IL}};
  for (auto& w : ins) for (int full = 0; full < 2; ++full)
    R.scenario(std::string(w.nm) + EF[full], w.nm, {"C10"}, {}, [&](State& s) {
      out = E.newLocal(s, "the result", cfg.Isz);
      c = mk(s, full, 7, Lin(0), "n");
      pos = full ? anyPos(s, c.n, "pos") : Lin(0);
      std::vector<Val> a{mkReg(out), mkReg(c.reg), iter(s, c, pos)};
      srcArgs(s, w.kind, c.n, a);
      return a;
    }, [&](State& t) {
      std::set<int> r;
      match(t, content(t, c, r, 7), {{0, Lin(0), pos, 0}, want(w.kind), {0, pos, c.n - pos, 0}}, "C10");
      leaks(t, r);
      result(t, out, c, pos, "C10");
    }, basic);
  for (int full = 0; full < 2; ++full)
    R.scenario(std::string("f_erase_range") + EF[full], "f_erase_range", {"C10"}, {}, [&](State& s) {
      out = E.newLocal(s, "the result", cfg.Isz);
      c = mk(s, full, 7, Lin(0), "n");
      pos = p2 = Lin(0);
      if (full) { pos = anyPos(s, c.n, "first"); p2 = anyPos(s, c.n, "last"); s.n().add(p2 - pos); }
      Val a = iter(s, c, pos), b = iter(s, c, p2);
      return std::vector<Val>{mkReg(out), mkReg(c.reg), a, b};
    }, [&](State& t) {
      std::set<int> r;
      match(t, content(t, c, r, 7), {{0, Lin(0), pos, 0}, {0, p2, c.n - p2, 0}}, "C10");
      leaks(t, r);
      result(t, out, c, pos, "C10");
    }, [&](State& t) { throw Bug{"C10", "throws", "erasing a range throws"}; });
  for (auto nm : {"f_resize", "f_resize_value"}) for (int full = 0; full < 2; ++full) {
    bool v = !strcmp(nm, "f_resize_value");
    R.scenario(std::string(nm) + EF[full], nm, {"C10"}, {"C09"}, [&](State& s) {
      c = mk(s, full, 7, Lin(0), "n");
      std::vector<Val> a{mkReg(c.reg)};
      srcArgs(s, v ? VALUE : COUNT, c.n, a);
      return a;
    }, [&](State& t) {
      std::set<int> r;
      auto got = content(t, c, r, 7);
      if (E.ge(t, c.n - n)) match(t, got, {{0, Lin(0), n, 0}}, "C10");
      else match(t, got, {{0, Lin(0), c.n, 0}, {1, Lin(0), n - c.n, v ? 1 : 99}}, "C10");
      leaks(t, r);
    }, [&](State& t) { std::set<int> r; match(t, content(t, c, r, 7), {{0, Lin(0), c.n, 0}}, "C09"); leaks(t, r); });
  }
  for (int full = 0; full < 2; ++full)
    R.scenario(std::string("f_clear") + EF[full], "f_clear", {"C10"}, {"C14"}, [&](State& s) { c = mk(s, full, 7, Lin(0), "n"); return std::vector<Val>{mkReg(c.reg)}; },
      [&](State& t) { std::set<int> r; match(t, content(t, c, r, 7), {}, "C10"); leaks(t, r); }, [&](State&) { throw Bug{"C14", "throws", "clear throws"}; });
}
void Flat::allocs() {
  FC c, o;
  std::string M = "/" + mask();
  for (int full = 0; full < 2; ++full) {
    // copying a container leaves the source alone
    auto copied = [&](i64 id) { return [&, id](State& t) {
      std::set<int> r;
      match(t, content(t, c, r, id), {{0, o.base, o.n, 0}}, "C10");
      match(t, content(t, o, r, 7), {{0, o.base, o.n, 0}}, "C10");
      leaks(t, r);
    }; };
    auto gone = [&](State& t) { std::set<int> r; match(t, content(t, o, r, 7), {{0, o.base, o.n, 0}}, "C10"); leaks(t, r); };
    R.scenario(std::string("f_copy_ctor") + EF[full] + M, "f_copy_ctor", {"C10"}, {}, [&](State& s) { o = mk(s, full, 7, Lin(0), "m"); c = raw(s); return std::vector<Val>{mkReg(c.reg), mkReg(o.reg)}; }, copied(107), gone);
    for (i64 id : {7, 8}) {
      R.scenario(std::string("f_copy_ctor_alloc") + EF[full] + "/" + std::to_string(id) + M, "f_copy_ctor_alloc", {"C10"}, {}, [&](State& s) { o = mk(s, full, 7, Lin(0), "m"); c = raw(s); return std::vector<Val>{mkReg(c.reg), mkReg(o.reg), allocArg(s, id)}; }, copied(id), gone);
      R.scenario(std::string("f_move_ctor_alloc") + EF[full] + "/" + std::to_string(id) + M, "f_move_ctor_alloc", {"C12"}, {}, [&](State& s) { o = mk(s, full, 7, Lin(0), "m"); c = raw(s); return std::vector<Val>{mkReg(c.reg), mkReg(o.reg), allocArg(s, id)}; },
        [&](State& t) {
          if (id == 7 && t.ops) throw Bug{"C11", "ops", "moving a container touches elements or memory"};
          noCopy(t, "C12");
          std::set<int> r;
          match(t, content(t, c, r, id), {{0, o.base, o.n, 0}}, "C12");
          auto rest = content(t, o, r, 7);
          if (id == 7) match(t, rest, {}, "C11");
          leaks(t, r);
        }, [&](State& t) { if (id == 7) throw Bug{"C11", "throws", "moving a container with an equal allocator throws"}; valid(t, {&o}, {7}); });
    }
    R.scenario(std::string("f_move_ctor") + EF[full] + M, "f_move_ctor", {"C11"}, {"C11"}, [&](State& s) { o = mk(s, full, 7, Lin(0), "m"); c = raw(s); return std::vector<Val>{mkReg(c.reg), mkReg(o.reg)}; },
      [&](State& t) { if (t.ops) throw Bug{"C11", "ops", "moving a container touches elements or memory"}; std::set<int> r; match(t, content(t, c, r, 7), {{0, o.base, o.n, 0}}, "C11"); match(t, content(t, o, r, 7), {}, "C11"); leaks(t, r); },
      [&](State&) { throw Bug{"C14", "throws", "move construction throws"}; });
    for (int full2 = 0; full2 < 2; ++full2) for (i64 id : {7, 8}) {
      std::string nm = std::string(EF[full]) + "<-" + EF[full2] + (id == 8 ? "/unequal" : "") + M;
      auto both = [&](State& s) { c = mk(s, full, 7, Lin(0), "n"); o = mk2(s, full2, id, c); return std::vector<Val>{mkReg(c.reg), mkReg(o.reg)}; };
      i64 cid = ca ? id : 7, mid = ma ? id : 7;
      R.scenario("f_copy_assign" + nm, "f_copy_assign", {"C10"}, {}, both, [&](State& t) {
        std::set<int> r;
        match(t, content(t, c, r, cid), {{0, o.base, o.n, 0}}, "C10");
        match(t, content(t, o, r, id), {{0, o.base, o.n, 0}}, "C10");
        leaks(t, r);
      }, [&](State& t) {
        std::set<int> r;
        match(t, content(t, o, r, id), {{0, o.base, o.n, 0}}, "C10");
        Val own = H.cell(t, mkReg(c.reg), cfg.oAlloc, 4);
        content(t, c, r, own.k == Val::INT && own.a.isConst() ? own.a.c : 7);
        leaks(t, r);
      });
      R.scenario("f_move_assign" + nm, "f_move_assign", {"C12"}, {}, both, [&](State& t) {
        bool whole = ma || id == 7;
        if (whole && (t.ops & ~(OpDestroy | OpDealloc))) throw Bug{"C11", "ops", "move assignment that can take over the elements copies or moves them"};
        noCopy(t, "C12");
        std::set<int> r;
        match(t, content(t, c, r, mid), {{0, o.base, o.n, 0}}, whole ? "C11" : "C12");
        auto rest = content(t, o, r, id);
        if (whole) match(t, rest, {}, "C11");
        leaks(t, r);
      }, [&](State& t) {
        if (ma || id == 7) throw Bug{"C11", "throws", "move assignment that can take over the elements throws"};
        valid(t, {&c, &o}, {7, id});
      });
      if (id == 7 || sw) for (auto f : {"f_swap", "f_fswap"})
        R.scenario(f + nm, f, {"C11"}, {"C14"}, both, [&](State& t) {
          if (t.ops) throw Bug{"C11", "ops", "swapping containers touches elements or memory"};
          std::set<int> r;
          match(t, content(t, c, r, id), {{0, o.base, o.n, 0}}, "C11");
          match(t, content(t, o, r, 7), {{0, c.base, c.n, 0}}, "C11");
          leaks(t, r);
        }, [&](State&) { throw Bug{"C14", "throws", "swap throws"}; });
    }
    R.scenario(std::string("f_copy_assign/self") + EF[full] + M, "f_copy_assign", {"C10"}, {}, [&](State& s) { c = mk(s, full, 7, Lin(0), "n"); return std::vector<Val>{mkReg(c.reg), mkReg(c.reg)}; },
      [&](State& t) { std::set<int> r; match(t, content(t, c, r, 7), {{0, Lin(0), c.n, 0}}, "C10"); leaks(t, r); }, [&](State& t) { valid(t, {&c}, {7}); });
    R.scenario(std::string("f_dtor") + EF[full] + M, "f_dtor", {}, {"C14"}, [&](State& s) { c = mk(s, full, 7, Lin(0), "n"); return std::vector<Val>{mkReg(c.reg)}; }, [&](State& t) { leaks(t, {}); }, [&](State&) { throw Bug{"C14", "throws", "destruction throws"}; });
  }
}
void Flat::alias() {
  FC c;
  Lin pos, j, cnt;
  int out = -1;
  struct { char const* nm; int pos; bool ret; int many; bool mv; } ws[] = {  // pos 0 given, 1 back, 2 front, 3 resize; many 1: a count
      {"f_insert_copy", 0, true, 0, false}, {"f_emplace_copy", 0, true, 0, false}, {"f_insert_move", 0, true, 0, true}, {"f_push_back", 1, false, 0, false}, {"f_push_front", 2, false, 0, false},
      {"f_emplace_back", 1, false, 0, false}, {"f_emplace_front", 2, false, 0, false}, {"f_insert_count", 0, true, 1, false}, {"f_resize_value", 3, false, 1, false}};
  for (auto& w : ws)
    R.scenario(std::string(w.nm) + "/own element", w.nm, {"C20"}, {}, [&](State& s) {
      std::vector<Val> a;
      if (w.ret) { out = E.newLocal(s, "the result", cfg.Isz); a.push_back(mkReg(out)); }
      c = mk(s, true, 7, Lin(0), "n");
      a.push_back(mkReg(c.reg));
      pos = w.pos == 2 ? Lin(0) : c.n;
      if (w.pos == 0) { pos = anyPos(s, c.n, "pos"); a.push_back(iter(s, c, pos)); }
      j = anyPos(s, c.n - Lin(1), "own");
      cnt = Lin(1);
      if (w.many) { cnt = Lin::var(VT.sym("count")); s.n().add(cnt); a.push_back(mkInt(cnt)); }
      Val p = felt(c.seq, j, Lin(0));
      p.sub = 1;
      a.push_back(p);
      return a;
    }, [&](State& t) {
      std::set<int> r;
      auto got = content(t, c, r, 7);
      std::vector<Slice> want;
      Lin k = w.pos == 3 ? cnt - c.n : cnt;
      if (w.pos == 3 && !E.ge(t, k)) { match(t, got, {{0, Lin(0), cnt, 0}}, "C20"); leaks(t, r); return; }
      if (w.mv && cfg.cls) {  // the element moved from is the one that was referred to
        if (E.ge(t, j - pos)) want = {{0, Lin(0), pos, 0}, {0, j, Lin(1), 0}, {0, pos, j - pos, 0}, {2, Lin(0), Lin(1), 0}, {0, j + Lin(1), c.n - j - Lin(1), 0}};
        else want = {{0, Lin(0), j, 0}, {2, Lin(0), Lin(1), 0}, {0, j + Lin(1), pos - j - Lin(1), 0}, {0, j, Lin(1), 0}, {0, pos, c.n - pos, 0}};
      } else {
        if (E.ge(t, k - Lin(1))) want = {{0, Lin(0), pos, 0}, {4, j, k, 0}, {0, pos, c.n - pos, 0}};
        else want = {{0, Lin(0), c.n, 0}};
      }
      match(t, got, want, "C20");
      leaks(t, r);
      if (w.ret) result(t, out, c, pos, "C20");
    }, [&](State& t) { valid(t, {&c}, {7}); });
}

void Flat::splices() {
  FC c, o;
  Lin pos, i, j;
  struct { char const* nm; int kind; } ws[] = {{"f_splice", 0}, {"f_splice_r", 0}, {"f_splice_one", 1}, {"f_splice_one_r", 1}, {"f_splice_range", 2}, {"f_splice_range_r", 2}};
  for (int f1 = 0; f1 < 2; ++f1) for (int f2 = 0; f2 < 2; ++f2) for (i64 id : {7, 8}) {
    std::string nm = std::string(EF[f1]) + "<-" + EF[f2] + (id == 8 ? "/unequal" : "");
    auto basic = [&, id](State& t) { valid(t, {&c, &o}, {7, id}); };
    for (auto& w : ws) {
      if (w.kind == 1 && !f2) continue;
      R.scenario(w.nm + nm, w.nm, {"C13"}, {}, [&](State& s) {
        c = mk(s, f1, 7, Lin(0), "n");
        o = mk2(s, f2, id, c);
        pos = f1 ? anyPos(s, c.n, "pos") : Lin(0);
        i = Lin(0); j = o.n;
        std::vector<Val> a{mkReg(c.reg), iter(s, c, pos), mkReg(o.reg)};
        if (w.kind == 1) { i = anyPos(s, o.n - Lin(1), "which"); j = i + Lin(1); a.push_back(iter(s, o, i)); }
        if (w.kind == 2 && f2) { i = anyPos(s, o.n, "first"); j = anyPos(s, o.n, "last"); s.n().add(j - i); }
        if (w.kind == 2) { a.push_back(iter(s, o, i)); a.push_back(iter(s, o, j)); }
        return a;
      }, [&](State& t) {
        noCopy(t, "C13");
        std::set<int> r;
        match(t, content(t, c, r, 7), {{0, Lin(0), pos, 0}, {0, o.base + i, j - i, 0}, {0, pos, c.n - pos, 0}}, "C13");
        match(t, content(t, o, r, id), {{0, o.base, i, 0}, {0, o.base + j, o.n - j, 0}}, "C13");
        leaks(t, r);
      }, basic);
    }
    for (auto f : {"f_merge", "f_merge_r", "f_merge_cmp", "f_merge_cmp_r"}) {
      bool given = strstr(f, "cmp");
      long und = R.scenario(f + nm, f, {"C13"}, {}, [&](State& s) {
        c = mk(s, f1, 7, Lin(0), "n");
        o = mk2(s, f2, id, c);
        std::vector<Val> a{mkReg(c.reg), mkReg(o.reg)};
        if (given) a.push_back(functor(s));
        return a;
      }, [&](State& t) {
        noCopy(t, "C13");
        std::set<int> r;
        auto got = content(t, c, r, 7);
        match(t, content(t, o, r, id), {}, "C13");
        Lin n = c.n + o.n;
        std::vector<Slice> both{{0, Lin(0), c.n, 0}, {0, o.base, o.n, 0}};
        std::shared_ptr<Event const> ev;
        for (auto& e : t.log) if (e->r >= 0 && E.ge(t, e->e - e->b - Lin(1))) { if (ev) throw Undec{"more than one algorithm"}; ev = e; }
        if (!ev) {
          match(t, got, both, "C13");
          if (f1 && f2) throw Bug{"C13", "algorithm", "the elements are put one after the other, not merged"};
        } else {
          if (ev->algo != "inplace_merge" && ev->algo != "stable_sort") throw Bug{"C13", "algorithm", "merge applies " + ev->algo};
          if (!E.eq(t, ev->b) || !E.eq(t, ev->e - n)) throw Bug{"C13", "algorithm", ev->algo + " is applied to the indices " + str(ev->b) + " to " + str(ev->e) + " of " + str(n)};
          if (ev->algo == "inplace_merge" && !E.eq(t, ev->mid - c.n)) throw Bug{"C13", "algorithm", "the second part is taken to begin at " + str(ev->mid) + " instead of " + str(c.n)};
          match(t, slices(t, ev->before, n), both, "C13");
          comparison(t, *ev, given, "Cmp", "std::less<", "C13");
          match(t, got, {{3, Lin(0), n, ev->tok}}, "C13");
        }
        leaks(t, r);
      }, basic);
      if (und > 0 && f1 && f2 && id == 7) { Few few(*this); smallMerges(f, given); }
    }
  }
}
Val Flat::functor(State& s) {
  int f = E.newLocal(s, "the functor", 32);
  s.wr(f).cells[0] = {mkInt(77), 8};
  for (int k = 1; k < 4; ++k) s.wr(f).cells[8 * k] = {mkInt(0), 8};
  return mkReg(f);
}
void Flat::comparison(State& t, Event const& e, bool given, std::string own, std::string def, char const* prop) {
  if (!e.cmp.empty() && e.cmp[0] == '!') throw Bug{prop, "functor", "the functor that is applied is not the one that was given but something made of " + e.cmp.substr(1)};
  if (given) {
    if (e.cmp == own) {
      if (e.id.k != Val::INT) throw Undec{"the functor is " + str(e.id)};
      if (!E.eq(t, e.id.a - Lin(77))) throw Bug{prop, "functor", "the functor that is applied is not the one that was given"};
    } else if (e.cmp.empty() || e.cmp.compare(0, def.size(), def) == 0) throw Bug{prop, "functor", "the functor that was given is not used"};
    else throw Undec{"functor " + e.cmp};
  } else if (!e.cmp.empty() && e.cmp.compare(0, def.size(), def) != 0) {
    for (auto x : {"std::less<", "std::greater<", "std::less_equal<", "std::greater_equal<", "std::equal_to<", "std::not_equal_to<"})
      if (e.cmp.compare(0, strlen(x), x) == 0) throw Bug{prop, "functor", "the elements are compared with " + e.cmp};
    throw Undec{"functor " + e.cmp};
  }
}
void Flat::algos() {
  FC c;
  enum { REMOVE, REMOVE_IF, UNIQUE, REVERSE, SORT };
  struct { char const* nm; int kind; bool given; char const* algo; } ws[] = {
      {"f_remove", REMOVE, false, "remove"}, {"f_remove_if", REMOVE_IF, true, "remove_if"}, {"f_unique", UNIQUE, false, "unique"}, {"f_unique_pred", UNIQUE, true, "unique"},
      {"f_reverse", REVERSE, false, "reverse"}, {"f_sort", SORT, false, "stable_sort"}, {"f_sort_cmp", SORT, true, "stable_sort"}};
  Lin own;
  // full 2: the value to remove is an element of the sequence
  for (auto& w : ws) for (int full = 0; full < (w.kind == REMOVE ? 3 : 2); ++full)
    {
    long und = R.scenario(w.nm + (full == 2 ? std::string(" own element") : EF[full]), w.nm, {"C21"}, {}, [&](State& s) {
      c = mk(s, full, 7, Lin(0), "n");
      std::vector<Val> a{mkReg(c.reg)};
      if (full == 2) { own = anyPos(s, c.n - Lin(1), "own"); Val p = felt(c.seq, own, Lin(0)); p.sub = 1; a.push_back(p); }
      else if (w.kind == REMOVE) a.push_back(mkReg(sc.mkElem(s, 1)));
      if (w.given) a.push_back(functor(s));
      return a;
    }, [&](State& t) {
      std::set<int> r;
      auto got = content(t, c, r, 7);
      std::shared_ptr<Event const> ev;
      for (auto& e : t.log) if (e->r >= 0 && E.ge(t, e->e - e->b - Lin(1))) { if (ev) throw Undec{"more than one algorithm"}; ev = e; }
      Lin least = Lin(w.kind == REMOVE || w.kind == REMOVE_IF ? 1 : 2);
      if (!ev) {
        bool trivial = !E.ge(t, c.n - least);
        std::vector<Slice> same{{0, Lin(0), c.n, 0}};
        if (trivial) match(t, got, same, "C21");
        else {
          bool unchanged = false;
          try { match(t, got, same, "C21"); unchanged = true; } catch (Bug&) {}
          if (unchanged) throw Bug{"C21", "algorithm", std::string(w.nm + 2) + " does nothing with " + str(c.n) + " elements"};
          throw Undec{"no known algorithm is applied"};
        }
      } else {
        if (ev->algo != w.algo && !(w.kind == REMOVE && ev->algo == "remove_if")) {
          for (auto x : {"remove", "remove_if", "unique", "reverse", "sort", "stable_sort"}) if (ev->algo == x && !(w.kind == REMOVE && ev->algo == "remove_if")) throw Bug{"C21", "algorithm", std::string(w.nm + 2) + " applies " + ev->algo};
          throw Undec{"algorithm " + ev->algo};
        }
        match(t, slices(t, ev->before, c.n), {{0, Lin(0), c.n, 0}}, "C21");
        // elements outside the range: harmless only if there is too little to do
        if (!E.eq(t, ev->b) || !E.eq(t, ev->e - c.n)) throw Bug{"C21", "algorithm", ev->algo + " is applied to the indices " + str(ev->b) + " to " + str(ev->e) + " of " + str(c.n)};
        if (w.kind == REMOVE && ev->algo == "remove_if" && ev->cmp != "==") {
          if (ev->cmp[0] == '!') throw Bug{"C21", "functor", "the elements that are removed are not those that are equal to the value"};
          throw Undec{"functor " + ev->cmp};
        }
        if (w.kind == REMOVE) {
          if (ev->value.k == Val::UNDEF || ev->value.k == Val::EM) throw Bug{"C21", "value", "the value to remove is gone"};
          if (full == 2) {
            // moving the elements that stay overwrites those that match, which the value does
            if (ev->id.k == Val::FELT && ev->id.id == c.seq && E.ge(t, c.n - own - Lin(2))) throw Bug{"C21", "alias", "the value to remove, the element at index " + str(ev->id.a) + ", is overwritten while the elements after it are compared with it"};
            else if (ev->value.k != Val::EE) throw Undec{"value " + str(ev->value)};
            if (!E.eq(t, ev->value.a - own)) throw Bug{"C21", "value", "another value than the given one is removed"};
          } else if (ev->value.k != Val::EV) throw Undec{"value " + str(ev->value)};
          else if (ev->value.id != 1) throw Bug{"C21", "value", "another value than the given one is removed"};
        } else if (w.kind == SORT) comparison(t, *ev, w.given, "Cmp", "std::less<", "C21");
        else if (w.kind == UNIQUE) comparison(t, *ev, w.given, "Pred2", "std::equal_to<", "C21");
        else if (w.kind == REMOVE_IF) comparison(t, *ev, true, "Pred", "std::", "C21");
        match(t, got, {{3, Lin(0), ev->m, ev->tok}}, "C21");
      }
      leaks(t, r);
    }, [&, w](State& t) { valid(t, {&c}, {7}); });
    if (und > 0 && full == 1) { Few few(*this); smallSorts(w.nm, w.given); }
    }
}
void Flat::relations() {
  FC a, b;
  // equivalent elements (neither less) need not be equal
  enum { LT = 1, EQ = 2, GT = 4, EQV = 8 };
  struct { char const* nm; int holds; } ws[] = {{"f_eq", EQ}, {"f_ne", LT | GT | EQV}, {"f_lt", LT}, {"f_gt", GT}, {"f_le", LT | EQ | EQV}, {"f_ge", GT | EQ | EQV}};
  for (int f1 = 0; f1 < 2; ++f1) for (int f2 = 0; f2 < 3; ++f2) for (auto& w : ws) {
    if (f2 == 2 && !f1) continue;
    long und = R.scenario(w.nm + std::string(EF[f1]) + (f2 == 2 ? "?itself" : std::string("?") + EF[f2]), w.nm, {"C19"}, {}, [&](State& s) {
      a = mk(s, f1, 7, Lin(0), "n");
      b = f2 == 2 ? a : mk2(s, f2, 7, a);
      s.ro = true;
      return std::vector<Val>{mkReg(a.reg), mkReg(b.reg)};
    }, [&](State& t) {
      int can = LT | EQ | GT | EQV;
      if (f2 == 2) can = EQ;
      else if (!f1) can = f2 ? LT : EQ;
      else if (!f2) can = GT;
      else if (!E.eq(t, a.n - b.n)) can = LT | GT;
      bool loose = false;
      if (f2 != 2 && f1 && f2) for (auto& e : t.log) {
        bool eq = e->algo == "equal";
        if (e->r < 0 || e->r2 < 0) throw Undec{"comparison of nothing"};
        bool back = e->r == b.seq;
        if (e->r == e->r2) throw Undec{"comparison within a sequence"};
        Lin nx = back ? b.n : a.n, ny = back ? a.n : b.n;
        int lt = back ? GT : LT, gt = back ? LT : GT;
        Lin l1 = e->e - e->b, l2 = e->e2 - e->b2;
        if (E.ge(t, e->b - Lin(1)) && E.ge(t, e->b2 - Lin(1))) { can &= ~(EQ | EQV); continue; }  // the first elements, not looked at, decide
        if (!E.eq(t, e->b) || !E.eq(t, e->b2)) { loose = true; continue; }
        if (eq) {
          if (!E.eq(t, l1 - l2)) continue;
          if (e->outcome) {
            bool x = E.eq(t, l1 - nx), y = E.eq(t, l1 - ny);
            if (x && y) can &= EQ; else if (x) can &= lt; else if (y) can &= gt;
          } else can &= ~EQ;
        } else {
          if (!E.eq(t, l1 - nx) || !E.eq(t, l2 - ny)) { loose = true; continue; }
          can &= e->outcome ? lt : EQ | EQV | gt;
        }
      }
      if (!can) return;
      Val v = t.ret;
      bool is;
      if (v.k == Val::BOOL) is = E.truth(t, v);
      else if (v.k == Val::INT) is = !E.eq(t, v.a);
      else throw Undec{"result " + str(v)};
      for (int x : {LT, EQ, GT, EQV}) if (can & x) {
        if (is == !!(w.holds & x)) continue;
        if (loose) throw Undec{"a part of the elements is compared"};
        throw Bug{"C19", "relation", std::string(w.nm + 2) + " is " + (is ? "true" : "false") + " for a first sequence that is " + (x == LT ? "less than" : x == EQ ? "equal to" : x == EQV ? "neither less than nor greater than nor equal to" : "greater than") + " the second"};
      }
    }, [&](State&) {});
    if (und > 0 && f1 && f2 == 1) { Few few(*this); smallRelations(w.nm); }
  }
}
// ---- operations written as loops over the elements: the same for sequences of a few elements each, with every order and
// equality of these elements that the comparisons made leave open
Flat::Toks Flat::tokens(State& s, std::vector<Slice> const& w) {
  Toks r;
  for (auto& x : w) {
    if (!x.len.isConst() || x.len.c > 64) throw Undec{"number of elements " + str(x.len)};
    for (i64 i = 0; i < x.len.c; ++i) {
      if (x.kind == 0 || x.kind == 4) { Lin a = x.a + Lin(x.kind ? 0 : i); if (!a.isConst()) throw Undec{"element " + str(a)}; r.push_back("e" + std::to_string(a.c)); }
      else if (x.kind == 1) r.push_back("v" + std::to_string(x.tok));
      else r.push_back("moved from");
    }
  }
  return r;
}
void Flat::worlds(State& t, Toks const& el, bool needRank, bool needClass, bool pred, std::function<void(World const&)> f) {
  for (auto& o : t.oracle) {
    std::string r = o.first.substr(0, o.first.find('('));
    if (r == "<" || r == "Cmp") needRank = true; else needClass = true;
    if (r == "Pred") pred = true;
  }
  size_t n = el.size();
  auto next = [&](std::vector<int>& v, int lim) { for (size_t i = 0; i < n; ++i) { if (++v[i] < lim) return true; v[i] = 0; } return false; };
  std::vector<int> rk(n), cl(n);
  do {
    do {
      World w;
      bool ok = true;
      for (size_t i = 0; i < n; ++i) { w.rank[el[i]] = rk[i]; w.cls[el[i]] = cl[i]; }
      // equal elements are equivalent
      if (needRank && needClass) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (cl[i] == cl[j] && rk[i] != rk[j]) ok = false;
      if (ok) for (auto& o : t.oracle) {
        size_t p = o.first.find('('), q = o.first.find(',');
        std::string r = o.first.substr(0, p), x = o.first.substr(p + 1, (q == std::string::npos ? o.first.size() - 1 : q) - p - 1), y = q == std::string::npos ? "" : o.first.substr(q + 1, o.first.size() - q - 2);
        if (!w.rank.count(x) || (!y.empty() && !w.rank.count(y))) throw Undec{"comparison of " + o.first};
        int v = r == "Pred" ? w.cls[x] : r == "<" || r == "Cmp" ? w.rank[x] < w.rank[y] : w.cls[x] == w.cls[y];
        if (v != o.second) { ok = false; break; }
      }
      if (ok) f(w);
    } while (needClass && next(cl, pred ? 2 : (int)n));
    std::fill(cl.begin(), cl.end(), 0);
  } while (needRank && next(rk, (int)n));
}
static std::string show(std::vector<std::string> const& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : " ") + x; return "(" + r + ")"; }
void Flat::smallSorts(char const* nm, bool given) {
  std::string op = nm + 2;
  for (int n = 1; n <= 3; ++n) {
    FC c;
    R.scenario(nm + ("/" + std::to_string(n)), nm, {"C21"}, {}, [&](State& s) {
      c = mk(s, true, 7, Lin(0), "n", n);
      std::vector<Val> a{mkReg(c.reg)};
      if (op == "remove") a.push_back(mkReg(sc.mkElem(s, 1)));
      if (given) a.push_back(functor(s));
      return a;
    }, [&](State& t) {
      std::set<int> r;
      Toks got = tokens(t, content(t, c, r, 7)), el;
      for (int i = 0; i < n; ++i) el.push_back("e" + std::to_string(i));
      Toks all = el;
      if (op == "remove") all.push_back("v1");
      bool sort = op.compare(0, 4, "sort") == 0, rev = op == "reverse";
      worlds(t, all, sort, !sort && !rev, op == "remove_if", [&](World const& w) {
        Toks want;
        if (sort) { want = el; std::stable_sort(want.begin(), want.end(), [&](std::string const& a, std::string const& b) { return w.rank.at(a) < w.rank.at(b); }); }
        else if (rev) want.assign(el.rbegin(), el.rend());
        else for (auto& x : el) {
          if (op == "remove" ? w.cls.at(x) == w.cls.at("v1") : op == "remove_if" ? w.cls.at(x) == 1 : !want.empty() && w.cls.at(want.back()) == w.cls.at(x)) continue;
          want.push_back(x);
        }
        if (want == got) return;
        std::string how;
        for (auto& x : all) how += " " + x + ":" + std::to_string(sort ? w.rank.at(x) : w.cls.at(x));
        throw Bug{"C21", "algorithm", op + " of " + show(el) + " leaves " + show(got) + " instead of " + show(want) + ", given" + how};
      });
      leaks(t, r);
    }, [&](State& t) { valid(t, {&c}, {7}); });
  }
}
void Flat::smallMerges(char const* nm, bool given) {
  for (int n = 1; n <= 2; ++n) for (int m = 1; m <= 2; ++m) {
    FC c, o;
    R.scenario(nm + ("/" + std::to_string(n)) + "<-" + std::to_string(m), nm, {"C13"}, {}, [&](State& s) {
      c = mk(s, true, 7, Lin(0), "n", n);
      o = mk(s, true, 7, Lin(100), "m", m);
      std::vector<Val> a{mkReg(c.reg), mkReg(o.reg)};
      if (given) a.push_back(functor(s));
      return a;
    }, [&](State& t) {
      std::set<int> r;
      Toks got = tokens(t, content(t, c, r, 7)), el;
      match(t, content(t, o, r, 7), {}, "C13");
      for (int i = 0; i < n; ++i) el.push_back("e" + std::to_string(i));
      for (int i = 0; i < m; ++i) el.push_back("e" + std::to_string(100 + i));
      worlds(t, el, true, false, false, [&](World const& w) {
        auto less = [&](std::string const& a, std::string const& b) { return w.rank.at(a) < w.rank.at(b); };
        if (!std::is_sorted(el.begin(), el.begin() + n, less) || !std::is_sorted(el.begin() + n, el.end(), less)) return;
        Toks want = el;
        std::stable_sort(want.begin(), want.end(), less);
        if (want == got) return;
        std::string how;
        for (auto& x : el) how += " " + x + ":" + std::to_string(w.rank.at(x));
        throw Bug{"C13", "algorithm", "merging " + show(Toks(el.begin(), el.begin() + n)) + " and " + show(Toks(el.begin() + n, el.end())) + " gives " + show(got) + " instead of " + show(want) + ", given" + how};
      });
      leaks(t, r);
    }, [&](State& t) { valid(t, {&c, &o}, {7, 7}); });
  }
}
void Flat::smallRelations(char const* nm) {
  std::string op = nm + 2;
  for (int n = 0; n <= 2; ++n) for (int m = 0; m <= 2; ++m) {
    FC a, b;
    R.scenario(nm + ("/" + std::to_string(n)) + "?" + std::to_string(m), nm, {"C19"}, {}, [&](State& s) {
      a = mk(s, n > 0, 7, Lin(0), "n", n);
      b = mk(s, m > 0, 7, Lin(100), "m", m);
      s.ro = true;
      return std::vector<Val>{mkReg(a.reg), mkReg(b.reg)};
    }, [&](State& t) {
      Toks x, y, el;
      for (int i = 0; i < n; ++i) x.push_back("e" + std::to_string(i));
      for (int i = 0; i < m; ++i) y.push_back("e" + std::to_string(100 + i));
      el = x; el.insert(el.end(), y.begin(), y.end());
      Val v = t.ret;
      bool is;
      if (v.k == Val::BOOL) is = E.truth(t, v);
      else if (v.k == Val::INT) is = !E.eq(t, v.a);
      else throw Undec{"result " + str(v)};
      bool eq = op == "eq" || op == "ne";
      worlds(t, el, !eq, eq, false, [&](World const& w) {
        auto less = [&](std::string const& p, std::string const& q) { return w.rank.at(p) < w.rank.at(q); };
        bool same = x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(), [&](std::string const& p, std::string const& q) { return w.cls.at(p) == w.cls.at(q); });
        bool lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end(), less), gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end(), less);
        bool want = op == "eq" ? same : op == "ne" ? !same : op == "lt" ? lt : op == "gt" ? gt : op == "le" ? !gt : !lt;
        if (is == want) return;
        std::string how;
        for (auto& k : el) how += " " + k + ":" + std::to_string(eq ? w.cls.at(k) : w.rank.at(k));
        throw Bug{"C19", "relation", op + " is " + (is ? "true" : "false") + " for " + show(x) + " and " + show(y) + ", given" + how};
      });
    }, [&](State&) {});
  }
}
// cfg: flat_CMS_class, with C, M, S the propagation traits
void flatScenarios(Runner& R, std::string const& cfg) {
  size_t p = cfg.find('_');
  auto bit = [&](size_t k) { return p != std::string::npos && cfg.size() > p + k && cfg[p + k] == '1'; };
  Flat F(R, bit(1), bit(2), bit(3));
  R.E.hook = [&F](State& s, std::string const& n, llvm::CallBase& cb, std::vector<Val>& a, Val& ret) { return F.H(s, n, cb, a, ret); };
  R.E.partition = true;
  R.group = "bulk"; F.bulk();
  R.group = "allocs"; F.allocs();
  R.group = "alias"; F.alias();
  R.group = "splices"; F.splices();
  R.group = "algos"; F.algos();
  R.group = "relations"; F.relations();
}
