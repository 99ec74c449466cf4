// Abstract interpreter over LLVM IR: symbolic memory graphs with segmented arrays, a linear-inequality
// numeric domain, trace partitioning, and loop invariants found by parametric generalisation.
#pragma once
#include "lin.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <functional>
#include <list>

struct Val {
  enum K : uint8_t { UNDEF, UNK, INT, BOOL, NUL, REG, ITEM, FN, EE, EV, EM, ZERO, AGG, FELT };
  K k = UNDEF;
  int8_t sub = 0;  // 0 plain, 1 sizes array, 2 pointers array (of a node)
  int id = 0;      // region, group, token, or comparison (0 >=0, 1 ==0, 2 !=0)
  Lin a, off;      // integer value, item index, element position; byte offset
  std::shared_ptr<std::vector<Val>> agg;
  void const* p = nullptr;
};
inline Val mkInt(Lin l) { Val v; v.k = Val::INT; v.a = std::move(l); return v; }
inline Val mkBool(int op, Lin l) { Val v; v.k = Val::BOOL; v.id = op; v.a = std::move(l); return v; }
inline Val mkB(bool b) { return mkBool(0, Lin(b ? 0 : -1)); }
inline Val mkK(Val::K k) { Val v; v.k = k; return v; }
inline Val mkReg(int r, Lin off = Lin()) { Val v; v.k = Val::REG; v.id = r; v.off = off; return v; }
inline Val mkItem(int g, Lin i) { Val v; v.k = Val::ITEM; v.id = g; v.a = i; return v; }
inline Val mkE(Lin pos) { Val v; v.k = Val::EE; v.a = pos; return v; }
inline Val mkV(int tok) { Val v; v.k = Val::EV; v.id = tok; return v; }
std::string str(Val const& v);
bool same(Val const& a, Val const& b);  // syntactic
Val substV(Val const& v, int var, Lin const& by);

struct Chunk { Lin b, e; Val v; };
typedef std::vector<Chunk> Arr;
std::string str(Arr const& a);

struct Cell { Val v; i64 size; };
struct Region {
  enum K { LOCAL, NODE, SEG, SEQ } kind = LOCAL;
  std::string name;
  bool freed = false, zeroed = false;
  i64 size = -1;
  std::map<i64, Cell> cells;
  Arr arr[2];            // NODE: sizes, pointers; SEG: elements in arr[0]
  int group = -1;        // NODE made from an item: the group of its original children
  int g = -1; Lin gi;    // the item this region is, if any
  bool heap = false;     // obtained from the allocator during the analysis
  Val allocId;           // allocator it came from
  Lin allocN;
};
struct Group {
  int ht = 1;            // height of the children; 1: segments
  Lin L, base;           // number of children, position of the first element
  Arr cpp, cpi, status;  // parent link, parent index, freed? of children that are not regions of their own
  std::vector<std::pair<Lin, int>> mats;
  Val allocId;
};
struct FI {
  llvm::Function* f;
  std::string name;
  std::map<llvm::Value const*, int> num;
  llvm::DominatorTree dt;
  llvm::LoopInfo li;
  std::map<llvm::Loop const*, std::vector<int>> kill;
  bool fnNoThrow = false;
};
struct Frame {
  FI* fi;
  llvm::BasicBlock* bb;
  llvm::BasicBlock* prev;
  llvm::BasicBlock::iterator it;
  std::shared_ptr<std::vector<Val>> regs;
  std::vector<int> allocas;
};
// a library algorithm that was applied to a whole sequence
struct Event {
  std::string algo, cmp;
  int r = -1, r2 = -1, tok = 0;
  Lin b, e, mid, b2, e2, m;
  Val id, value;
  Arr before, before2;
  bool outcome = false, prefix = false;
};
struct Trace { std::string s; std::shared_ptr<Trace> up; };
struct State {
  std::vector<std::shared_ptr<Region>> R;
  std::map<int, std::shared_ptr<Group>> G;
  std::shared_ptr<Num> num = std::make_shared<Num>();
  std::vector<Frame> fr;
  enum P { RUN, RET, UNW } pend = RUN;
  Val ret;
  int choice = -1;
  std::shared_ptr<Trace> tr;
  long steps = 0;
  bool threw = false;
  bool rangeErr = false; // a std::out_of_range was built
  int ops = 0;           // what was done to elements and memory: OpAlloc...
  bool ro = false;       // the operation may only read
  int roReg = -1;        // ... the container itself included
  int limN = -1, limS = -1;        // blocks the operation may touch: index nodes, segments
  std::vector<int> tn, ts;         // those it touched
  bool approx = false;  // a loop was summarised on the way here
  int logDec = 0;
  std::vector<Lin> dec;  // what was decided during the current loop iteration
  std::vector<int> events;
  std::vector<std::shared_ptr<Event const>> log;
  std::vector<std::pair<std::string, int>> oracle;  // relations between two stand-in elements, as decided so far
  Region& wr(int r) { auto& p = R[r]; if (p.use_count() > 1) p = std::make_shared<Region>(*p); return *p; }
  Group& wg(int g) { auto& p = G[g]; if (p.use_count() > 1) p = std::make_shared<Group>(*p); return *p; }
  Num& n() { if (num.use_count() > 1) num = std::make_shared<Num>(*num); return *num; }
  std::vector<Val>& regs() { auto& p = fr.back().regs; if (p.use_count() > 1) p = std::make_shared<std::vector<Val>>(*p); return *p; }
  void note(std::string s) { auto t = std::make_shared<Trace>(); t->s = std::move(s); t->up = tr; tr = t; }
};
struct Alt { std::vector<Lin> cons; int choice; std::string desc; };
enum { OpAlloc = 1, OpDealloc = 2, OpConstruct = 4, OpDestroy = 8, OpAssign = 16, OpCopy = 32 };
struct Fork { std::vector<Alt> alts; };
struct Undec { std::string why; };
extern double timeIsUp;  // seconds since the start of the process after which every partition left is undecided
bool late();
struct Bug { std::string prop, kind, msg; };

struct Config {  // one instantiation of the container
  std::string name;
  i64 cls = 0;  // elements have a destructor
  i64 smax, bmax, esz, nsz, oParent, oPidx, oLen, oSizes, oPtrs, oRoot, oSize, oHeight, oAlloc, oNAlloc, seqsz, kind;
  i64 iSegPtr, iSegIdx, iSegLen, iLeafPtr, iLeafIdx, iPos, itsz, Isz, CIsz, mSmin, mBmin, hasPrevCount = 0, wPidx = 2, wLen = 2, wSegIdx = 8, wSegLen = 8, wLeafIdx = 8, wPos = 8;
  bool knownInNode(i64 o, i64 n) const { auto in = [&](i64 a, i64 w) { return o < a + w && a < o + n; }; return in(oParent, 8) || in(oPidx, wPidx) || in(oLen, wLen) || in(oSizes, 8 * bmax) || in(oPtrs, 8 * bmax); }
  i64 smin() const { return (smax + 1) / 2; }
  i64 bmin() const { return (bmax + 1) / 2; }
};
struct Out { State::P s; int kind; State st; };  // kind 0: returned/unwound, 1: back edge, 2: loop exit

struct Finding { std::string prop, kind, msg, loc, path, model; bool approx = false, threw = false; std::map<int, i64> pins; std::vector<std::string> props; };
struct Engine {
  llvm::Module& M;
  llvm::DataLayout const& DL;
  Config cfg;
  std::map<llvm::Function*, std::unique_ptr<FI>> fis;
  std::vector<Finding> findings;
  std::map<std::string, long> undec;
  long paths = 0, undecPaths = 0, steps = 0, loopsGen = 0, loopsUnroll = 0, infeasible = 0;
  std::set<std::string> funcsSeen;
  bool allocThrows = true, ctorThrows = true;
  bool stateless = false;  // all allocators are equal, and empty
  Val allocOf(State& s, Val const& a) { return stateless ? mkInt(7) : loadSz(s, a, 4, false); }
  int hooked = 0;  // the allocator has its own 1: construct, 2: destroy
  int unroll = 10;  // rounds of a loop that are followed one by one
  bool moveThrows = false, noSummary = false, leaks = false, wantPeel = false, partition = false;
  std::vector<Lin> splitOn;
  int depthQuiet = 0;  // >0 while probing: findings are not recorded
  long stepLimit = 4000000;
  std::function<bool(State&, std::string const&, llvm::CallBase&, std::vector<Val>&, Val&)> hook;
  Engine(llvm::Module& m) : M(m), DL(m.getDataLayout()) {}
  FI* info(llvm::Function* f);
  // deciding
  bool ge(State& s, Lin const& l, char const* why = "");   // l >= 0 ?
  bool eq(State& s, Lin const& l, char const* why = "");
  int choose(State& s, int n, std::string const& what);
  bool truth(State& s, Val const& v);
  // memory
  int newLocal(State& s, std::string name, i64 size);
  int newGroup(State& s, int childHt, Lin L, Lin base);
  int materialise(State& s, int g, Lin const& idx);
  int resolve(State& s, int g, Lin const& idx);  // region or -1
  size_t find(State& s, Arr const& a, Lin const& idx);
  Val readAt(State& s, Arr const& a, Lin const& idx);
  void writeAt(State& s, Arr& a, Lin const& idx, Val v);
  void coalesce(State& s, Arr& a);
  size_t splitAt(State& s, Arr& a, Lin const& pos);
  Val load(State& s, Val p, llvm::Type* ty);
  Val loadSz(State& s, Val p, i64 size, bool isPtr);
  void store(State& s, Val p, Val v, i64 size);
  void copyBytes(State& s, Val d, Val src, Val n, bool lib = false);
  Val readElem(State& s, Val p);
  void writeElem(State& s, Val p, Val v);
  int seqAt(State& s, Val const& p);  // the sequence an element pointer refers to, checked
  int regionOf(State& s, Val& p, bool forElems);
  void readOnly(State& s, int r);
  void touch(State& s, int r);
  void dealloc(State& s, Val p, bool isNode, Val allocId, Lin n);
  bool ptrEq(State& s, Val const& a, Val const& b);
  i64 divide(Lin const& l, i64 k, Lin& q);
  bool semEq(State& s, Val const& a, Val const& b);
  bool arrEq(State& s, Arr const& a, Arr const& b);
  // running
  Val eval(State& s, llvm::Value* v);
  void set(State& s, llvm::Value* v, Val x);
  void enter(State& s, llvm::BasicBlock* to);
  bool step(State& s);
  void call(State& s, llvm::CallBase& cb);
  bool external(State& s, std::string const& name, llvm::CallBase& cb, std::vector<Val>& args, Val& ret, bool& threw);
  void explore(State s, size_t depth, llvm::Loop* L, std::vector<Out>& outs);
  void runLoop(State s, llvm::Loop* L, std::vector<Out>& exits);
  bool generalise(State& s0, State& b1, State& b2, llvm::Loop* L, bool fromZero, State& g, int& kv, std::vector<Lin>& cand);
  bool conforms(State& t, State& g, int kv, int inc, std::vector<Lin> const& cand, std::vector<bool>* ok);
  std::vector<Out> iterate(State const& s, llvm::Loop* L);
  void report(State& s, Bug const& b, std::string loc);
  void pushCall(State& s, llvm::Function* f, std::vector<Val> args);
  void deliver(State& s);       // return or unwinding into the top frame
  std::vector<State> run(State s, llvm::Function* f, std::vector<Val> args);
  // runs a deciding function to the end on every partition of the state
  void settle(State s, std::function<void(State&)> fn, std::function<void(State&)> done = nullptr);
  std::string loc(State& s);
};
std::string demangled(llvm::StringRef n);
