// Scenarios: abstract initial states, the operation analysed, and what has to hold afterwards.
#pragma once
#include "engine.h"
struct Slice { int kind; Lin a, len; int tok; };  // 0: old[a, a+len); 1: one element with token tok; 2: moved-from elements; 3: result of algorithm tok; 4: copies of old[a]
struct Cont { int reg = -1, ht = 0, g = -1, rootReg = -1; Lin n, base; };
struct Iter { Val segPtr, segIdx, segLen, leafPtr, leafIdx, pos; std::map<int, Lin> at; };  // at: slot chosen at each height, 1: in the segment
struct ItQuery { Iter it; int leafReg = -1; bool found = false; Lin segStart; Val segPtr; Val segLen; };
struct WalkRes { std::vector<Slice> c; std::map<int, std::vector<std::pair<Lin, Lin>>> reached; std::set<int> regs; Lin total; };
struct Scen {
  Engine& E;
  Config& cfg;
  std::string name;
  bool skipLeak = false;          // look past elements that are not destroyed
  std::vector<std::string> fun;   // properties a functional mismatch on normal return violates
  std::vector<std::string> exc;   // ... after an exception
  Scen(Engine& e) : E(e), cfg(e.cfg) {}
  Cont mkCont(State& s, int ht, int allocId, Lin base);
  // relative to ref: the same slots above height div, there a later (dir 1) or earlier (-1) one, free ones below
  Iter mkIter(State& s, Cont const& c, bool end, char const* nm, Iter const* ref = nullptr, int div = 0, int dir = 0, int edge = 0);
  // edge: below the root the first (-1) or last (1) of everything
  int putIter(State& s, Iter const& it);
  Iter getIter(State& s, int reg);
  int mkElem(State& s, int tok);
  Lin walk(State& s, Val p, int ht, bool root, Val parent, Lin pidx, Lin acc, Val szCell, WalkRes& w, ItQuery* q);
  WalkRes walkCont(State& s, Cont const& c, ItQuery* q);
  void matchContent(State& s, std::vector<Slice> got, std::vector<Slice> want, std::string prop);
  void checkLeaks(State& s, std::vector<WalkRes*> ws);
  void checkIter(State& s, Cont const& c, WalkRes& w, ItQuery& q, Lin pos, std::string prop);
  void prepareIter(State& s, ItQuery& q);
  llvm::Function* fn(std::string const& n);
};
