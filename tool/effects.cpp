// Effect analysis over the call graph of a compiled driver: what may throw inside functions that must not (C14), writes
// to objects of static storage duration below reading operations (C15), loops and recursion below operations that take
// constant time (C24).  Wrappers are named n_ (must not throw), k_ (constant time), r_ (only read).
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <map>
#include <set>
#include <string>
using namespace llvm;
struct V { std::string prop, key, text; };
static std::vector<V> out;
static std::string nm(Function const* f) {
  std::string s = demangle(f->getName().str());
  std::string r;
  int d = 0;
  for (size_t i = 0; i < s.size(); ++i) {  // template arguments make names unreadable
    bool op = r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0;
    bool op2 = r.size() >= 9 && (r.compare(r.size() - 9, 9, "operator<") == 0 || r.compare(r.size() - 9, 9, "operator-") == 0);
    if (s[i] == '<' && !op && !op2) { if (!d++) r += "<>"; }
    else if (s[i] == '>' && d && !op && !op2) --d;
    else if (!d) r += s[i];
  }
  for (size_t p; (p = r.find("boost::segmented_tree::")) != std::string::npos;) r.erase(p, 23);
  return r;
}
static std::string at(Instruction const& i) {
  DILocation const* l = i.getDebugLoc().get();
  while (l && !l->getLine() && l->getInlinedAt()) l = l->getInlinedAt();
  if (!l) return "?";
  std::string f = l->getFilename().str();
  return f.substr(f.rfind('/') + 1) + ":" + std::to_string(l->getLine());
}
static bool starts(StringRef s, char const* p) { return s.starts_with(p); }
static Function* callee(CallBase& c) { return dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts()); }
static bool throwsDecl(Function* f) {
  StringRef n = f->getName();
  if (f->isIntrinsic() || f->doesNotThrow()) return false;
  for (char const* k : {"__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception", "__cxa_allocate_exception", "__clang_call_terminate", "memcpy", "memmove", "memset", "memcmp", "strlen", "free", "malloc", "_ZdlPv", "_ZSt9terminatev", "__cxa_guard_release", "__cxa_atexit", "abort"})
    if (n == k || (k[0] == '_' && k[1] == 'Z' && starts(n, k))) return false;
  return true;
}
// how an unwinding call leaves: 0 to the caller, 1 it is caught, 2 the program is terminated
static int leaves(CallBase& c) {
  auto* i = dyn_cast<InvokeInst>(&c);
  if (!i) return 0;
  BasicBlock* b = i->getUnwindDest();
  auto* lp = b->getLandingPadInst();
  if (!lp) return 0;
  bool all = false;
  for (unsigned k = 0; k < lp->getNumClauses(); ++k) if (lp->isCatch(k) && isa<ConstantPointerNull>(lp->getClause(k))) all = true;
  if (!all) return 0;
  std::set<BasicBlock*> seen;
  for (BasicBlock* x = b; x && seen.insert(x).second; x = x->getSingleSuccessor())
    for (auto& in : *x) if (auto* cc = dyn_cast<CallBase>(&in)) {
      Function* f = callee(*cc);
      if (f && (f->getName() == "__clang_call_terminate" || f->getName() == "_ZSt9terminatev")) return 2;
      if (f && f->getName() == "__cxa_begin_catch") return 1;
    }
  return 1;
}
int main(int argc, char** argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("effects", errs()); return 2; }
  long nCalls = 0, nIndirect = 0, nLoops = 0, nConst = 0, nStores = 0;
  // --- may throw: least fixpoint, with the call that shows it
  std::map<Function*, CallBase*> why;
  std::set<Function*> may;
  for (auto& f : *M) if (f.isDeclaration() && throwsDecl(&f)) may.insert(&f);
  for (bool ch = true; ch;) {
    ch = false;
    for (auto& f : *M) {
      if (f.isDeclaration() || may.count(&f) || f.doesNotThrow()) continue;
      for (auto& i : instructions(f)) if (auto* c = dyn_cast<CallBase>(&i)) {
        if (isa<IntrinsicInst>(c) || c->doesNotThrow()) continue;
        Function* t = callee(*c);
        if (t && may.count(t) && leaves(*c) == 0) { may.insert(&f); why[&f] = c; ch = true; break; }
      }
    }
  }
  auto chain = [&](CallBase* c) {
    std::string s;
    for (int n = 0; c && n < 20; ++n) {
      Function* t = callee(*c);
      s += "\n    " + at(*c) + " calls " + nm(t);
      if (t->isDeclaration()) break;
      c = why[t];
    }
    return s;
  };
  std::map<std::string, std::set<Function*>> reach;  // per kind of wrapper
  std::map<Function*, CallBase*> from;
  for (std::string k : {"n_", "k_", "r_"}) {
    std::vector<Function*> st;
    for (auto& f : *M) if (!f.isDeclaration() && (starts(f.getName(), k.c_str()) || (k == "r_" && starts(f.getName(), "n_c")))) { if (reach[k].insert(&f).second) st.push_back(&f); }
    while (!st.empty()) {
      Function* f = st.back();
      st.pop_back();
      for (auto& i : instructions(*f)) if (auto* c = dyn_cast<CallBase>(&i)) {
        Function* t = callee(*c);
        ++nCalls;
        if (!t) { if (!c->isInlineAsm()) ++nIndirect; continue; }
        if (reach[k].insert(t).second && !t->isDeclaration()) { from[t] = c; st.push_back(t); }
      }
    }
  }
  auto path = [&](Function* f) {
    std::string s;
    for (int n = 0; f && n < 20; ++n) {
      auto i = from.find(f);
      if (i == from.end()) { s = "  " + nm(f) + s; break; }
      s = "\n    " + at(*i->second) + " calls " + nm(f) + s;
      f = i->second->getFunction();
    }
    return s;
  };
  // C14
  std::set<std::string> nf;
  for (auto& f : *M) {
    if (f.isDeclaration() || !f.doesNotThrow()) continue;
    std::string n = nm(&f), full = demangle(f.getName().str());
    bool lib = full.find("segmented_tree") != std::string::npos, w = starts(f.getName(), "n_");
    if (!lib && !w) continue;
    // the outermost name must be the library's
    nf.insert(n);
    for (auto& i : instructions(f)) if (auto* c = dyn_cast<CallBase>(&i)) {
      Function* t = callee(*c);
      if (!t || isa<IntrinsicInst>(c) || c->doesNotThrow() || !may.count(t)) continue;
      int l = leaves(*c);
      if (l == 1) continue;
      out.push_back({"C14", "throws:" + n.substr(0, n.find('(')), n + " must not throw, but reaches an operation that can:" + chain(c)});
    }
  }
  // C15
  for (auto* f : reach["r_"]) {
    if (f->isDeclaration()) continue;
    for (auto& i : instructions(*f)) {
      Value* p = nullptr;
      if (auto* s = dyn_cast<StoreInst>(&i)) p = s->getPointerOperand();
      else if (auto* a = dyn_cast<AtomicRMWInst>(&i)) p = a->getPointerOperand();
      else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) p = x->getPointerOperand();
      else if (auto* m = dyn_cast<MemIntrinsic>(&i)) p = m->getDest();
      else if (auto* c = dyn_cast<CallBase>(&i)) {
        // std::atomic and the like: a global handed to a function that is not a constructor of it
        Function* t = callee(*c);
        if (t && t->getName().contains("__cxa_")) continue;
        for (auto& a : c->args()) if (a->getType()->isPointerTy()) {
          auto* g = dyn_cast<GlobalVariable>(a->stripInBoundsOffsets());
          if (g && !g->isConstant() && !g->isThreadLocal() && !g->getName().starts_with("_ZGV") && !g->getName().starts_with("_ZSt") && t && !t->onlyReadsMemory() && demangle(t->getName().str()).find("std::__atomic_base") != std::string::npos && demangle(t->getName().str()).find("load") == std::string::npos) p = a;
        }
      }
      if (!p) continue;
      ++nStores;
      auto* g = dyn_cast<GlobalVariable>(p->stripInBoundsOffsets());
      if (!g || g->isThreadLocal()) continue;
      std::string gn = g->getName().str();
      if (gn.compare(0, 4, "_ZGV") == 0 || M->getNamedGlobal("_ZGV" + gn.substr(gn.compare(0, 2, "_Z") == 0 ? 2 : 0))) continue;  // initialisation under a guard
      out.push_back({"C15", "static:" + gn, "a reading operation writes to the static object " + demangle(gn) + " at " + at(i) + ", reached by" + path(f)});
    }
  }
  // C15: stores into the container itself, below operations that get it as const
  std::map<Function*, std::set<unsigned>> retArg;  // parameters a pointer into which is returned
  std::map<Function*, std::set<unsigned>> par;     // parameters that point into a container that is only read
  auto derived = [&](Function* f, std::set<unsigned> const& ps) {
    std::set<Value*> d;
    for (unsigned k : ps) d.insert(f->getArg(k));
    for (bool ch = true; ch;) {
      ch = false;
      for (auto& i : instructions(*f)) {
        if (d.count(&i) || !i.getType()->isPointerTy()) continue;
        bool in = false;
        if (auto* g = dyn_cast<GetElementPtrInst>(&i)) in = d.count(g->getPointerOperand());
        else if (isa<CastInst>(&i) || isa<PHINode>(&i) || isa<SelectInst>(&i) || isa<FreezeInst>(&i)) { for (auto& o : i.operands()) if (d.count(o)) in = true; }
        else if (auto* c = dyn_cast<CallBase>(&i)) {
          Function* t = callee(*c);
          auto r = retArg.find(t);
          if (r != retArg.end()) for (unsigned k : r->second) if (k < c->arg_size() && d.count(c->getArgOperand(k))) in = true;
        }
        if (in) { d.insert(&i); ch = true; }
      }
    }
    return d;
  };
  for (bool ch = true; ch;) {
    ch = false;
    for (auto* f : reach["r_"]) if (!f->isDeclaration() && f->getReturnType()->isPointerTy())
      for (auto& a : f->args()) if (a.getType()->isPointerTy() && !retArg[f].count(a.getArgNo())) {
        auto d = derived(f, {a.getArgNo()});
        for (auto& i : instructions(*f)) if (auto* r = dyn_cast<ReturnInst>(&i)) if (r->getReturnValue() && d.count(r->getReturnValue())) { retArg[f].insert(a.getArgNo()); ch = true; break; }
      }
  }
  std::vector<Function*> todo;
  for (auto* f : reach["r_"]) {
    DISubprogram* sp = f->getSubprogram();
    if (f->isDeclaration() || !sp || (!starts(f->getName(), "r_") && !starts(f->getName(), "n_c")) || starts(f->getName(), "r_copy")) continue;
    auto ty = sp->getType()->getTypeArray();
    unsigned shift = f->hasStructRetAttr() ? 1 : 0;
    for (unsigned k = 1; k < ty.size(); ++k) {
      DIType* t = ty[k];
      bool ref = false, cst = false;
      while (auto* dt = dyn_cast_or_null<DIDerivedType>(t)) {
        if (dt->getTag() == dwarf::DW_TAG_reference_type) ref = true;
        if (dt->getTag() == dwarf::DW_TAG_const_type) cst = true;
        t = dt->getBaseType();
      }
      if (ref && cst && t && t->getName().starts_with("seq<") && k - 1 + shift < f->arg_size() && par[f].insert(k - 1 + shift).second) todo.push_back(f);
    }
  }
  std::set<std::string> wrote;
  long nInto = 0;
  while (!todo.empty()) {
    Function* f = todo.back();
    todo.pop_back();
    ++nInto;
    auto d = derived(f, par[f]);
    for (auto& i : instructions(*f)) {
      Value* p = nullptr;
      if (auto* s = dyn_cast<StoreInst>(&i)) p = s->getPointerOperand();
      else if (auto* a = dyn_cast<AtomicRMWInst>(&i)) p = a->getPointerOperand();
      else if (auto* m = dyn_cast<MemIntrinsic>(&i)) p = m->getDest();
      else if (auto* c = dyn_cast<CallBase>(&i)) {
        Function* t = callee(*c);
        if (t && !t->isDeclaration()) for (unsigned k = 0; k < c->arg_size() && k < t->arg_size(); ++k)
          if (d.count(c->getArgOperand(k)) && par[t].insert(k).second) { if (!from.count(t)) from[t] = c; todo.push_back(t); }
      }
      // a synchronised object is not written to by accident
      if (p && d.count(p) && !isa<AtomicRMWInst>(&i) && wrote.insert(nm(f)).second)
        out.push_back({"C15", "container:" + nm(f).substr(0, nm(f).find('(')), "a reading operation writes to the container at " + at(i) + ", reached by" + path(f)});
    }
  }
  // C18
  static char const* const globals[] = {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t", "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign"};
  long nLib = 0;
  for (auto& f : *M) {
    DISubprogram* sp = f.getSubprogram();
    if (f.isDeclaration() || !sp || sp->getFilename().find("segmented_tree/") == StringRef::npos) continue;
    ++nLib;
    for (auto& i : instructions(f)) if (auto* c = dyn_cast<CallBase>(&i)) {
      Function* t = callee(*c);
      if (!t) continue;
      for (auto g : globals) if (t->getName() == g)
        out.push_back({"C18", "global:" + nm(&f).substr(0, nm(&f).find('(')), nm(&f) + " calls " + nm(t) + " at " + at(i) + " instead of the allocator"});
    }
  }
  // C24
  TargetLibraryInfoImpl tlii(Triple(M->getTargetTriple()));
  for (auto* f : reach["k_"]) {
    if (f->isDeclaration()) continue;
    TargetLibraryInfo tli(tlii, f);
    DominatorTree dt(*f);
    LoopInfo li(dt);
    AssumptionCache ac(*f);
    ScalarEvolution se(*f, tli, ac, dt, li);
    for (auto* l : li.getLoopsInPreorder()) {
      ++nLoops;
      if (se.getSmallConstantMaxTripCount(l)) { ++nConst; continue; }
      out.push_back({"C24", "loop:" + nm(f).substr(0, nm(f).find('(')), "an operation that takes constant time loops at " + at(*l->getHeader()->getFirstNonPHI()) + " in " + nm(f) + ", reached by" + path(f)});
    }
    // recursion
    std::set<Function*> seen;
    std::vector<Function*> st{f};
    bool rec = false;
    while (!st.empty() && !rec) {
      Function* g = st.back();
      st.pop_back();
      if (g->isDeclaration()) continue;
      for (auto& i : instructions(*g)) if (auto* c = dyn_cast<CallBase>(&i)) if (Function* t = callee(*c)) { if (t == f) rec = true; if (seen.insert(t).second) st.push_back(t); }
    }
    if (rec) out.push_back({"C24", "recursion:" + nm(f).substr(0, nm(f).find('(')), "an operation that takes constant time recurses in " + nm(f) + ", reached by" + path(f)});
  }
  std::error_code ec;
  raw_fd_ostream o(argc > 2 ? argv[2] : "-", ec);
  auto esc = [](std::string const& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else r += c; } return r; };
  long defs = 0;
  for (auto& f : *M) if (!f.isDeclaration()) ++defs;
  o << "{\"functions\":" << defs << ",\"noexcept_functions\":" << nf.size() << ",\"call_sites\":" << nCalls << ",\"indirect_calls\":" << nIndirect << ",\"loops_in_constant_time\":" << nLoops << ",\"of_constant_trip_count\":" << nConst << ",\"reader_functions\":" << reach["r_"].size() << ",\"reader_stores\":" << nStores << ",\"functions_given_the_container\":" << nInto << ",\"library_functions\":" << nLib << ",\"constant_time_functions\":" << reach["k_"].size() << ",\"findings\":[";
  bool first = true;
  for (auto& v : out) { o << (first ? "" : ",\n") << "{\"prop\":\"" << v.prop << "\",\"key\":\"" << esc(v.key) << "\",\"text\":\"" << esc(v.text) << "\"}"; first = false; }
  o << "]}\n";
  return 0;
}
