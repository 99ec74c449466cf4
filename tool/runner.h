// Runs scenarios: explores the operation from an abstract initial state, judges the final states, confirms alarms.
#pragma once
#include "scen.h"
#include <chrono>
#include <cstdio>
#include <regex>
typedef std::vector<std::string> PV;
struct Runner {
  Engine& E;
  Config& cfg;
  Scen sc;
  std::regex want;
  long scenarios = 0, exits = 0, throwsN = 0;
  std::vector<std::pair<std::string, Finding>> all;
  std::vector<std::string> list;
  Runner(Engine& e, std::string w) : E(e), cfg(e.cfg), sc(e), want(w) {}
  static Lin PSl(Lin) { return Lin(); }
  std::string group;
  std::pair<int, int> lim{-1, -1};
  std::map<std::string, std::pair<int, int>> cost;  // the most blocks an operation touches, for tuning
  // the operation may touch so many blocks
  static void limit(State& s, int nodes, int segs) { s.limN = nodes; s.limS = segs; }
  void checkCost(State& t, std::string const& name) {
    if (t.limN < 0) return;
    auto& m = cost[group + ":" + name];
    m.first = std::max(m.first, (int)t.tn.size()); m.second = std::max(m.second, (int)t.ts.size());
    int a = t.limN, b = t.limS;
    t.limN = -1;
    if ((int)t.tn.size() > a) throw Bug{"C24", "cost", "the operation touches " + std::to_string(t.tn.size()) + " index nodes, more than the " + std::to_string(a) + " on one path and beside it"};
    if ((int)t.ts.size() > b) throw Bug{"C24", "cost", "the operation touches " + std::to_string(t.ts.size()) + " segments, more than " + std::to_string(b)};
  }
  long index = 0, shard = 0, shards = 1, skipped = 0;
  double deadline = 1e9, most = 1e9;  // of the process, of one scenario
  std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
  // runs one scenario: build sets up the state and arguments, check judges a final state
  // tells how many paths are undecided, -1 if the scenario is not run here; forced: regardless of its number
  bool forced = false;
  long scenario(std::string name, std::string wrapper, PV f, PV x, std::function<std::vector<Val>(State&)> build, std::function<void(State&)> onRet, std::function<void(State&)> onUnw) {
    if (!forced) {
      if (!std::regex_search(group + ":" + name, want)) return -1;
      if (index++ % shards != shard) return -1;
    }
    double at = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
    if (at > deadline) { ++skipped; return -1; }
    timeIsUp = std::min(deadline, at + most);
    llvm::Function* fn = sc.fn(wrapper);
    if (!fn) { fprintf(stderr, "no wrapper %s\n", wrapper.c_str()); exit(2); }
    ++scenarios;
    E.findings.clear();
    auto t0 = std::chrono::steady_clock::now();
    long up0 = E.undecPaths, p0 = E.paths;
    E.steps = 0;
    int v0 = 0, v1 = 0;
    auto once = [&](std::map<int, i64> const* pins, std::vector<Finding>& res) {
      State s;
      std::vector<Val> args;
      size_t seen = 0;
      E.findings.clear();
      auto take = [&](PV const& extra, bool isExc) {
        for (; seen < E.findings.size(); ++seen) {
          Finding fd = E.findings[seen];
          std::set<std::string> ps{fd.prop};
          std::string k = fd.kind;
          bool ub = k == "oob" || k == "null" || k == "uninit" || k == "dangling" || k == "use-after-free" || k == "overlap" || k == "hole" || k == "assign" || k == "construct" || k == "destroy";
          if (ub) ps.insert("C25");
          if (k != "cost" && (isExc || (k != "fill" && k != "leak" && k != "leak-elem" && k != "terminate" && k != "write" && k != "alloc" && k != "iterator" && k != "unwritten"))) for (auto& e : extra) ps.insert(e);
          if (fd.threw && ps.count("C01")) for (auto& e : x) ps.insert(e);  // the exception was met on the way
          fd.props.assign(ps.begin(), ps.end());
          res.push_back(fd);
        }
      };
      std::vector<State> outs;
      int w0 = (int)VT.v.size();
      try {
        args = build(s);
        if (getenv("ST_COST")) limit(s, 9999, 9999);
        else if (lim.first >= 0) limit(s, lim.first, lim.second);
        int w1 = (int)VT.v.size();
        if (!pins) { v0 = w0; v1 = w1; }
        else for (auto& kv : *pins) if (kv.first >= v0 && kv.first < v1) s.n().addEq(Lin::var(w0 + kv.first - v0) - Lin(kv.second));
        outs = E.run(s, fn, args);
      } catch (Undec& u) { E.undec["setup: " + u.why]++; ++E.undecPaths; }
      catch (Bug& b) { E.undec["setup: " + b.msg]++; ++E.undecPaths; }
      catch (Fork& fk) { E.undec["setup forks"]++; ++E.undecPaths; }
      take(f, false);
      for (auto& t : outs) {
        bool unw = t.pend == State::UNW;
        if (!pins) { ++exits; if (unw) ++throwsN; }
        if (t.limN >= 0) E.settle(t, [&](State& c) { checkCost(c, name); });
        t.limN = -1;
        State copy = t;
        E.settle(t, [&](State& c) { if (unw) onUnw(c); else onRet(c); });
        // an element that is not destroyed hides nothing else
        bool leak = false;
        for (size_t i = seen; i < E.findings.size(); ++i) if (E.findings[i].kind == "leak-elem") leak = true;
        if (leak) { sc.skipLeak = true; E.settle(copy, [&](State& c) { if (unw) onUnw(c); else onRet(c); }); sc.skipLeak = false; }
        take(unw ? x : f, unw);
      }
    };
    std::vector<Finding> found;
    once(nullptr, found);
    int tries = 0;
    std::set<std::string> tried;
    std::vector<Finding> extra;
    for (auto& d : found) {
      if (!d.approx) { for (auto& p : d.props) { Finding g = d; g.prop = p; all.push_back({name, g}); } continue; }
      // reached through a loop summary, which over-approximates: confirm on the partition of the witness, without summaries
      if (tries >= 8) { ++E.undecPaths; E.undec["unconfirmed: " + d.msg]++; continue; }
      ++tries;
      long up = E.undecPaths, pp = E.paths;
      auto un = E.undec;
      E.noSummary = true;
      timeIsUp = std::min(deadline, std::max(timeIsUp, std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() + most / 8));
      std::vector<Finding> again;
      once(&d.pins, again);
      E.noSummary = false;
      E.undecPaths = up; E.paths = pp; E.undec = un;
      bool ok = false;
      for (auto& e : again) { ok = true; for (auto& p : e.props) { Finding g = e; g.prop = p; extra.push_back(g); } }
      if (!ok && getenv("ST_U")) fprintf(stderr, "unconfirmed in %s: %s\n%s\n%s\n", name.c_str(), d.msg.c_str(), d.model.c_str(), d.path.c_str());
      if (!ok) { ++E.undecPaths; E.undec["not confirmed without loop summaries: " + d.msg]++; }
    }
    for (auto& e : extra) all.push_back({name, e});
    list.push_back(name + " paths=" + std::to_string(E.paths - p0) + " undecided=" + std::to_string(E.undecPaths - up0) + " steps=" + std::to_string(E.steps));
    long ms = (long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
    if (getenv("ST_V")) fprintf(stderr, "%ld ms %s\n", ms, list.back().c_str());
    return E.undecPaths - up0;
  }
};
void flatScenarios(Runner& R, std::string const& cfg);
