// vpsym: a path-forking symbolic executor for LLVM IR, deciding assertions with z3.
//
// Input : an LLVM bitcode file whose functions vp_h_* are harness entry points.
// Output: JSON with, per harness: paths, forks, instructions, solver queries and time, cover labels reached,
//         violations (with a concrete input vector from the solver's model) and per-path traces (a concrete input
//         vector per path with the observations the encoding predicts for it, for validation against native code).
//
// Memory model: every alloca/global/heap block is a separate object at a concrete address, surrounded by red zones;
// memory contents are byte-wise concrete or symbolic; uninitialised bytes are fresh unconstrained symbols. Out of
// bounds accesses, accesses to dead/freed objects, loads violating !range (e.g. a bool that is neither 0 nor 1),
// division by zero, executing unreachable and unhandled exceptions are violations.
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include <z3++.h>

#include <chrono>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using std::shared_ptr;
using std::string;
using std::vector;

static double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

//----------------------------------------------------------------------------------------------- values
static z3::context * Z;

struct Infeasible // the path turned out to be infeasible
{
};
struct Unsupported
{
  string what;
};

using E = shared_ptr<z3::expr>;

// A scalar of some bit width. 'e' null: concrete value c. Otherwise e is a Bool (width 1) or BitVec(width) term.
struct Val
{
  APInt c{1, 0};
  E e;
  unsigned w() const { return c.getBitWidth(); }
  bool conc() const { return !e; }
  uint64_t u() const { return c.getZExtValue(); }
};

struct RV
{
  Val v;
  shared_ptr<vector<RV>> agg;
};

static Val cv(unsigned w, uint64_t x)
{
  Val r;
  r.c = APInt(w, x);
  return r;
}
static Val cv(APInt const & a)
{
  Val r;
  r.c = a;
  return r;
}

static z3::expr bvconst(APInt const & a)
{
  SmallString<64> s;
  a.toStringUnsigned(s, 10);
  return Z->bv_val(std::string(s.str()).c_str(), a.getBitWidth());
}

static z3::expr ex(Val const & v)
{
  if (v.e)
    return *v.e;
  if (v.w() == 1)
    return Z->bool_val(v.c.getBoolValue());
  return bvconst(v.c);
}

static bool numeralToAPInt(z3::expr const & e, unsigned w, APInt & out)
{
  if (e.is_bool()) {
    if (e.is_true()) {
      out = APInt(1, 1);
      return true;
    }
    if (e.is_false()) {
      out = APInt(1, 0);
      return true;
    }
    return false;
  }
  if (!e.is_numeral())
    return false;
  string s = Z3_get_numeral_string(*Z, e);
  // (wide enough to parse, then truncate)
  APInt a(std::max<unsigned>(w + 8, s.size() * 4 + 8), s, 10);
  out = a.zextOrTrunc(w);
  return true;
}

// Wraps a term, folding it to a concrete value if it simplifies to one.
static Val sv(z3::expr const & e0, unsigned w)
{
  z3::expr e = e0.simplify();
  APInt a;
  if (numeralToAPInt(e, w, a))
    return cv(a);
  Val r;
  r.c = APInt(w, 0);
  r.e = std::make_shared<z3::expr>(e);
  return r;
}

static unsigned long freshCtr = 0;
static Val fresh(unsigned w, string const & name)
{
  Val r;
  r.c = APInt(w, 0);
  string n = name + "!" + std::to_string(freshCtr++);
  r.e = std::make_shared<z3::expr>(w == 1 ? Z->bool_const(n.c_str()) : Z->bv_const(n.c_str(), w));
  return r;
}

static Val extractBits(Val const & v, unsigned lo, unsigned n)
{
  if (lo == 0 && n == v.w())
    return v;
  if (v.conc())
    return cv(v.c.extractBits(n, lo));
  z3::expr x = ex(v).extract(lo + n - 1, lo);
  if (n == 1)
    return sv(x == Z->bv_val(1, 1), 1);
  return sv(x, n);
}

static z3::expr asBV(Val const & v)
{
  z3::expr x = ex(v);
  if (x.is_bool())
    return z3::ite(x, Z->bv_val(1, 1), Z->bv_val(0, 1));
  return x;
}

// hi:lo
static Val concatV(Val const & hi, Val const & lo)
{
  unsigned w = hi.w() + lo.w();
  if (hi.conc() && lo.conc()) {
    APInt a = hi.c.zext(w);
    a <<= lo.w();
    a |= lo.c.zext(w);
    return cv(a);
  }
  return sv(z3::concat(asBV(hi), asBV(lo)), w);
}

static Val vnot(Val const & b)
{
  if (b.conc())
    return cv(1, !b.c.getBoolValue());
  return sv(!ex(b), 1);
}
static Val vand(Val const & a, Val const & b)
{
  if (a.conc())
    return a.c.getBoolValue() ? b : a;
  if (b.conc())
    return b.c.getBoolValue() ? a : b;
  return sv(ex(a) && ex(b), 1);
}
static Val vor(Val const & a, Val const & b)
{
  return vnot(vand(vnot(a), vnot(b)));
}
static Val veq(Val const & a, Val const & b)
{
  if (a.conc() && b.conc())
    return cv(1, a.c == b.c);
  return sv(ex(a) == ex(b), 1);
}
static Val vite(Val const & c, Val const & a, Val const & b)
{
  if (c.conc())
    return c.c.getBoolValue() ? a : b;
  if (a.conc() && b.conc() && a.c == b.c)
    return a;
  return sv(z3::ite(ex(c), ex(a), ex(b)), a.w());
}

//----------------------------------------------------------------------------------------------- memory
struct Byte
{
  E e; // symbolic source term (BitVec), or null
  uint16_t off = 0; // byte offset in e
  uint8_t c = 0; // concrete value if e is null
  bool uninit = true; // not yet materialised
};

enum class OK_ { Stack, Heap, Global, Exc, Func };

struct Obj
{
  uint64_t base = 0, size = 0;
  OK_ kind = OK_::Stack;
  bool alive = true;
  bool readonly = false;
  int deallocKind = 0; // 0 new, 1 malloc, 2 new[]
  string name;
  vector<Byte> b;
};
using ObjP = shared_ptr<Obj>;

struct FnInfo
{
  DenseMap<Value const *, unsigned> num;
  unsigned n = 0;
};

struct Frame
{
  Function * F = nullptr;
  BasicBlock * bb = nullptr, *prev = nullptr;
  BasicBlock::iterator it;
  vector<RV> regs;
  vector<uint64_t> allocas;
  CallBase * site = nullptr; // call instruction in the caller; null for hook frames
  bool hook = false; // pushed by the engine (result discarded)
  FnInfo * info = nullptr;
  uint64_t region = 0; // merge region opened by this call
};

struct Exc
{
  uint64_t addr, ti, dtor;
  int handlers = 0;
  bool rethrown = false;
};

struct SymIn
{
  string name;
  Val v; // the symbol (may be wide)
};

struct State
{
  vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  vector<z3::expr> pc;
  shared_ptr<z3::model> model;
  vector<SymIn> ins;
  vector<Val> obs;
  std::set<string> covers;
  std::map<uint64_t, Exc> excs;
  vector<uint64_t> caught;
  int uncaught = 0;
  uint64_t lpExc = 0; // exception being delivered to a landing pad
  uint64_t bump = 0;
  uint64_t instrs = 0;
  int allowAssert = 0;
  int allowTerminate = 0;
  bool dead = false;
  unsigned depthForks = 0;
  // parked at the return of a call until the other paths through that call have returned, too
  uint64_t parked = 0; // region, 0: not parked
  CallBase * parkSite = nullptr;
  bool parkHook = false, parkHasV = false;
  RV parkV;
  // inside of a side effect free call (region 'lazy') forks are not checked for feasibility
  uint64_t lazy = 0;
  bool lazyForked = false; // forked like that: feasible for sure only if there is a model
};
using StateP = std::unique_ptr<State>;

// Paths which forked inside of a call and return from it with the same return value and in the same state differ
// only in their path conditions: they are merged into one path with the disjunction of the path conditions.
struct MergeGroup
{
  StateP s;
  vector<vector<z3::expr>> pcs;
};
struct Region
{
  uint64_t id;
  size_t n; // size of the worklist when the call started
  bool off = false;
  uint64_t deaths = 0; // value of Engine::deaths when the call started
  unsigned lazyForks = 0;
  vector<MergeGroup> groups;
};

struct Violation
{
  string kind, msg, where;
  vector<std::pair<string, APInt>> ins;
};

struct Trace
{
  vector<std::pair<string, APInt>> ins;
  vector<APInt> obs;
  vector<string> covers;
  string end;
};

//----------------------------------------------------------------------------------------------- engine
struct Limits
{
  uint64_t maxPaths = 200000, maxInstr = 4000000, maxTraces = 24;
  double timeLimit = 300;
  unsigned maxDepth = 400;
  unsigned queryTimeoutMs = 60000;
};

struct Engine
{
  Module & M;
  DataLayout const & DL;
  Limits lim;
  unsigned PW; // pointer width in bits

  // results
  uint64_t paths = 0, forks = 0, instrs = 0, queries = 0, satQ = 0, unsatQ = 0, assertsChecked = 0, assertsSym = 0,
           pathsKilledByAssume = 0, merged = 0;
  double solverTime = 0;
  vector<Violation> viols;
  std::map<string, unsigned> violCount;
  vector<Trace> traces;
  std::set<string> covers;
  std::set<Function *> executed;
  vector<string> problems; // unsupported / limits: result is inconclusive
  double t0 = now();
  bool dumpSmt = false, noMerge = false;
  string smtDir, curHarness;
  unsigned smtDumped = 0;

  std::unordered_map<Constant *, RV> constCache;
  std::unordered_map<GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint64_t, Function *> faddr;
  std::unordered_map<Function *, std::unique_ptr<FnInfo>> finfos;
  std::map<uint64_t, ObjP> globals;
  uint64_t bump0 = 0x1000000;
  std::unordered_map<string, uint64_t> pseudoTi;
  std::unordered_map<uint64_t, int> typeIds;
  vector<StateP> work;
  vector<Region> regions;
  uint64_t regionCtr = 0;
  // Counts everything that makes the path conditions of the paths through a call no partition: paths that ended inside
  // of the call or left it with an exception, and constraints that do not come from a branch.
  uint64_t deaths = 0;
  std::unordered_map<Function *, int> pureCache;

  z3::solver solver;
  vector<z3::expr> solverStack;

  Engine(Module & m, Limits const & l)
    : M(m)
    , DL(m.getDataLayout())
    , lim(l)
    , PW(m.getDataLayout().getPointerSizeInBits(0))
    , solver(*Z)
  {
    z3::params p(*Z);
    p.set("timeout", lim.queryTimeoutMs);
    solver.set(p);
  }

  //--------------------------------------------------------------------------------------- solver
  void sync(State const & s)
  {
    size_t k = 0;
    while (k < solverStack.size() && k < s.pc.size() && z3::eq(solverStack[k], s.pc[k]))
      ++k;
    if (solverStack.size() > k) {
      solver.pop(solverStack.size() - k);
      solverStack.resize(k, Z->bool_val(true));
    }
    for (; k < s.pc.size(); ++k) {
      solver.push();
      solver.add(s.pc[k]);
      solverStack.push_back(s.pc[k]);
    }
  }

  // Is pc && extra satisfiable? 'm' receives the model.
  bool sat(State const & s, z3::expr const & extra, shared_ptr<z3::model> * m = nullptr)
  {
    double t = now();
    sync(s);
    solver.push();
    solver.add(extra);
    ++queries;
    if (dumpSmt && smtDumped < 200) {
      std::ofstream f(smtDir + "/" + curHarness + "_" + std::to_string(smtDumped) + ".smt2");
      f << solver.to_smt2();
    }
    z3::check_result r = solver.check();
    if (r == z3::unknown) {
      z3::solver s2(*Z);
      z3::params p(*Z);
      p.set("timeout", lim.queryTimeoutMs * 3);
      s2.set(p);
      for (auto & c : s.pc)
        s2.add(c);
      s2.add(extra);
      r = s2.check();
      if (r == z3::sat && m)
        *m = std::make_shared<z3::model>(s2.get_model());
    }
    else if (r == z3::sat && m)
      *m = std::make_shared<z3::model>(solver.get_model());
    solver.pop();
    if (dumpSmt && smtDumped < 200) {
      std::ofstream f(smtDir + "/" + curHarness + "_" + std::to_string(smtDumped) + ".res");
      f << (r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unknown") << "\n";
      ++smtDumped;
    }
    solverTime += now() - t;
    if (r == z3::unknown)
      throw Unsupported{"solver returned unknown"};
    (r == z3::sat ? satQ : unsatQ)++;
    return r == z3::sat;
  }

  // Value of a boolean term in the state's cached model: 1/0, or -1 if no model is cached.
  int modelEval(State & s, z3::expr const & c)
  {
    if (!s.model)
      return -1;
    z3::expr r = s.model->eval(c, true).simplify();
    if (r.is_true())
      return 1;
    if (r.is_false())
      return 0;
    return -1;
  }

  void ensureModel(State & s)
  {
    if (!s.model) {
      shared_ptr<z3::model> m;
      if (!sat(s, Z->bool_val(true), &m))
      {
        if (s.lazyForked)
          throw Infeasible{};
        throw Unsupported{"internal: infeasible state"};
      }
      s.model = m;
    }
  }

  // Which truth values can c take? Fills the models.
  void feasible(State & s, Val const & c, bool & canT, bool & canF, shared_ptr<z3::model> & mT, shared_ptr<z3::model> & mF)
  {
    if (c.conc()) {
      canT = c.c.getBoolValue();
      canF = !canT;
      mT = mF = s.model;
      return;
    }
    ensureModel(s);
    z3::expr e = ex(c);
    int me = modelEval(s, e);
    if (me == 1) {
      canT = true;
      mT = s.model;
    }
    else
      canT = sat(s, e, &mT);
    if (me == 0) {
      canF = true;
      mF = s.model;
    }
    else
      canF = sat(s, !e, &mF);
  }

  void addPc(State & s, Val const & c, shared_ptr<z3::model> m)
  {
    if (!c.conc())
      s.pc.push_back(ex(c));
    s.model = m;
  }

  // Concretise: returns all feasible values (up to limit) of v, forking a state for each.
  // The current state takes the first value.
  uint64_t concretize(State & s, Val const & v, std::function<void(State &, uint64_t)> const & onFork, unsigned limit = 256)
  {
    (void)onFork;
    (void)limit;
    if (v.conc())
      return v.u();
    throw Unsupported{"symbolic value where a concrete one is needed"};
  }

  APInt evalIn(z3::model & m, Val const & v)
  {
    if (v.conc())
      return v.c;
    z3::expr r = m.eval(ex(v), true).simplify();
    APInt a(v.w(), 0);
    if (!numeralToAPInt(r, v.w(), a))
      throw Unsupported{"model value is no numeral: " + r.to_string()};
    return a;
  }

  //--------------------------------------------------------------------------------------- reports
  string whereOf(State & s)
  {
    string r;
    unsigned n = 0;
    for (auto it = s.st.rbegin(); it != s.st.rend() && n < 6; ++it, ++n) {
      string nm = demangle(it->F->getName().str());
      if (nm.size() > 160)
        nm = nm.substr(0, 160) + "...";
      if (n)
        r += " <- ";
      r += nm;
      if (it->it != it->bb->end()) {
        auto p = it->it;
        if (n > 0 && p != it->bb->begin())
          --p;
        if (DILocation * L = p->getDebugLoc())
          r += ":" + std::to_string(L->getLine());
      }
    }
    return r;
  }

  void report(State & s, string const & kind, string const & msg, shared_ptr<z3::model> m)
  {
    unsigned & n = violCount[kind + "|" + msg];
    if (n++ >= 3)
      return;
    if (!m) {
      ensureModel(s);
      m = s.model;
    }
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = whereOf(s);
    for (auto & i : s.ins)
      v.ins.push_back({i.name, evalIn(*m, i.v)});
    viols.push_back(std::move(v));
  }

  void kill(State & s)
  {
    s.dead = true;
    ++deaths;
  }

  void fail(State & s, string const & kind, string const & msg)
  {
    report(s, kind, msg, nullptr);
    kill(s);
  }

  void endPath(State & s, string const & how)
  {
    ++paths;
    for (auto & c : s.covers)
      covers.insert(c);
    if (traces.size() < lim.maxTraces) {
      ensureModel(s);
      Trace t;
      for (auto & i : s.ins)
        t.ins.push_back({i.name, evalIn(*s.model, i.v)});
      for (auto & o : s.obs)
        t.obs.push_back(evalIn(*s.model, o));
      t.covers.assign(s.covers.begin(), s.covers.end());
      t.end = how;
      traces.push_back(std::move(t));
    }
    kill(s);
  }

  //--------------------------------------------------------------------------------------- memory
  uint64_t allocate(State & s, uint64_t size, uint64_t align, OK_ kind, string const & name)
  {
    if (align < 16)
      align = 16;
    uint64_t a = (s.bump + 32 + align - 1) / align * align;
    s.bump = a + size + 32;
    if (PW == 32 && s.bump > 0x70000000)
      throw Unsupported{"address space exhausted"};
    auto o = std::make_shared<Obj>();
    o->base = a;
    o->size = size;
    o->kind = kind;
    o->name = name;
    o->b.resize(size);
    s.mem[a] = o;
    return a;
  }

  ObjP * find(State & s, uint64_t addr)
  {
    auto it = s.mem.upper_bound(addr);
    if (it == s.mem.begin())
      return nullptr;
    --it;
    if (addr >= it->second->base + it->second->size)
      return nullptr;
    return &it->second;
  }

  // Returns null and reports if invalid.
  ObjP * access(State & s, uint64_t addr, uint64_t n, bool write, char const * what)
  {
    ObjP * o = find(s, addr);
    if (!o) {
      fail(s, "memory", string("invalid ") + (write ? "write" : "read") + " (" + what + ")");
      return nullptr;
    }
    if (!(*o)->alive) {
      fail(s, "memory", string((*o)->kind == OK_::Heap ? "use after free" : "use after end of lifetime") + " of " + (*o)->name);
      return nullptr;
    }
    if (addr + n > (*o)->base + (*o)->size) {
      fail(s, "memory", string("out of bounds ") + (write ? "write to " : "read of ") + (*o)->name);
      return nullptr;
    }
    if (write && (*o)->readonly) {
      fail(s, "memory", "write to read-only memory: " + (*o)->name);
      return nullptr;
    }
    if (write && o->use_count() > 1)
      *o = std::make_shared<Obj>(**o);
    return o;
  }

  Byte & mat(Obj & o, uint64_t i)
  {
    Byte & b = o.b[i];
    if (b.uninit) {
      Val f = fresh(8, "uninit");
      b.e = f.e;
      b.off = 0;
      b.uninit = false;
    }
    return b;
  }

  // Materialising uninitialised bytes modifies the object, so unshare it first (the symbol must be stable).
  void matRange(ObjP * o, uint64_t off, uint64_t n)
  {
    bool need = false;
    for (uint64_t i = 0; i < n && !need; ++i)
      need = (*o)->b[off + i].uninit;
    if (!need)
      return;
    if (o->use_count() > 1)
      *o = std::make_shared<Obj>(**o);
    for (uint64_t i = 0; i < n; ++i)
      mat(**o, off + i);
  }

  Val readBytes(Obj & o, uint64_t off, uint64_t n)
  {
    // Whole term?
    Byte & b0 = o.b[off];
    if (b0.e && b0.off == 0 && b0.e->get_sort().bv_size() == n * 8) {
      bool ok = true;
      for (uint64_t i = 1; i < n && ok; ++i)
        ok = o.b[off + i].e && z3::eq(*o.b[off + i].e, *b0.e) && o.b[off + i].off == i;
      if (ok) {
        Val r;
        r.c = APInt(n * 8, 0);
        r.e = b0.e;
        return r;
      }
    }
    bool allConc = true;
    for (uint64_t i = 0; i < n && allConc; ++i)
      allConc = !o.b[off + i].e;
    if (allConc) {
      APInt a(n * 8, 0);
      for (uint64_t i = 0; i < n; ++i)
        a.insertBits(uint64_t(o.b[off + i].c), i * 8, 8);
      return cv(a);
    }
    // Group runs.
    Val acc;
    bool have = false;
    uint64_t i = 0;
    while (i < n) {
      Byte & b = o.b[off + i];
      uint64_t j = i + 1;
      Val piece;
      if (b.e) {
        while (j < n && o.b[off + j].e && z3::eq(*o.b[off + j].e, *b.e) && o.b[off + j].off == b.off + (j - i))
          ++j;
        Val whole;
        whole.c = APInt(b.e->get_sort().bv_size(), 0);
        whole.e = b.e;
        piece = extractBits(whole, b.off * 8, (j - i) * 8);
      }
      else {
        while (j < n && !o.b[off + j].e)
          ++j;
        APInt a((j - i) * 8, 0);
        for (uint64_t k = i; k < j; ++k)
          a.insertBits(uint64_t(o.b[off + k].c), (k - i) * 8, 8);
        piece = cv(a);
      }
      acc = have ? concatV(piece, acc) : piece;
      have = true;
      i = j;
    }
    return acc;
  }

  void writeBytes(Obj & o, uint64_t off, Val v)
  {
    unsigned n = v.w() / 8;
    if (v.conc()) {
      for (unsigned i = 0; i < n; ++i) {
        Byte & b = o.b[off + i];
        b.e.reset();
        b.off = 0;
        b.uninit = false;
        b.c = (uint8_t)v.c.extractBitsAsZExtValue(8, i * 8);
      }
    }
    else {
      for (unsigned i = 0; i < n; ++i) {
        Byte & b = o.b[off + i];
        b.e = v.e;
        b.off = i;
        b.uninit = false;
      }
    }
  }

  Val toBytesWidth(Val const & v) // pad to a multiple of 8 bits
  {
    unsigned w = v.w(), pw = (w + 7) / 8 * 8;
    if (w == pw)
      return v;
    if (v.conc())
      return cv(v.c.zext(pw));
    if (w == 1)
      return sv(z3::ite(ex(v), Z->bv_val(1, pw), Z->bv_val(0, pw)), pw);
    return sv(z3::zext(ex(v), pw - w), pw);
  }

  void store(State & s, uint64_t addr, RV const & v, Type * T)
  {
    if (T->isStructTy() || T->isArrayTy() || (T->isVectorTy() && v.agg)) {
      unsigned n = v.agg ? v.agg->size() : 0;
      for (unsigned i = 0; i < n; ++i) {
        Type * ET;
        uint64_t off = elemOffset(T, i, ET);
        store(s, addr + off, (*v.agg)[i], ET);
        if (s.dead)
          return;
      }
      return;
    }
    uint64_t n = DL.getTypeStoreSize(T);
    ObjP * o = access(s, addr, n, true, "store");
    if (!o)
      return;
    Val b = toBytesWidth(v.v);
    if (b.w() != n * 8)
      throw Unsupported{"store width"};
    writeBytes(**o, addr - (*o)->base, b);
  }

  uint64_t elemOffset(Type * T, unsigned i, Type *& ET)
  {
    if (auto * ST = dyn_cast<StructType>(T)) {
      ET = ST->getElementType(i);
      return DL.getStructLayout(ST)->getElementOffset(i);
    }
    if (auto * AT = dyn_cast<ArrayType>(T)) {
      ET = AT->getElementType();
      return i * DL.getTypeAllocSize(ET);
    }
    auto * VT = cast<FixedVectorType>(T);
    ET = VT->getElementType();
    if (DL.getTypeSizeInBits(ET) % 8)
      throw Unsupported{"vector of odd-sized elements in memory"};
    return i * DL.getTypeStoreSize(ET);
  }

  unsigned numElems(Type * T)
  {
    if (auto * ST = dyn_cast<StructType>(T))
      return ST->getNumElements();
    if (auto * AT = dyn_cast<ArrayType>(T))
      return AT->getNumElements();
    return cast<FixedVectorType>(T)->getNumElements();
  }
  Type * elemType(Type * T, unsigned i)
  {
    if (auto * ST = dyn_cast<StructType>(T))
      return ST->getElementType(i);
    if (auto * AT = dyn_cast<ArrayType>(T))
      return AT->getElementType();
    return cast<FixedVectorType>(T)->getElementType();
  }

  RV load(State & s, uint64_t addr, Type * T)
  {
    RV r;
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      r.agg = std::make_shared<vector<RV>>();
      for (unsigned i = 0; i < numElems(T); ++i) {
        Type * ET;
        uint64_t off = elemOffset(T, i, ET);
        r.agg->push_back(load(s, addr + off, ET));
        if (s.dead)
          return r;
      }
      return r;
    }
    uint64_t n = DL.getTypeStoreSize(T);
    unsigned bits = DL.getTypeSizeInBits(T);
    ObjP * o = access(s, addr, n, false, "load");
    if (!o)
      return r;
    matRange(o, addr - (*o)->base, n);
    Val v = readBytes(**o, addr - (*o)->base, n);
    r.v = extractBits(v, 0, bits);
    return r;
  }

  //--------------------------------------------------------------------------------------- constants
  unsigned widthOf(Type * T) { return DL.getTypeSizeInBits(T); }

  RV undefOf(Type * T)
  {
    RV r;
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      r.agg = std::make_shared<vector<RV>>();
      for (unsigned i = 0; i < numElems(T); ++i)
        r.agg->push_back(undefOf(elemType(T, i)));
    }
    else
      r.v = fresh(widthOf(T), "undef");
    return r;
  }
  RV zeroOf(Type * T)
  {
    RV r;
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      r.agg = std::make_shared<vector<RV>>();
      for (unsigned i = 0; i < numElems(T); ++i)
        r.agg->push_back(zeroOf(elemType(T, i)));
    }
    else
      r.v = cv(widthOf(T), 0);
    return r;
  }

  RV evalConst(Constant * C)
  {
    if (isa<UndefValue>(C))
      return undefOf(C->getType());
    auto it = constCache.find(C);
    if (it != constCache.end())
      return it->second;
    RV r = evalConst1(C);
    constCache[C] = r;
    return r;
  }

  RV evalConst1(Constant * C)
  {
    RV r;
    if (auto * CI = dyn_cast<ConstantInt>(C)) {
      r.v = cv(CI->getValue());
      return r;
    }
    if (auto * CF = dyn_cast<ConstantFP>(C)) {
      r.v = cv(CF->getValueAPF().bitcastToAPInt());
      return r;
    }
    if (isa<ConstantPointerNull>(C)) {
      r.v = cv(PW, 0);
      return r;
    }
    if (isa<ConstantAggregateZero>(C))
      return zeroOf(C->getType());
    if (auto * GV = dyn_cast<GlobalValue>(C)) {
      r.v = cv(PW, addrOf(GV));
      return r;
    }
    if (auto * CDS = dyn_cast<ConstantDataSequential>(C)) {
      r.agg = std::make_shared<vector<RV>>();
      for (unsigned i = 0; i < CDS->getNumElements(); ++i)
        r.agg->push_back(evalConst(CDS->getElementAsConstant(i)));
      return r;
    }
    if (auto * CA = dyn_cast<ConstantAggregate>(C)) {
      r.agg = std::make_shared<vector<RV>>();
      for (unsigned i = 0; i < CA->getNumOperands(); ++i)
        r.agg->push_back(evalConst(CA->getOperand(i)));
      return r;
    }
    if (auto * CE = dyn_cast<ConstantExpr>(C)) {
      Instruction * I = CE->getAsInstruction();
      vector<RV> ops;
      for (auto & op : CE->operands())
        ops.push_back(evalConst(cast<Constant>(op)));
      RV x;
      if (auto * G = dyn_cast<GetElementPtrInst>(I))
        x = gep(cast<GEPOperator>(G), ops);
      else if (I->isCast())
        x = castOp(I->getOpcode(), ops[0], CE->getOperand(0)->getType(), CE->getType());
      else if (I->isBinaryOp())
        x.v = binop(I->getOpcode(), ops[0].v, ops[1].v, CE->getType());
      else if (auto * IC = dyn_cast<ICmpInst>(I))
        x.v = icmp(IC->getPredicate(), ops[0].v, ops[1].v);
      else {
        I->deleteValue();
        throw Unsupported{"constant expression"};
      }
      I->deleteValue();
      return x;
    }
    if (isa<DSOLocalEquivalent>(C) || isa<NoCFIValue>(C) || isa<BlockAddress>(C))
      throw Unsupported{"constant kind"};
    throw Unsupported{"constant"};
  }

  uint64_t addrOf(GlobalValue * GV)
  {
    if (auto * A = dyn_cast<GlobalAlias>(GV)) {
      RV r = evalConst(A->getAliasee());
      return r.v.u();
    }
    auto it = gaddr.find(GV);
    if (it != gaddr.end())
      return it->second;
    throw Unsupported{"global without address: " + GV->getName().str()};
  }

  //--------------------------------------------------------------------------------------- setup
  void setupGlobals()
  {
    uint64_t fa = 0x10000;
    for (Function & F : M) {
      gaddr[&F] = fa;
      faddr[fa] = &F;
      fa += 16;
    }
    uint64_t ga = (fa + 0xffff) & ~uint64_t(0xfff);
    vector<GlobalVariable *> defs;
    for (GlobalVariable & G : M.globals()) {
      uint64_t size = 64;
      if (G.getValueType()->isSized())
        size = DL.getTypeAllocSize(G.getValueType());
      if (G.isDeclaration())
        size = std::max<uint64_t>(size, 128);
      uint64_t al = std::max<uint64_t>(32, G.getAlign() ? G.getAlign()->value() : 16);
      ga = (ga + 32 + al - 1) / al * al;
      gaddr[&G] = ga;
      auto o = std::make_shared<Obj>();
      o->base = ga;
      o->size = size;
      o->kind = OK_::Global;
      o->name = G.getName().str();
      o->readonly = G.isConstant();
      o->b.resize(size);
      globals[ga] = o;
      ga += size;
      if (!G.isDeclaration())
        defs.push_back(&G);
    }
    if (ga > bump0)
      bump0 = (ga + 0xfffff) & ~uint64_t(0xfffff);
    for (auto * G : defs)
      initGlobal(*globals[gaddr[G]], 0, G->getInitializer());
  }

  void initGlobal(Obj & o, uint64_t off, Constant * C)
  {
    Type * T = C->getType();
    if (isa<UndefValue>(C))
      return;
    if (isa<ConstantAggregateZero>(C)) {
      uint64_t n = DL.getTypeAllocSize(T);
      writeBytes(o, off, cv(APInt(n * 8, 0)));
      return;
    }
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      for (unsigned i = 0; i < numElems(T); ++i) {
        Type * ET;
        uint64_t eo = elemOffset(T, i, ET);
        initGlobal(o, off + eo, C->getAggregateElement(i));
      }
      return;
    }
    RV r = evalConst(C);
    writeBytes(o, off, toBytesWidth(r.v));
  }

  FnInfo * info(Function * F)
  {
    auto & p = finfos[F];
    if (!p) {
      p = std::make_unique<FnInfo>();
      for (auto & A : F->args())
        p->num[&A] = p->n++;
      for (auto & B : *F)
        for (auto & I : B)
          if (!I.getType()->isVoidTy())
            p->num[&I] = p->n++;
    }
    return p.get();
  }

  //--------------------------------------------------------------------------------------- operators
  RV eval(State & s, Value * V)
  {
    if (auto * C = dyn_cast<Constant>(V))
      return evalConst(C);
    Frame & f = s.st.back();
    auto it = f.info->num.find(V);
    if (it == f.info->num.end())
      throw Unsupported{"operand kind"};
    return f.regs[it->second];
  }
  void setReg(Frame & f, Instruction * I, RV r)
  {
    auto it = f.info->num.find(I);
    if (it != f.info->num.end())
      f.regs[it->second] = std::move(r);
  }

  Val resize(Val const & v, unsigned w, bool sgn)
  {
    if (v.w() == w)
      return v;
    if (v.conc())
      return cv(sgn ? v.c.sextOrTrunc(w) : v.c.zextOrTrunc(w));
    if (w < v.w())
      return extractBits(v, 0, w);
    if (v.w() == 1) {
      if (sgn)
        return sv(z3::ite(ex(v), bvconst(APInt::getAllOnes(w)), bvconst(APInt(w, 0))), w);
      return sv(z3::ite(ex(v), bvconst(APInt(w, 1)), bvconst(APInt(w, 0))), w);
    }
    return sv(sgn ? z3::sext(ex(v), w - v.w()) : z3::zext(ex(v), w - v.w()), w);
  }

  Val add(Val const & a, Val const & b) { return binop(Instruction::Add, a, b, nullptr); }
  Val mul(Val const & a, Val const & b) { return binop(Instruction::Mul, a, b, nullptr); }

  RV gep(GEPOperator * G, vector<RV> const & ops)
  {
    if (G->getType()->isVectorTy())
      throw Unsupported{"vector gep"};
    Val p = ops[0].v;
    unsigned oi = 1;
    for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++oi) {
      Val idx = ops[oi].v;
      if (StructType * ST = gi.getStructTypeOrNull()) {
        uint64_t off = DL.getStructLayout(ST)->getElementOffset(idx.u());
        p = add(p, cv(PW, off));
      }
      else {
        uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
        Val i2 = resize(idx, PW, true);
        p = add(p, mul(i2, cv(PW, sz)));
      }
    }
    RV r;
    r.v = p;
    return r;
  }

  //--- floating point
  z3::sort fpSort(Type * T)
  {
    if (T->isFloatTy())
      return Z->fpa_sort(8, 24);
    if (T->isDoubleTy())
      return Z->fpa_sort(11, 53);
    if (T->isX86_FP80Ty())
      return Z->fpa_sort(15, 64);
    if (T->isHalfTy())
      return Z->fpa_sort(5, 11);
    if (T->isBFloatTy())
      return Z->fpa_sort(8, 8);
    if (T->isFP128Ty())
      return Z->fpa_sort(15, 113);
    throw Unsupported{"floating point type"};
  }
  z3::expr toFP(Val const & v, Type * T)
  {
    z3::expr b = asBV(v);
    if (T->isX86_FP80Ty()) // drop the explicit integer bit
      b = z3::concat(b.extract(79, 64), b.extract(62, 0));
    return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, b, fpSort(T)));
  }
  Val fromFP(z3::expr const & f, Type * T)
  {
    z3::expr b(*Z, Z3_mk_fpa_to_ieee_bv(*Z, f));
    if (T->isX86_FP80Ty()) {
      z3::expr e = b.extract(77, 63);
      z3::expr ib = z3::ite(e == Z->bv_val(0, 15), Z->bv_val(0, 1), Z->bv_val(1, 1));
      b = z3::concat(z3::concat(b.extract(78, 63), ib), b.extract(62, 0));
    }
    return sv(b, widthOf(T));
  }
  z3::expr rne() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }
  z3::expr rtz() { return z3::expr(*Z, Z3_mk_fpa_rtz(*Z)); }

  APFloat apf(Val const & v, Type * T) { return APFloat(T->getFltSemantics(), v.c); }

  Val fcmp(CmpInst::Predicate P, Val const & a, Val const & b, Type * T)
  {
    if (P == CmpInst::FCMP_FALSE)
      return cv(1, 0);
    if (P == CmpInst::FCMP_TRUE)
      return cv(1, 1);
    bool orMask[4]; // lt, eq, gt, uno
    auto in = [&](unsigned bit) { return (unsigned(P) >> bit) & 1; };
    // LLVM encoding: bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
    orMask[0] = in(2);
    orMask[1] = in(0);
    orMask[2] = in(1);
    orMask[3] = in(3);
    if (a.conc() && b.conc()) {
      switch (apf(a, T).compare(apf(b, T))) {
      case APFloat::cmpLessThan: return cv(1, orMask[0]);
      case APFloat::cmpEqual: return cv(1, orMask[1]);
      case APFloat::cmpGreaterThan: return cv(1, orMask[2]);
      default: return cv(1, orMask[3]);
      }
    }
    z3::expr x = toFP(a, T), y = toFP(b, T);
    z3::expr r = Z->bool_val(false);
    if (orMask[0])
      r = r || z3::expr(*Z, Z3_mk_fpa_lt(*Z, x, y));
    if (orMask[1])
      r = r || z3::expr(*Z, Z3_mk_fpa_eq(*Z, x, y));
    if (orMask[2])
      r = r || z3::expr(*Z, Z3_mk_fpa_gt(*Z, x, y));
    if (orMask[3])
      r = r || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x)) || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, y));
    return sv(r, 1);
  }

  Val icmp(CmpInst::Predicate P, Val const & a, Val const & b)
  {
    if (a.conc() && b.conc())
      return cv(1, ICmpInst::compare(a.c, b.c, P));
    if (a.w() == 1) {
      // bools: widen
      return icmp(P, resize(a, 8, CmpInst::isSigned(P)), resize(b, 8, CmpInst::isSigned(P)));
    }
    z3::expr x = ex(a), y = ex(b);
    switch (P) {
    case CmpInst::ICMP_EQ: return sv(x == y, 1);
    case CmpInst::ICMP_NE: return sv(x != y, 1);
    case CmpInst::ICMP_UGT: return sv(z3::ugt(x, y), 1);
    case CmpInst::ICMP_UGE: return sv(z3::uge(x, y), 1);
    case CmpInst::ICMP_ULT: return sv(z3::ult(x, y), 1);
    case CmpInst::ICMP_ULE: return sv(z3::ule(x, y), 1);
    case CmpInst::ICMP_SGT: return sv(x > y, 1);
    case CmpInst::ICMP_SGE: return sv(x >= y, 1);
    case CmpInst::ICMP_SLT: return sv(x < y, 1);
    case CmpInst::ICMP_SLE: return sv(x <= y, 1);
    default: throw Unsupported{"icmp"};
    }
  }

  Val binop(unsigned op, Val const & a, Val const & b, Type * T)
  {
    unsigned w = a.w();
    if (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv
        || op == Instruction::FRem) {
      if (a.conc() && b.conc()) {
        APFloat x = apf(a, T), y = apf(b, T);
        auto rm = APFloat::rmNearestTiesToEven;
        switch (op) {
        case Instruction::FAdd: x.add(y, rm); break;
        case Instruction::FSub: x.subtract(y, rm); break;
        case Instruction::FMul: x.multiply(y, rm); break;
        case Instruction::FDiv: x.divide(y, rm); break;
        default: x.mod(y); break;
        }
        return cv(x.bitcastToAPInt());
      }
      z3::expr x = toFP(a, T), y = toFP(b, T);
      switch (op) {
      case Instruction::FAdd: return fromFP(z3::expr(*Z, Z3_mk_fpa_add(*Z, rne(), x, y)), T);
      case Instruction::FSub: return fromFP(z3::expr(*Z, Z3_mk_fpa_sub(*Z, rne(), x, y)), T);
      case Instruction::FMul: return fromFP(z3::expr(*Z, Z3_mk_fpa_mul(*Z, rne(), x, y)), T);
      case Instruction::FDiv: return fromFP(z3::expr(*Z, Z3_mk_fpa_div(*Z, rne(), x, y)), T);
      default: throw Unsupported{"frem"};
      }
    }
    if (a.conc() && b.conc()) {
      APInt const &x = a.c, &y = b.c;
      switch (op) {
      case Instruction::Add: return cv(x + y);
      case Instruction::Sub: return cv(x - y);
      case Instruction::Mul: return cv(x * y);
      case Instruction::And: return cv(x & y);
      case Instruction::Or: return cv(x | y);
      case Instruction::Xor: return cv(x ^ y);
      case Instruction::Shl: return y.uge(w) ? fresh(w, "poison") : cv(x.shl(y));
      case Instruction::LShr: return y.uge(w) ? fresh(w, "poison") : cv(x.lshr(y));
      case Instruction::AShr: return y.uge(w) ? fresh(w, "poison") : cv(x.ashr(y));
      case Instruction::UDiv: return cv(x.udiv(y));
      case Instruction::SDiv: return cv(x.sdiv(y));
      case Instruction::URem: return cv(x.urem(y));
      case Instruction::SRem: return cv(x.srem(y));
      default: throw Unsupported{"binop"};
      }
    }
    if (w == 1) {
      z3::expr x = ex(a), y = ex(b);
      switch (op) {
      case Instruction::And: return sv(x && y, 1);
      case Instruction::Or: return sv(x || y, 1);
      case Instruction::Xor:
      case Instruction::Add:
      case Instruction::Sub: return sv(x != y, 1);
      case Instruction::Mul: return sv(x && y, 1);
      case Instruction::Shl:
      case Instruction::LShr: return sv(x && !y, 1);
      default: throw Unsupported{"i1 binop"};
      }
    }
    // cheap identities
    if (b.conc() && b.c.isZero() && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr))
      return a;
    z3::expr x = ex(a), y = ex(b);
    switch (op) {
    case Instruction::Add: return sv(x + y, w);
    case Instruction::Sub: return sv(x - y, w);
    case Instruction::Mul: return sv(x * y, w);
    case Instruction::And: return sv(x & y, w);
    case Instruction::Or: return sv(x | y, w);
    case Instruction::Xor: return sv(x ^ y, w);
    case Instruction::Shl: return sv(z3::shl(x, y), w);
    case Instruction::LShr: return sv(z3::lshr(x, y), w);
    case Instruction::AShr: return sv(z3::ashr(x, y), w);
    case Instruction::UDiv: return sv(z3::udiv(x, y), w);
    case Instruction::SDiv: return sv(x / y, w);
    case Instruction::URem: return sv(z3::urem(x, y), w);
    case Instruction::SRem: return sv(z3::srem(x, y), w);
    default: throw Unsupported{"binop"};
    }
  }

  vector<z3::expr> lemmas; // consequences of the last cast, added to the path condition
  RV castOp(unsigned op, RV const & a, Type * ST, Type * DT)
  {
    RV r;
    if (op == Instruction::BitCast) {
      bool sa = (bool)a.agg, da = DT->isVectorTy();
      if (!sa && !da)
        return a;
      Val flat = a.v;
      if (sa) {
        bool first = true;
        for (auto & x : *a.agg) {
          flat = first ? x.v : concatV(x.v, flat);
          first = false;
        }
      }
      if (!da) {
        r.v = flat;
        return r;
      }
      unsigned n = numElems(DT), ew = widthOf(elemType(DT, 0));
      r.agg = std::make_shared<vector<RV>>();
      for (unsigned i = 0; i < n; ++i) {
        RV x;
        x.v = extractBits(flat, i * ew, ew);
        r.agg->push_back(x);
      }
      return r;
    }
    if (a.agg) {
      r.agg = std::make_shared<vector<RV>>();
      for (auto & x : *a.agg)
        r.agg->push_back(castOp(op, x, ST->getScalarType(), DT->getScalarType()));
      return r;
    }
    unsigned w = widthOf(DT);
    switch (op) {
    case Instruction::Trunc:
    case Instruction::ZExt:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::AddrSpaceCast: r.v = resize(a.v, w, false); return r;
    case Instruction::SExt: r.v = resize(a.v, w, true); return r;
    case Instruction::FPTrunc:
    case Instruction::FPExt: {
      if (a.v.conc()) {
        APFloat f = apf(a.v, ST);
        bool li;
        f.convert(DT->getFltSemantics(), APFloat::rmNearestTiesToEven, &li);
        r.v = cv(f.bitcastToAPInt());
      }
      else
        r.v = fromFP(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), toFP(a.v, ST), fpSort(DT))), DT);
      return r;
    }
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
      bool sg = op == Instruction::SIToFP;
      if (a.v.conc()) {
        APFloat f(DT->getFltSemantics());
        f.convertFromAPInt(a.v.c, sg, APFloat::rmNearestTiesToEven);
        r.v = cv(f.bitcastToAPInt());
      }
      else {
        z3::expr b = asBV(a.v);
        r.v = fromFP(
            z3::expr(
                *Z,
                sg ? Z3_mk_fpa_to_fp_signed(*Z, rne(), b, fpSort(DT)) : Z3_mk_fpa_to_fp_unsigned(*Z, rne(), b, fpSort(DT))),
            DT);
        // A finite result (|i| < 2^64): implied by the term above, stated to spare the solver the rounding circuit.
        if ((DT->isDoubleTy() || DT->isFloatTy()) && widthOf(ST) <= 64) {
          z3::expr e = DT->isDoubleTy() ? asBV(r.v).extract(62, 52) : asBV(r.v).extract(30, 23);
          lemmas.push_back(e != ~Z->bv_val(0, e.get_sort().bv_size()));
        }
      }
      return r;
    }
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
      bool sg = op == Instruction::FPToSI;
      if (a.v.conc()) {
        APSInt i(w, !sg);
        bool exact;
        apf(a.v, ST).convertToInteger(i, APFloat::rmTowardZero, &exact);
        r.v = cv(i);
      }
      else
        r.v = sv(
            z3::expr(
                *Z,
                sg ? Z3_mk_fpa_to_sbv(*Z, rtz(), toFP(a.v, ST), w) : Z3_mk_fpa_to_ubv(*Z, rtz(), toFP(a.v, ST), w)),
            w);
      return r;
    }
    default: throw Unsupported{"cast"};
    }
  }

  //--------------------------------------------------------------------------------------- control
  void jump(State & s, BasicBlock * to)
  {
    Frame & f = s.st.back();
    f.prev = f.bb;
    f.bb = to;
    f.it = to->begin();
    // phis, in parallel
    vector<std::pair<Instruction *, RV>> vals;
    for (auto & I : *to) {
      auto * P = dyn_cast<PHINode>(&I);
      if (!P)
        break;
      vals.push_back({P, eval(s, P->getIncomingValueForBlock(f.prev))});
      ++f.it;
    }
    for (auto & p : vals)
      setReg(s.st.back(), p.first, p.second);
  }

  StateP clone(State & s)
  {
    ++forks;
    auto n = std::make_unique<State>(s);
    n->depthForks++;
    return n;
  }

  // Forks on a pointer/integer term until it is concrete; 'retry' re-executes the current instruction in every fork.
  // Returns true if v is concrete in s (then val set); false: s has been split, the current instruction must be
  // re-executed (instruction pointer left on it).
  bool makeConcrete(State & s, Val const & v, uint64_t & val, unsigned limit = 300)
  {
    if (v.conc()) {
      val = v.u();
      return true;
    }
    ensureModel(s);
    // enumerate all values
    vector<std::pair<APInt, shared_ptr<z3::model>>> vs;
    State tmp = s;
    while (true) {
      shared_ptr<z3::model> m;
      if (vs.empty())
        m = s.model;
      else if (!sat(tmp, Z->bool_val(true), &m))
        break;
      APInt x = evalIn(*m, v);
      vs.push_back({x, m});
      if (vs.size() > limit) {
        throw Unsupported{"symbolic value with too many possibilities"};
      }
      tmp.pc.push_back(ex(v) != bvconst(x));
    }
    if (vs.size() == 1) {
      val = vs[0].first.getZExtValue();
      return true;
    }
    for (size_t i = 1; i < vs.size(); ++i) {
      auto n = clone(s);
      n->pc.push_back(ex(v) == bvconst(vs[i].first));
      n->model = vs[i].second;
      work.push_back(std::move(n));
    }
    s.pc.push_back(ex(v) == bvconst(vs[0].first));
    s.model = vs[0].second;
    val = vs[0].first.getZExtValue();
    return true;
  }

  void popFrame(State & s)
  {
    for (uint64_t a : s.st.back().allocas)
      s.mem.erase(a);
    s.st.pop_back();
  }

  void ret(State & s, RV const * v)
  {
    CallBase * site = s.st.back().site;
    bool hook = s.st.back().hook;
    uint64_t region = s.st.back().region;
    popFrame(s);
    if (s.st.empty()) {
      endPath(s, "return");
      return;
    }
    while (!regions.empty() && regions.back().id != region && regions.back().groups.empty() && regions.back().n >= work.size())
      regions.pop_back(); // left by an exception
    for (size_t i = regions.size(); i-- > 0;)
      if (regions[i].id == region) {
        if (regions[i].off && s.lazy != region)
          break;
        if (i + 1 == regions.size() && regions[i].groups.empty() && regions[i].n >= work.size()
            && (s.lazy != region || !s.lazyForked)) {
          regions.pop_back(); // the only path
          if (s.lazy == region)
            s.lazy = 0;
          break;
        }
        s.parked = region;
        s.parkSite = site;
        s.parkHook = hook;
        s.parkHasV = v != nullptr;
        if (v)
          s.parkV = *v;
        return;
      }
    if (hook)
      return; // caller's instruction pointer already advanced
    afterCall(s, site, v);
  }

  static bool sameE(E const & a, E const & b)
  {
    return a == b || (a && b && z3::eq(*a, *b));
  }
  static bool sameV(Val const & a, Val const & b)
  {
    return a.w() == b.w() && !a.e == !b.e && (a.e ? sameE(a.e, b.e) : a.c == b.c);
  }
  static bool sameRV(RV const & a, RV const & b)
  {
    if (!a.agg != !b.agg)
      return false;
    if (!a.agg)
      return sameV(a.v, b.v);
    if (a.agg->size() != b.agg->size())
      return false;
    for (size_t i = 0; i < a.agg->size(); ++i)
      if (!sameRV((*a.agg)[i], (*b.agg)[i]))
        return false;
    return true;
  }
  static bool sameObj(ObjP const & a, ObjP const & b)
  {
    if (a == b)
      return true;
    if (a->size != b->size || a->kind != b->kind || a->alive != b->alive || a->readonly != b->readonly
        || a->deallocKind != b->deallocKind || a->b.size() != b->b.size())
      return false;
    for (size_t i = 0; i < a->b.size(); ++i) {
      Byte const &x = a->b[i], &y = b->b[i];
      if (x.uninit != y.uninit)
        return false;
      if (x.uninit)
        continue;
      if (!x.e != !y.e || (x.e ? x.off != y.off || !sameE(x.e, y.e) : x.c != y.c))
        return false;
    }
    return true;
  }
  // Do the two states, parked at the return of the same call, differ in nothing but the path condition?
  static bool sameState(State const & a, State const & b)
  {
    if (a.parkHasV != b.parkHasV || (a.parkHasV && !sameRV(a.parkV, b.parkV)))
      return false;
    if (a.st.size() != b.st.size() || a.ins.size() != b.ins.size() || a.obs.size() != b.obs.size()
        || a.mem.size() != b.mem.size() || a.excs.size() != b.excs.size() || a.caught != b.caught
        || a.uncaught != b.uncaught || a.lpExc != b.lpExc || a.allowAssert != b.allowAssert
        || a.allowTerminate != b.allowTerminate || a.covers != b.covers)
      return false;
    for (size_t i = a.ins.size(); i-- > 0;)
      if (a.ins[i].name != b.ins[i].name || !sameV(a.ins[i].v, b.ins[i].v))
        return false;
    for (size_t i = a.obs.size(); i-- > 0;)
      if (!sameV(a.obs[i], b.obs[i]))
        return false;
    for (auto i = a.excs.begin(), j = b.excs.begin(); i != a.excs.end(); ++i, ++j)
      if (i->first != j->first || i->second.ti != j->second.ti || i->second.dtor != j->second.dtor
          || i->second.handlers != j->second.handlers || i->second.rethrown != j->second.rethrown)
        return false;
    for (auto i = a.mem.rbegin(), j = b.mem.rbegin(); i != a.mem.rend(); ++i, ++j)
      if (i->first != j->first || !sameObj(i->second, j->second))
        return false;
    return true;
  }

  void park(StateP s)
  {
    Region * r = nullptr;
    for (auto & x : regions)
      if (x.id == s->parked)
        r = &x;
    if (!r || r->off) {
      if (!r || settle(*s, r->id))
        work.push_back(std::move(s));
      return;
    }
    for (auto & g : r->groups)
      if (sameState(*g.s, *s)) {
        ++merged;
        g.pcs.push_back(std::move(s->pc));
        g.s->bump = std::max(g.s->bump, s->bump);
        g.s->instrs = std::max(g.s->instrs, s->instrs);
        if (!g.s->model && s->model)
          g.s->model = s->model;
        g.s->lazyForked = g.s->lazyForked && s->lazyForked;
        return;
      }
    MergeGroup g;
    g.pcs.push_back(std::move(s->pc));
    g.s = std::move(s);
    r->groups.push_back(std::move(g));
    if (r->groups.size() > 40) { // too different: go on without merging
      r->off = true;
      release(*r);
    }
  }

  // The state leaves the region: is it feasible?
  bool settle(State & s, uint64_t region)
  {
    if (s.lazy != region)
      return true;
    if (s.lazyForked && !s.model) {
      shared_ptr<z3::model> m;
      if (!sat(s, Z->bool_val(true), &m))
        return false;
      s.model = m;
    }
    s.lazy = 0;
    s.lazyForked = false;
    return true;
  }

  // Does the function nothing but compute a value from memory (any write goes to its own variables)?
  bool pure(Function * F)
  {
    auto it = pureCache.find(F);
    if (it != pureCache.end())
      return it->second == 1;
    pureCache[F] = 0; // recursion: not pure
    bool ok = !F->isDeclaration() && !F->getReturnType()->isVoidTy();
    for (auto & bb : *F) {
      for (auto & I : bb) {
        if (!ok)
          break;
        if (auto * C = dyn_cast<CallInst>(&I)) {
          Function * G = C->getCalledFunction();
          if (!G)
            ok = false;
          else if (G->isIntrinsic())
            ok = isa<DbgInfoIntrinsic>(C) || G->getName().starts_with("llvm.lifetime")
                 || G->getName().starts_with("llvm.memcpy") || G->getName().starts_with("llvm.memset");
          else if (G->isDeclaration())
            ok = G->getName() == "memcmp" || G->getName() == "memcpy";
          else
            ok = pure(G);
          continue;
        }
        switch (I.getOpcode()) {
        case Instruction::Invoke:
        case Instruction::Unreachable:
        case Instruction::UDiv:
        case Instruction::SDiv:
        case Instruction::URem:
        case Instruction::SRem:
        case Instruction::AtomicRMW:
        case Instruction::AtomicCmpXchg:
        case Instruction::Fence:
        case Instruction::Resume:
        case Instruction::LandingPad: ok = false; break;
        default: break;
        }
      }
    }
    pureCache[F] = ok;
    return ok;
  }

  // Puts the (merged) states of the region on the worklist.
  void release(Region & r)
  {
    vector<MergeGroup> gs = std::move(r.groups);
    r.groups.clear();
    if (gs.empty())
      return;
    // the part of the path condition common to all paths
    size_t k = 0;
    auto & first = gs[0].pcs[0];
    for (;; ++k) {
      bool same = k < first.size();
      for (auto & g : gs)
        for (auto & p : g.pcs)
          same = same && k < p.size() && z3::eq(p[k], first[k]);
      if (!same)
        break;
    }
    vector<z3::expr> prefix(first.begin(), first.begin() + k);
    bool complete = !r.off && r.deaths == deaths; // then the paths are a partition of the prefix
    vector<z3::expr> conds;
    vector<size_t> sizes;
    for (auto & g : gs) {
      z3::expr_vector alts(*Z);
      bool triv = false;
      size_t n = 0;
      for (auto & p : g.pcs) {
        z3::expr_vector c(*Z);
        for (size_t j = k; j < p.size(); ++j)
          c.push_back(p[j]);
        n += c.size();
        if (c.size() == 0)
          triv = true;
        else
          alts.push_back(c.size() == 1 ? c[0] : z3::mk_and(c));
      }
      conds.push_back(triv ? Z->bool_val(true) : alts.size() == 1 ? alts[0] : z3::mk_or(alts));
      sizes.push_back(n);
    }
    bool simple = complete && gs.size() <= 2;
    if (simple && gs.size() == 1)
      conds[0] = Z->bool_val(true);
    if (simple && gs.size() == 2) {
      if (gs[0].pcs.size() > 1 && sizes[0] > sizes[1])
        conds[0] = !conds[1];
      else if (gs[1].pcs.size() > 1 && sizes[1] > sizes[0])
        conds[1] = !conds[0];
    }
    vector<size_t> alive;
    for (size_t i = 0; i < gs.size(); ++i) {
      auto & g = gs[i];
      if (g.pcs.size() == 1 && !simple)
        g.s->pc = std::move(g.pcs[0]);
      else {
        g.s->pc = prefix;
        z3::expr d = conds[i].simplify();
        if (!d.is_true())
          g.s->pc.push_back(d);
      }
      if (settle(*g.s, r.id))
        alive.push_back(i);
    }
    if (simple && alive.size() == 1)
      gs[alive[0]].s->pc = prefix; // implied
    for (size_t i = alive.size(); i-- > 0;)
      work.push_back(std::move(gs[alive[i]].s));
  }

  // Continue in the caller after the call instruction 'site' returned. Its ip is still on the call.
  void afterCall(State & s, CallBase * site, RV const * v)
  {
    Frame & f = s.st.back();
    if (v && !site->getType()->isVoidTy())
      setReg(f, site, *v);
    if (auto * II = dyn_cast<InvokeInst>(site))
      jump(s, II->getNormalDest());
    else
      ++f.it;
  }

  void pushFrame(State & s, Function * F, vector<RV> const & args, CallBase * site, bool hook)
  {
    if (s.st.size() > lim.maxDepth) {
      fail(s, "nontermination", "call depth limit exceeded");
      return;
    }
    executed.insert(F);
    Frame f;
    f.F = F;
    f.bb = &F->getEntryBlock();
    f.it = f.bb->begin();
    f.info = info(F);
    f.regs.resize(f.info->n);
    f.site = site;
    f.hook = hook;
    unsigned i = 0;
    for (auto & A : F->args()) {
      if (i < args.size()) {
        RV a = args[i];
        if (A.hasByValAttr()) {
          uint64_t n = DL.getTypeAllocSize(A.getParamByValType());
          uint64_t al = A.getParamAlign() ? A.getParamAlign()->value() : 16;
          uint64_t na = allocate(s, n, al, OK_::Stack, "byval");
          copyMem(s, na, a.v.u(), n);
          if (s.dead)
            return;
          f.allocas.push_back(na);
          a.v = cv(PW, na);
        }
        f.regs[f.info->num[&A]] = a;
      }
      ++i;
    }
    if (!s.st.empty() && !noMerge) {
      f.region = ++regionCtr;
      Region r;
      r.id = f.region;
      r.n = work.size();
      r.deaths = deaths;
      if (!s.lazy && pure(F)) {
        s.lazy = r.id;
        s.lazyForked = false;
      }
      regions.push_back(std::move(r));
    }
    s.st.push_back(std::move(f));
  }

  void copyMem(State & s, uint64_t d, uint64_t src, uint64_t n)
  {
    if (n == 0)
      return;
    ObjP * so = access(s, src, n, false, "memcpy source");
    if (!so)
      return;
    matRange(so, src - (*so)->base, n);
    vector<Byte> tmp((*so)->b.begin() + (src - (*so)->base), (*so)->b.begin() + (src - (*so)->base) + n);
    ObjP * dobj = access(s, d, n, true, "memcpy destination");
    if (!dobj)
      return;
    std::copy(tmp.begin(), tmp.end(), (*dobj)->b.begin() + (d - (*dobj)->base));
  }

  //--------------------------------------------------------------------------------------- exceptions
  // Is catch type 'ct' a base of (or equal to) thrown type 'tt'?
  bool tiMatch(State & s, uint64_t tt, uint64_t ct, int depth = 0)
  {
    if (ct == 0 || tt == ct)
      return true;
    if (depth > 8)
      return false;
    for (auto & G : M.globals()) {
      auto it = gaddr.find(&G);
      if (it == gaddr.end() || it->second != tt || !G.hasInitializer())
        continue;
      auto * CS = dyn_cast<ConstantStruct>(G.getInitializer());
      if (!CS)
        return false;
      for (unsigned i = 2; i < CS->getNumOperands(); ++i)
        if (CS->getOperand(i)->getType()->isPointerTy()) {
          RV b = evalConst(CS->getOperand(i));
          if (b.v.conc() && b.v.u() && tiMatch(s, b.v.u(), ct, depth + 1))
            return true;
        }
      return false;
    }
    // external / pseudo type infos: all standard exceptions derive from std::exception
    auto * se = M.getNamedGlobal("_ZTISt9exception");
    if (se && gaddr[se] == ct) {
      for (auto & p : pseudoTi)
        if (p.second == tt)
          return true;
      for (auto & G : M.globals())
        if (G.isDeclaration() && gaddr[&G] == tt && G.getName().starts_with("_ZTISt"))
          return true;
    }
    return false;
  }

  int typeId(uint64_t ti)
  {
    auto it = typeIds.find(ti);
    if (it != typeIds.end())
      return it->second;
    int id = (int)typeIds.size() + 1;
    typeIds[ti] = id;
    return id;
  }

  // Selector if landing pad L would be entered for exception e; false otherwise.
  bool lpadSelect(State & s, LandingPadInst * L, Exc const & e, int & sel)
  {
    for (unsigned i = 0; i < L->getNumClauses(); ++i) {
      if (L->isCatch(i)) {
        RV c = evalConst(L->getClause(i));
        if (tiMatch(s, e.ti, c.v.u())) {
          sel = typeId(c.v.u());
          return true;
        }
      }
      else {
        Constant * C = L->getClause(i);
        bool allowed = false;
        RV arr = evalConst(C);
        if (arr.agg)
          for (auto & x : *arr.agg)
            allowed |= tiMatch(s, e.ti, x.v.u());
        if (!allowed) {
          sel = -1 - (int)i;
          return true;
        }
      }
    }
    if (L->isCleanup()) {
      sel = 0;
      return true;
    }
    return false;
  }

  // Unwind from the current top frame (whose ip is on the throwing call site).
  void unwind(State & s, uint64_t exc, bool includeTop)
  {
    ++deaths;
    bool first = true;
    while (!s.st.empty()) {
      Frame & f = s.st.back();
      CallBase * site = nullptr;
      if (first && includeTop)
        site = dyn_cast<CallBase>(&*f.it);
      else if (first) {
        first = false;
        // resume: leave this frame
        if (f.hook) {
          fail(s, "terminate", "exception escaped from a destructor of an exception object");
          return;
        }
        popFrame(s);
        continue;
      }
      else
        site = dyn_cast<CallBase>(&*f.it);
      first = false;
      if (auto * II = dyn_cast_or_null<InvokeInst>(site)) {
        auto * L = II->getLandingPadInst();
        int sel;
        if (lpadSelect(s, L, s.excs[exc], sel)) {
          s.lpExc = exc;
          jump(s, II->getUnwindDest());
          return;
        }
      }
      else if (site && site->doesNotThrow() && site->getCalledFunction() && site->getCalledFunction()->isDeclaration() == false
               && site->getCalledFunction()->doesNotThrow()) {
        fail(s, "terminate", "exception escaped from a function that must not throw");
        return;
      }
      bool hook = f.hook;
      popFrame(s);
      if (hook) {
        // engine-pushed frame: treat as terminate
        fail(s, "terminate", "exception escaped from engine-invoked function");
        return;
      }
    }
    // no handler
    State * dummy = &s;
    (void)dummy;
    // Rebuild a minimal frame-less report.
    report(s, "terminate", "uncaught exception", nullptr);
    kill(s);
  }

  void throwExc(State & s, uint64_t addr, uint64_t ti, uint64_t dtor)
  {
    Exc e{addr, ti, dtor};
    s.excs[addr] = e;
    s.uncaught++;
    unwind(s, addr, true);
  }

  void throwPseudo(State & s, string const & tiName)
  {
    uint64_t ti = 0;
    if (auto * g = M.getNamedGlobal(tiName))
      ti = gaddr[g];
    else {
      auto it = pseudoTi.find(tiName);
      if (it == pseudoTi.end()) {
        ti = 0x100 + 16 * pseudoTi.size();
        pseudoTi[tiName] = ti;
      }
      else
        ti = it->second;
    }
    uint64_t a = allocate(s, 64, 16, OK_::Exc, "exception object");
    throwExc(s, a, ti, 0);
  }

  void terminate(State & s, string const & why)
  {
    if (s.allowTerminate) {
      s.covers.insert("terminate-fired");
      endPath(s, "terminate");
      return;
    }
    fail(s, "terminate", why);
  }

  //--------------------------------------------------------------------------------------- external functions
  string cstr(State & s, uint64_t a)
  {
    string r;
    for (int i = 0; i < 4000; ++i) {
      ObjP * o = find(s, a + i);
      if (!o)
        return r;
      Byte & b = (*o)->b[a + i - (*o)->base];
      if (b.e || b.uninit)
        return r + "?";
      if (!b.c)
        return r;
      r += (char)b.c;
    }
    return r;
  }

  void addSym(State & s, string const & name, Val const & v) { s.ins.push_back({name, v}); }

  // Returns true if handled. On normal return, must call done(). The ip is on the call.
  bool external(State & s, CallBase * CB, Function * F, vector<RV> & a)
  {
    StringRef n = F->getName();
    auto done = [&](RV const * r = nullptr) { afterCall(s, CB, r); };
    auto doneV = [&](Val v) {
      RV r;
      r.v = v;
      afterCall(s, CB, &r);
    };
    auto argU = [&](unsigned i, uint64_t & out) -> bool { return makeConcrete(s, a[i].v, out); };
    uint64_t x, y, z;

    if (n.starts_with("vp_")) {
      if (n == "vp_sym") {
        argU(0, x);
        argU(1, y);
        string nm = cstr(s, y);
        Val v = fresh(x, nm);
        addSym(s, nm, v);
        doneV(resize(v, 64, false));
        return true;
      }
      if (n == "vp_sym_bytes") {
        argU(0, x);
        argU(1, y);
        argU(2, z);
        string nm = cstr(s, z);
        ObjP * o = access(s, x, y, true, "vp_sym_bytes");
        if (!o)
          return true;
        uint64_t off = x - (*o)->base;
        // chunks of at most 8 bytes
        for (uint64_t i = 0; i < y; i += 8) {
          unsigned k = std::min<uint64_t>(8, y - i);
          Val v = fresh(8 * k, nm);
          addSym(s, nm, v);
          writeBytes(**o, off + i, v);
        }
        done();
        return true;
      }
      if (n == "vp_page") {
        argU(0, x);
        uint64_t r = allocate(s, x, 4096, OK_::Heap, "page");
        doneV(cv(PW, r));
        return true;
      }
      if (n == "vp_seal") {
        argU(0, x);
        argU(1, y);
        ObjP * o = find(s, x);
        if (!o || !(*o)->alive || (*o)->base != x) {
          fail(s, "memory", "vp_seal of something else than a page");
          return true;
        }
        if (o->use_count() > 1)
          *o = std::make_shared<Obj>(**o);
        (*o)->readonly = y != 0;
        (*o)->name = y ? "sealed page" : "page";
        done();
        return true;
      }
      if (n == "vp_choose") {
        argU(0, x);
        argU(1, y);
        string nm = cstr(s, y);
        Val v = fresh(32, nm);
        // fork eagerly over all x values: no query needed, the symbol is otherwise unconstrained
        ++deaths;
        for (uint64_t i = x; i-- > 1;) {
          auto f = clone(s);
          f->pc.push_back(ex(v) == Z->bv_val((unsigned)i, 32));
          f->model.reset();
          addSym(*f, nm, v);
          RV r;
          r.v = cv(32, i);
          afterCall(*f, CB, &r);
          work.push_back(std::move(f));
        }
        s.pc.push_back(ex(v) == Z->bv_val(0, 32));
        s.model.reset();
        addSym(s, nm, v);
        doneV(cv(32, 0));
        return true;
      }
      if (n == "vp_assume") {
        Val c = veq(a[0].v, cv(a[0].v.w(), 0));
        c = vnot(c);
        if (c.conc()) {
          if (!c.c.getBoolValue()) {
            ++pathsKilledByAssume;
            kill(s);
            return true;
          }
        }
        else {
          shared_ptr<z3::model> m;
          ensureModel(s);
          if (modelEval(s, ex(c)) == 1)
            m = s.model;
          else if (!sat(s, ex(c), &m)) {
            ++pathsKilledByAssume;
            kill(s);
            return true;
          }
          ++deaths;
          addPc(s, c, m);
        }
        done();
        return true;
      }
      if (n == "vp_assert") {
        argU(1, y);
        Val c = vnot(veq(a[0].v, cv(a[0].v.w(), 0)));
        ++assertsChecked;
        if (c.conc()) {
          if (!c.c.getBoolValue()) {
            fail(s, "assert", cstr(s, y));
            return true;
          }
        }
        else {
          ++assertsSym;
          bool ct, cf;
          shared_ptr<z3::model> mt, mf;
          feasible(s, c, ct, cf, mt, mf);
          if (cf)
            report(s, "assert", cstr(s, y), mf);
          if (!ct) {
            kill(s);
            return true;
          }
          if (cf)
            ++deaths;
            addPc(s, c, mt);
        }
        done();
        return true;
      }
      if (n == "vp_cover") {
        argU(0, x);
        s.covers.insert(cstr(s, x));
        done();
        return true;
      }
      if (n == "vp_obs") {
        s.obs.push_back(a[0].v);
        done();
        return true;
      }
      if (n == "vp_symbolic") {
        doneV(cv(32, 1));
        return true;
      }
      if (n == "vp_allow_assert") {
        argU(0, x);
        s.allowAssert = (int)x;
        done();
        return true;
      }
      if (n == "vp_allow_terminate") {
        argU(0, x);
        s.allowTerminate = (int)x;
        done();
        return true;
      }
      if (n == "vp_end") {
        endPath(s, "return");
        return true;
      }
      throw Unsupported{"unknown vp_ function " + n.str()};
    }

    // --- memory
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") {
      argU(0, x);
      argU(1, y);
      argU(2, z);
      copyMem(s, x, y, z);
      if (!s.dead)
        done(&a[0]);
      return true;
    }
    if (n == "memset") {
      argU(0, x);
      argU(2, z);
      if (z) {
        ObjP * o = access(s, x, z, true, "memset");
        if (!o)
          return true;
        Val b = extractBits(a[1].v, 0, 8);
        for (uint64_t i = 0; i < z; ++i)
          writeBytes(**o, x - (*o)->base + i, b);
      }
      done(&a[0]);
      return true;
    }
    if (n == "memcmp" || n == "bcmp" || n == "__builtin_memcmp") {
      argU(0, x);
      argU(1, y);
      argU(2, z);
      Val r = cv(32, 0);
      if (z) {
        ObjP * o1 = access(s, x, z, false, "memcmp");
        if (!o1)
          return true;
        matRange(o1, x - (*o1)->base, z);
        ObjP * o2 = access(s, y, z, false, "memcmp");
        if (!o2)
          return true;
        matRange(o2, y - (*o2)->base, z);
        // equality as one wide comparison, order byte by byte
        Val w1 = readBytes(**o1, x - (*o1)->base, z), w2 = readBytes(**o2, y - (*o2)->base, z);
        Val eq = veq(w1, w2);
        bool onlyZeroTest = !CB->use_empty();
        for (User * U : CB->users()) {
          auto * IC = dyn_cast<ICmpInst>(U);
          auto * K = IC ? dyn_cast<ConstantInt>(IC->getOperand(1)) : nullptr;
          if (!IC || !IC->isEquality() || !K || !K->isZero())
            onlyZeroTest = false;
        }
        if (onlyZeroTest) {
          doneV(vite(eq, cv(32, 0), cv(32, 1)));
          return true;
        }
        Val lt = cv(1, 0);
        if (w1.conc() && w2.conc())
          lt = cv(1, w1.c.getBitWidth() > 8 ? w1.c.byteSwap().ult(w2.c.byteSwap()) : w1.c.ult(w2.c));
        else {
          auto be = [&](z3::expr const & x) {
            z3::expr r2 = x.extract(7, 0);
            for (uint64_t i = 1; i < z; ++i)
              r2 = z3::concat(r2, x.extract(i * 8 + 7, i * 8));
            return r2;
          };
          lt = sv(z3::ult(be(ex(w1)), be(ex(w2))), 1);
        }
        r = vite(eq, cv(32, 0), vite(lt, cv(32, 0xffffffffu), cv(32, 1)));
      }
      doneV(r);
      return true;
    }
    if (n == "strlen") {
      argU(0, x);
      doneV(cv(PW, cstr(s, x).size()));
      return true;
    }
    bool isNew = n == "_Znwm" || n == "_Znwj" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t"
                 || n == "_ZnwjSt11align_val_t" || n == "_ZnwjRKSt9nothrow_t";
    bool isNewA = n == "_Znam" || n == "_Znaj";
    if (isNew || isNewA || n == "malloc") {
      argU(0, x);
      uint64_t r = allocate(s, x, 16, OK_::Heap, "heap block");
      s.mem[r]->deallocKind = isNew ? 0 : isNewA ? 2 : 1;
      doneV(cv(PW, r));
      return true;
    }
    if (n == "calloc") {
      argU(0, x);
      argU(1, y);
      uint64_t r = allocate(s, x * y, 16, OK_::Heap, "heap block");
      s.mem[r]->deallocKind = 1;
      writeBytes(*s.mem[r], 0, cv(APInt(std::max<uint64_t>(1, x * y) * 8, 0)));
      doneV(cv(PW, r));
      return true;
    }
    if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free") {
      argU(0, x);
      if (x) {
        ObjP * o = find(s, x);
        if (!o || (*o)->kind != OK_::Heap || (*o)->base != x) {
          fail(s, "memory", "free of a pointer that is no heap block");
          return true;
        }
        if (!(*o)->alive) {
          fail(s, "memory", "double free");
          return true;
        }
        if (o->use_count() > 1)
          *o = std::make_shared<Obj>(**o);
        (*o)->alive = false;
        (*o)->b.clear();
        (*o)->b.resize((*o)->size);
      }
      done();
      return true;
    }

    // --- C++ runtime
    if (n == "__cxa_allocate_exception") {
      argU(0, x);
      doneV(cv(PW, allocate(s, std::max<uint64_t>(x, 1), 16, OK_::Exc, "exception object")));
      return true;
    }
    if (n == "__cxa_free_exception") {
      done();
      return true;
    }
    if (n == "__cxa_throw") {
      argU(0, x);
      argU(1, y);
      argU(2, z);
      throwExc(s, x, y, z);
      return true;
    }
    if (n == "__cxa_begin_catch") {
      argU(0, x);
      if (s.excs.count(x)) {
        Exc & e = s.excs[x];
        if (e.handlers == 0 || e.rethrown)
          s.uncaught--;
        e.rethrown = false;
        e.handlers++;
        s.caught.push_back(x);
      }
      doneV(cv(PW, x));
      return true;
    }
    if (n == "__cxa_get_exception_ptr") {
      done(&a[0]);
      return true;
    }
    if (n == "__cxa_end_catch") {
      if (s.caught.empty())
        throw Unsupported{"end_catch without catch"};
      uint64_t c = s.caught.back();
      s.caught.pop_back();
      Exc & e = s.excs[c];
      e.handlers--;
      done();
      if (e.handlers <= 0 && !e.rethrown) {
        uint64_t d = e.dtor;
        s.excs.erase(c);
        if (d && faddr.count(d)) {
          Function * DF = faddr[d];
          if (!DF->isDeclaration()) {
            RV p;
            p.v = cv(PW, c);
            pushFrame(s, DF, {p}, nullptr, true);
          }
        }
      }
      return true;
    }
    if (n == "__cxa_rethrow") {
      if (s.caught.empty()) {
        terminate(s, "rethrow without exception");
        return true;
      }
      uint64_t c = s.caught.back();
      s.excs[c].rethrown = true;
      s.uncaught++;
      unwind(s, c, true);
      return true;
    }
    if (n == "_ZSt9terminatev" || n == "__cxa_call_terminate" || n == "__cxa_call_unexpected") {
      terminate(s, "std::terminate called");
      return true;
    }
    if (n == "abort") {
      fail(s, "terminate", "abort called");
      return true;
    }
    if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
      if (s.allowAssert) {
        s.covers.insert("assert-fired");
        endPath(s, "assert");
        return true;
      }
      uint64_t p = 0;
      argU(0, p);
      fail(s, "cassert", "assertion failed: " + cstr(s, p));
      return true;
    }
    if (n == "_ZSt19uncaught_exceptionsv" || n == "_ZSt18uncaught_exceptionv") {
      doneV(cv(widthOf(CB->getType()), s.uncaught));
      return true;
    }
    if (n == "__cxa_guard_acquire") {
      argU(0, x);
      RV v = load(s, x, Type::getInt8Ty(M.getContext()));
      if (s.dead)
        return true;
      doneV(cv(32, v.v.conc() && v.v.u() ? 0 : 1));
      return true;
    }
    if (n == "__cxa_guard_release") {
      argU(0, x);
      RV v;
      v.v = cv(8, 1);
      store(s, x, v, Type::getInt8Ty(M.getContext()));
      if (!s.dead)
        done();
      return true;
    }
    if (n == "__cxa_guard_abort") {
      done();
      return true;
    }
    if (n == "__cxa_atexit") {
      doneV(cv(32, 0));
      return true;
    }
    if (n == "__cxa_pure_virtual" || n == "__cxa_deleted_virtual") {
      fail(s, "terminate", "pure virtual call");
      return true;
    }
    if (n.starts_with("_ZNSt") && (n.ends_with("D0Ev") || n.ends_with("D1Ev") || n.ends_with("D2Ev")) && n.contains("exception")) {
      done();
      return true;
    }
    if (n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionD1Ev" || n == "_ZNSt9exceptionD0Ev"
        || n == "_ZNSt9bad_allocD2Ev" || n == "_ZNSt9bad_allocD1Ev") {
      done();
      return true;
    }
    if (n.starts_with("_ZSt") && n.contains("__throw_")) {
      string t = n.str();
      auto p = t.find("__throw_");
      string nm = t.substr(p + 8);
      size_t e = 0;
      while (e < nm.size() && (islower(nm[e]) || nm[e] == '_' || isdigit(nm[e])))
        ++e;
      nm = nm.substr(0, e);
      throwPseudo(s, "_ZTISt" + std::to_string(nm.size()) + nm);
      return true;
    }
    if (n.starts_with("_ZSt11_Hash_bytesPKv") || n.starts_with("_ZSt15_Fnv_hash_bytesPKv")) {
      argU(0, x);
      argU(1, y);
      if (y == 0) {
        z3::func_decl f = Z->function("hash0", Z->bv_sort(PW), Z->bv_sort(PW));
        doneV(sv(f(ex(a[2].v)), PW));
        return true;
      }
      ObjP * o = access(s, x, y, false, "hash");
      if (!o)
        return true;
      matRange(o, x - (*o)->base, y);
      Val v = readBytes(**o, x - (*o)->base, y);
      z3::func_decl f = Z->function(("hash" + std::to_string(y)).c_str(), Z->bv_sort(y * 8), Z->bv_sort(PW), Z->bv_sort(PW));
      doneV(sv(f(ex(v), ex(a[2].v)), PW));
      return true;
    }
    return false;
  }

  bool intrinsic(State & s, CallBase * CB, Function * F, vector<RV> & a)
  {
    auto done = [&](RV const * r = nullptr) { afterCall(s, CB, r); };
    auto doneV = [&](Val v) {
      RV r;
      r.v = v;
      afterCall(s, CB, &r);
    };
    uint64_t x, y, z;
    auto ew2 = [&](std::function<Val(Val const &, Val const &)> fn) {
      RV r;
      if (a[0].agg) {
        r.agg = std::make_shared<vector<RV>>();
        for (size_t i = 0; i < a[0].agg->size(); ++i) {
          RV e;
          e.v = fn((*a[0].agg)[i].v, (*a[1].agg)[i].v);
          r.agg->push_back(e);
        }
      }
      else
        r.v = fn(a[0].v, a[1].v);
      done(&r);
    };
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove:
      makeConcrete(s, a[0].v, x);
      makeConcrete(s, a[1].v, y);
      makeConcrete(s, a[2].v, z);
      copyMem(s, x, y, z);
      if (!s.dead)
        done();
      return true;
    case Intrinsic::memset: {
      makeConcrete(s, a[0].v, x);
      makeConcrete(s, a[2].v, z);
      if (z) {
        ObjP * o = access(s, x, z, true, "memset");
        if (!o)
          return true;
        for (uint64_t i = 0; i < z; ++i)
          writeBytes(**o, x - (*o)->base + i, a[1].v);
      }
      done();
      return true;
    }
    case Intrinsic::lifetime_start: {
      makeConcrete(s, a[1].v, x);
      ObjP * o = find(s, x);
      if (o) {
        if (o->use_count() > 1)
          *o = std::make_shared<Obj>(**o);
        (*o)->alive = true;
        for (auto & b : (*o)->b) {
          b = Byte();
        }
      }
      done();
      return true;
    }
    case Intrinsic::lifetime_end: {
      makeConcrete(s, a[1].v, x);
      ObjP * o = find(s, x);
      if (o) {
        if (o->use_count() > 1)
          *o = std::make_shared<Obj>(**o);
        (*o)->alive = false;
      }
      done();
      return true;
    }
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::dbg_assign:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing:
    case Intrinsic::prefetch:
    case Intrinsic::assume:
    case Intrinsic::invariant_end:
    case Intrinsic::sideeffect:
    case Intrinsic::stackrestore:
    case Intrinsic::var_annotation: done(); return true;
    case Intrinsic::invariant_start:
    case Intrinsic::stacksave: doneV(cv(PW, 0)); return true;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy:
    case Intrinsic::annotation:
    case Intrinsic::ptr_annotation:
    case Intrinsic::threadlocal_address: done(&a[0]); return true;
    case Intrinsic::is_constant: doneV(cv(1, 0)); return true;
    case Intrinsic::objectsize: doneV(cv(widthOf(CB->getType()), a[1].v.u() ? 0 : ~0ull)); return true;
    case Intrinsic::eh_typeid_for: doneV(cv(32, typeId(a[0].v.u()))); return true;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap:
    case Intrinsic::debugtrap: fail(s, "trap", "trap executed"); return true;
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: {
      auto id = F->getIntrinsicID();
      unsigned w = a[0].v.w();
      bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
      unsigned op = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Instruction::Mul
                    : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add
                                                                                                  : Instruction::Sub;
      unsigned ww = op == Instruction::Mul ? 2 * w : w + 2;
      Val p = resize(a[0].v, ww, sg), q = resize(a[1].v, ww, sg);
      Val full = binop(op, p, q, nullptr);
      Val lo = extractBits(full, 0, w);
      Val ov = vnot(veq(resize(lo, ww, sg), full));
      RV r;
      r.agg = std::make_shared<vector<RV>>(2);
      (*r.agg)[0].v = lo;
      (*r.agg)[1].v = ov;
      done(&r);
      return true;
    }
    case Intrinsic::smax: ew2([&](Val const & p, Val const & q) { return vite(icmp(CmpInst::ICMP_SGT, p, q), p, q); }); return true;
    case Intrinsic::smin: ew2([&](Val const & p, Val const & q) { return vite(icmp(CmpInst::ICMP_SLT, p, q), p, q); }); return true;
    case Intrinsic::umax: ew2([&](Val const & p, Val const & q) { return vite(icmp(CmpInst::ICMP_UGT, p, q), p, q); }); return true;
    case Intrinsic::umin: ew2([&](Val const & p, Val const & q) { return vite(icmp(CmpInst::ICMP_ULT, p, q), p, q); }); return true;
    case Intrinsic::usub_sat:
      ew2([&](Val const & p, Val const & q) {
        return vite(icmp(CmpInst::ICMP_ULT, p, q), cv(p.w(), 0), binop(Instruction::Sub, p, q, nullptr));
      });
      return true;
    case Intrinsic::uadd_sat:
      ew2([&](Val const & p, Val const & q) {
        Val t = binop(Instruction::Add, p, q, nullptr);
        return vite(icmp(CmpInst::ICMP_ULT, t, p), cv(APInt::getAllOnes(p.w())), t);
      });
      return true;
    case Intrinsic::abs: {
      Val v = a[0].v;
      doneV(vite(icmp(CmpInst::ICMP_SLT, v, cv(v.w(), 0)), binop(Instruction::Sub, cv(v.w(), 0), v, nullptr), v));
      return true;
    }
    case Intrinsic::bswap: {
      Val v = a[0].v;
      unsigned nb = v.w() / 8;
      Val r = extractBits(v, 0, 8);
      for (unsigned i = 1; i < nb; ++i)
        r = concatV(r, extractBits(v, 8 * i, 8));
      doneV(r);
      return true;
    }
    case Intrinsic::ctpop: {
      Val v = a[0].v;
      Val r = cv(v.w(), 0);
      for (unsigned i = 0; i < v.w(); ++i)
        r = add(r, resize(extractBits(v, i, 1), v.w(), false));
      doneV(r);
      return true;
    }
    case Intrinsic::ctlz:
    case Intrinsic::cttz: {
      Val v = a[0].v;
      unsigned w = v.w();
      bool lz = F->getIntrinsicID() == Intrinsic::ctlz;
      Val r = cv(w, w);
      for (unsigned k = 0; k < w; ++k) {
        unsigned i = lz ? k : w - 1 - k;
        r = vite(extractBits(v, i, 1), cv(w, lz ? w - 1 - i : i), r);
      }
      doneV(r);
      return true;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      if (!a[2].v.conc())
        throw Unsupported{"symbolic funnel shift"};
      unsigned w = a[0].v.w(), k = a[2].v.c.urem(w);
      Val c = concatV(a[0].v, a[1].v);
      if (F->getIntrinsicID() == Intrinsic::fshl)
        doneV(extractBits(c, w - k, w));
      else
        doneV(extractBits(c, k, w));
      return true;
    }
    case Intrinsic::fabs: {
      Val v = a[0].v;
      unsigned w = v.w();
      doneV(binop(Instruction::And, v, cv(APInt::getSignedMaxValue(w)), nullptr));
      return true;
    }
    case Intrinsic::copysign: {
      unsigned w = a[0].v.w();
      doneV(concatV(extractBits(a[1].v, w - 1, 1), extractBits(a[0].v, 0, w - 1)));
      return true;
    }
    case Intrinsic::is_fpclass: {
      Type * T = CB->getArgOperand(0)->getType();
      unsigned m = a[1].v.u();
      z3::expr f = toFP(a[0].v, T), r = Z->bool_val(false);
      unsigned mant = T->isFloatTy() ? 23 : T->isDoubleTy() ? 52 : 0;
      if (!mant)
        throw Unsupported{"is.fpclass type"};
      auto B = [&](Z3_ast q) { return z3::expr(*Z, q); };
      z3::expr nan = B(Z3_mk_fpa_is_nan(*Z, f)), neg = B(Z3_mk_fpa_is_negative(*Z, f)), inf = B(Z3_mk_fpa_is_infinite(*Z, f)),
               nrm = B(Z3_mk_fpa_is_normal(*Z, f)), sub = B(Z3_mk_fpa_is_subnormal(*Z, f)), zer = B(Z3_mk_fpa_is_zero(*Z, f));
      z3::expr quiet = asBV(a[0].v).extract(mant - 1, mant - 1) == Z->bv_val(1, 1);
      if (m & 1) r = r || (nan && !quiet);
      if (m & 2) r = r || (nan && quiet);
      if (m & 4) r = r || (inf && neg);
      if (m & 8) r = r || (nrm && neg);
      if (m & 16) r = r || (sub && neg);
      if (m & 32) r = r || (zer && neg);
      if (m & 64) r = r || (zer && !neg);
      if (m & 128) r = r || (sub && !neg);
      if (m & 256) r = r || (nrm && !neg);
      if (m & 512) r = r || (inf && !neg);
      doneV(sv(r, 1));
      return true;
    }
    case Intrinsic::ptrmask: doneV(binop(Instruction::And, a[0].v, resize(a[1].v, PW, false), nullptr)); return true;
    default: return false;
    }
  }

  void doCall(State & s, CallBase * CB)
  {
    Value * callee = CB->getCalledOperand()->stripPointerCasts();
    if (isa<InlineAsm>(callee)) {
      if (CB->getType()->isVoidTy() && CB->arg_size() == 0) {
        afterCall(s, CB, nullptr);
        return;
      }
      throw Unsupported{"inline asm"};
    }
    Function * F = dyn_cast<Function>(callee);
    if (!F)
      if (auto * A = dyn_cast<GlobalAlias>(callee))
        F = dyn_cast<Function>(A->getAliaseeObject());
    if (!F) {
      RV p = eval(s, CB->getCalledOperand());
      uint64_t pa;
      makeConcrete(s, p.v, pa);
      auto it = faddr.find(pa);
      if (it == faddr.end()) {
        fail(s, "memory", "call through an invalid function pointer");
        return;
      }
      F = it->second;
    }
    vector<RV> args;
    if (F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::dbg_assign:
      case Intrinsic::experimental_noalias_scope_decl: afterCall(s, CB, nullptr); return;
      default: break;
      }
    }
    for (auto & A : CB->args()) {
      if (A->getType()->isMetadataTy())
        args.push_back(RV());
      else
        args.push_back(eval(s, A));
    }
    if (F->isIntrinsic()) {
      if (!intrinsic(s, CB, F, args))
        throw Unsupported{"intrinsic " + F->getName().str()};
      return;
    }
    if (F->isDeclaration() || F->getName().starts_with("vp_sym")) {
      if (!external(s, CB, F, args))
        throw Unsupported{"external function " + demangle(F->getName().str())};
      return;
    }
    // byval pointers must be concrete
    for (unsigned i = 0; i < args.size() && i < F->arg_size(); ++i)
      if (F->getArg(i)->hasByValAttr()) {
        uint64_t c;
        makeConcrete(s, args[i].v, c);
        args[i].v = cv(PW, c);
      }
    pushFrame(s, F, args, CB, false);
  }

  //--------------------------------------------------------------------------------------- step
  void branchOn(State & s, Val const & c, BasicBlock * T, BasicBlock * Fb)
  {
    if (s.lazy && !c.conc())
      for (size_t i = regions.size(); i-- > 0;)
        if (regions[i].id == s.lazy) {
          if (regions[i].lazyForks >= 100)
            break;
          ++regions[i].lazyForks;
          int me = modelEval(s, ex(c));
          s.lazyForked = true;
          auto n = clone(s);
          n->pc.push_back(ex(vnot(c)));
          s.pc.push_back(ex(c));
          if (me != 0)
            n->model.reset();
          if (me != 1)
            s.model.reset();
          jump(*n, Fb);
          work.push_back(std::move(n));
          jump(s, T);
          return;
        }
    bool ct, cf;
    shared_ptr<z3::model> mt, mf;
    feasible(s, c, ct, cf, mt, mf);
    if (ct && cf) {
      auto n = clone(s);
      addPc(*n, vnot(c), mf);
      jump(*n, Fb);
      work.push_back(std::move(n));
      addPc(s, c, mt);
      jump(s, T);
    }
    else if (ct)
      jump(s, T);
    else if (cf)
      jump(s, Fb);
    else
      throw Unsupported{"internal: neither branch feasible"};
  }

  RV mapBin(RV const & a, RV const & b, std::function<Val(Val const &, Val const &)> const & fn)
  {
    RV r;
    if (a.agg) {
      r.agg = std::make_shared<vector<RV>>();
      for (size_t i = 0; i < a.agg->size(); ++i)
        r.agg->push_back(mapBin((*a.agg)[i], (*b.agg)[i], fn));
    }
    else
      r.v = fn(a.v, b.v);
    return r;
  }

  RV selectRV(Val const & c, RV const & a, RV const & b)
  {
    RV r;
    if (a.agg) {
      r.agg = std::make_shared<vector<RV>>();
      for (size_t i = 0; i < a.agg->size(); ++i)
        r.agg->push_back(selectRV(c, (*a.agg)[i], (*b.agg)[i]));
    }
    else
      r.v = vite(c, a.v, b.v);
    return r;
  }

  void step(State & s)
  {
    Frame & f = s.st.back();
    Instruction * I = &*f.it;
    ++instrs;
    if (++s.instrs > lim.maxInstr) {
      fail(s, "nontermination", "instruction limit per path exceeded");
      return;
    }
    auto fin = [&](RV r) {
      Frame & g = s.st.back();
      setReg(g, I, std::move(r));
      ++g.it;
    };
    switch (I->getOpcode()) {
    case Instruction::Ret: {
      auto * R = cast<ReturnInst>(I);
      if (R->getReturnValue()) {
        RV v = eval(s, R->getReturnValue());
        ret(s, &v);
      }
      else
        ret(s, nullptr);
      return;
    }
    case Instruction::Br: {
      auto * B = cast<BranchInst>(I);
      if (B->isUnconditional())
        jump(s, B->getSuccessor(0));
      else
        branchOn(s, eval(s, B->getCondition()).v, B->getSuccessor(0), B->getSuccessor(1));
      return;
    }
    case Instruction::Switch: {
      auto * S = cast<SwitchInst>(I);
      Val c = eval(s, S->getCondition()).v;
      if (c.conc()) {
        BasicBlock * d = S->getDefaultDest();
        for (auto & cs : S->cases())
          if (cs.getCaseValue()->getValue() == c.c)
            d = cs.getCaseSuccessor();
        jump(s, d);
        return;
      }
      ensureModel(s);
      Val none = cv(1, 1);
      vector<std::pair<Val, BasicBlock *>> alts;
      for (auto & cs : S->cases()) {
        Val q = veq(c, cv(cs.getCaseValue()->getValue()));
        none = vand(none, vnot(q));
        alts.push_back({q, cs.getCaseSuccessor()});
      }
      alts.push_back({none, S->getDefaultDest()});
      bool used = false;
      StateP base = std::make_unique<State>(s);
      for (auto & al : alts) {
        shared_ptr<z3::model> m;
        if (al.first.conc()) {
          if (!al.first.c.getBoolValue())
            continue;
          m = base->model;
        }
        else if (modelEval(*base, ex(al.first)) == 1)
          m = base->model;
        else if (!sat(*base, ex(al.first), &m))
          continue;
        if (!used) {
          addPc(s, al.first, m);
          jump(s, al.second);
          used = true;
        }
        else {
          auto n = clone(*base);
          addPc(*n, al.first, m);
          jump(*n, al.second);
          work.push_back(std::move(n));
        }
      }
      return;
    }
    case Instruction::Unreachable: fail(s, "unreachable", "undefined behaviour: reached 'unreachable'"); return;
    case Instruction::Invoke:
    case Instruction::Call: doCall(s, cast<CallBase>(I)); return;
    case Instruction::Resume: {
      RV v = eval(s, I->getOperand(0));
      uint64_t e = (*v.agg)[0].v.u();
      unwind(s, e, false);
      return;
    }
    case Instruction::LandingPad: {
      auto * L = cast<LandingPadInst>(I);
      int sel = 0;
      if (!lpadSelect(s, L, s.excs[s.lpExc], sel))
        throw Unsupported{"internal: landing pad"};
      RV r;
      r.agg = std::make_shared<vector<RV>>(2);
      (*r.agg)[0].v = cv(PW, s.lpExc);
      (*r.agg)[1].v = cv(APInt(32, (uint64_t)(int64_t)sel, true));
      fin(r);
      return;
    }
    case Instruction::Alloca: {
      auto * A = cast<AllocaInst>(I);
      uint64_t n = DL.getTypeAllocSize(A->getAllocatedType());
      RV cnt = eval(s, A->getArraySize());
      if (!cnt.v.conc())
        throw Unsupported{"symbolic alloca size"};
      n *= cnt.v.u();
      uint64_t addr = allocate(s, n, A->getAlign().value(), OK_::Stack, A->hasName() ? A->getName().str() : "local");
      s.st.back().allocas.push_back(addr);
      RV r;
      r.v = cv(PW, addr);
      fin(r);
      return;
    }
    case Instruction::Load: {
      auto * L = cast<LoadInst>(I);
      RV p = eval(s, L->getPointerOperand());
      uint64_t addr;
      makeConcrete(s, p.v, addr);
      RV r = load(s, addr, L->getType());
      if (s.dead)
        return;
      if (MDNode * R = L->getMetadata(LLVMContext::MD_range)) {
        Val ok = cv(1, 0);
        for (unsigned i = 0; i + 1 < R->getNumOperands(); i += 2) {
          APInt lo = mdconst::extract<ConstantInt>(R->getOperand(i))->getValue();
          APInt hi = mdconst::extract<ConstantInt>(R->getOperand(i + 1))->getValue();
          // lo <= v < hi (modular)
          Val in = icmp(CmpInst::ICMP_ULT, binop(Instruction::Sub, r.v, cv(lo), nullptr), cv(hi - lo));
          ok = vor(ok, in);
        }
        bool ct, cf;
        shared_ptr<z3::model> mt, mf;
        feasible(s, ok, ct, cf, mt, mf);
        if (cf) {
          report(s, "range", "load of a value outside the valid range of its type (e.g. a bool that is neither 0 nor 1)", mf);
          if (!ct) {
            kill(s);
            return;
          }
          ++deaths;
          addPc(s, ok, mt);
        }
      }
      fin(r);
      return;
    }
    case Instruction::Store: {
      auto * S = cast<StoreInst>(I);
      RV p = eval(s, S->getPointerOperand());
      uint64_t addr;
      makeConcrete(s, p.v, addr);
      RV v = eval(s, S->getValueOperand());
      store(s, addr, v, S->getValueOperand()->getType());
      if (!s.dead)
        ++s.st.back().it;
      return;
    }
    case Instruction::AtomicRMW: {
      auto * A = cast<AtomicRMWInst>(I);
      uint64_t addr;
      makeConcrete(s, eval(s, A->getPointerOperand()).v, addr);
      RV old = load(s, addr, A->getType());
      if (s.dead)
        return;
      RV v = eval(s, A->getValOperand()), nv = v;
      switch (A->getOperation()) {
      case AtomicRMWInst::Xchg: break;
      case AtomicRMWInst::Add: nv.v = binop(Instruction::Add, old.v, v.v, nullptr); break;
      case AtomicRMWInst::Sub: nv.v = binop(Instruction::Sub, old.v, v.v, nullptr); break;
      case AtomicRMWInst::And: nv.v = binop(Instruction::And, old.v, v.v, nullptr); break;
      case AtomicRMWInst::Or: nv.v = binop(Instruction::Or, old.v, v.v, nullptr); break;
      case AtomicRMWInst::Xor: nv.v = binop(Instruction::Xor, old.v, v.v, nullptr); break;
      default: throw Unsupported{"atomicrmw"};
      }
      store(s, addr, nv, A->getType());
      if (!s.dead)
        fin(old);
      return;
    }
    case Instruction::Fence: ++s.st.back().it; return;
    case Instruction::GetElementPtr: {
      vector<RV> ops;
      for (auto & op : I->operands())
        ops.push_back(eval(s, op));
      fin(gep(cast<GEPOperator>(I), ops));
      return;
    }
    case Instruction::ICmp: {
      auto * C = cast<ICmpInst>(I);
      fin(mapBin(eval(s, C->getOperand(0)), eval(s, C->getOperand(1)), [&](Val const & a, Val const & b) {
        return icmp(C->getPredicate(), a, b);
      }));
      return;
    }
    case Instruction::FCmp: {
      auto * C = cast<FCmpInst>(I);
      Type * T = C->getOperand(0)->getType()->getScalarType();
      fin(mapBin(eval(s, C->getOperand(0)), eval(s, C->getOperand(1)), [&](Val const & a, Val const & b) {
        return fcmp(C->getPredicate(), a, b, T);
      }));
      return;
    }
    case Instruction::FNeg: {
      RV a = eval(s, I->getOperand(0));
      fin(mapBin(a, a, [&](Val const & v, Val const &) {
        return binop(Instruction::Xor, v, cv(APInt::getSignMask(v.w())), nullptr);
      }));
      return;
    }
    case Instruction::Select: {
      auto * S = cast<SelectInst>(I);
      RV c = eval(s, S->getCondition());
      RV a = eval(s, S->getTrueValue()), b = eval(s, S->getFalseValue());
      if (c.agg) {
        RV r;
        r.agg = std::make_shared<vector<RV>>();
        for (size_t i = 0; i < c.agg->size(); ++i)
          r.agg->push_back(selectRV((*c.agg)[i].v, (*a.agg)[i], (*b.agg)[i]));
        fin(r);
      }
      else
        fin(selectRV(c.v, a, b));
      return;
    }
    case Instruction::ExtractValue: {
      auto * X = cast<ExtractValueInst>(I);
      RV v = eval(s, X->getAggregateOperand());
      for (unsigned i : X->indices()) {
        RV t = (*v.agg)[i];
        v = t;
      }
      fin(v);
      return;
    }
    case Instruction::InsertValue: {
      auto * X = cast<InsertValueInst>(I);
      RV v = eval(s, X->getAggregateOperand());
      RV e = eval(s, X->getInsertedValueOperand());
      std::function<RV(RV const &, unsigned)> ins = [&](RV const & o, unsigned d) -> RV {
        if (d == X->getNumIndices())
          return e;
        RV r;
        r.agg = std::make_shared<vector<RV>>(*o.agg);
        unsigned i = X->getIndices()[d];
        (*r.agg)[i] = ins((*o.agg)[i], d + 1);
        return r;
      };
      fin(ins(v, 0));
      return;
    }
    case Instruction::ExtractElement: {
      RV v = eval(s, I->getOperand(0)), i = eval(s, I->getOperand(1));
      if (!i.v.conc())
        throw Unsupported{"symbolic vector index"};
      fin((*v.agg)[i.v.u()]);
      return;
    }
    case Instruction::InsertElement: {
      RV v = eval(s, I->getOperand(0)), e = eval(s, I->getOperand(1)), i = eval(s, I->getOperand(2));
      if (!i.v.conc())
        throw Unsupported{"symbolic vector index"};
      RV r;
      r.agg = std::make_shared<vector<RV>>(*v.agg);
      (*r.agg)[i.v.u()] = e;
      fin(r);
      return;
    }
    case Instruction::ShuffleVector: {
      auto * X = cast<ShuffleVectorInst>(I);
      RV a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1));
      RV r;
      r.agg = std::make_shared<vector<RV>>();
      unsigned n = a.agg->size();
      for (int m : X->getShuffleMask())
        r.agg->push_back(m < 0 ? undefOf(X->getType()->getElementType()) : (unsigned)m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
      fin(r);
      return;
    }
    case Instruction::Freeze: fin(eval(s, I->getOperand(0))); return;
    default: break;
    }
    if (I->isCast()) {
      lemmas.clear();
      RV cast = castOp(I->getOpcode(), eval(s, I->getOperand(0)), I->getOperand(0)->getType(), I->getType());
      for (auto & l : lemmas) {
        s.pc.push_back(l);
        ++deaths;
      }
      lemmas.clear();
      fin(cast);
      return;
    }
    if (I->isBinaryOp()) {
      RV a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1));
      unsigned op = I->getOpcode();
      if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        if (a.agg)
          throw Unsupported{"vector division"};
        Val z = veq(b.v, cv(b.v.w(), 0));
        bool ct, cf;
        shared_ptr<z3::model> mt, mf;
        feasible(s, z, ct, cf, mt, mf);
        if (ct) {
          report(s, "arith", "division by zero", mt);
          if (!cf) {
            kill(s);
            return;
          }
          ++deaths;
          addPc(s, vnot(z), mf);
        }
      }
      Type * T = I->getType()->getScalarType();
      fin(mapBin(a, b, [&](Val const & x, Val const & y) { return binop(op, x, y, T); }));
      return;
    }
    throw Unsupported{string("instruction ") + I->getOpcodeName()};
  }

  void run(Function * H)
  {
    curHarness = H->getName().str();
    t0 = now();
    auto s0 = std::make_unique<State>();
    s0->bump = bump0;
    s0->mem = globals;
    pushFrame(*s0, H, {}, nullptr, false);
    // static constructors run first
    if (auto * GC = M.getNamedGlobal("llvm.global_ctors"))
      if (GC->hasInitializer())
        if (auto * CA = dyn_cast<ConstantArray>(GC->getInitializer()))
          for (unsigned i = CA->getNumOperands(); i-- > 0;)
            if (auto * CS = dyn_cast<ConstantStruct>(CA->getOperand(i)))
              if (auto * CF = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()))
                pushFrame(*s0, CF, {}, nullptr, true);
    work.push_back(std::move(s0));
    uint64_t tick = 0;
    while (true) {
      while (!regions.empty() && work.size() <= regions.back().n) {
        Region r = std::move(regions.back());
        regions.pop_back();
        release(r);
      }
      if (work.empty())
        break;
      StateP s = std::move(work.back());
      work.pop_back();
      try {
        if (s->parked) {
          s->parked = 0;
          if (!s->parkHook) {
            RV v = s->parkV;
            afterCall(*s, s->parkSite, s->parkHasV ? &v : nullptr);
          }
        }
        while (!s->dead && !s->parked) {
          step(*s);
          if ((++tick & 0x3ff) == 0 && now() - t0 > lim.timeLimit) {
            problems.push_back("time limit");
            return;
          }
        }
      }
      catch (Infeasible &) {
        continue;
      }
      catch (Unsupported & u) {
        if (s->lazyForked && !s->model && !sat(*s, Z->bool_val(true)))
          continue;
        ++deaths;
        string w = u.what + " @ " + whereOf(*s);
        if (problems.size() < 5)
          problems.push_back(w);
        if (problems.size() > 50)
          return;
      }
      catch (z3::exception & e) {
        if (problems.size() < 5)
          problems.push_back(string("z3: ") + e.msg());
      }
      if (s->parked && !s->dead)
        park(std::move(s));
      if (paths > lim.maxPaths) {
        problems.push_back("path limit");
        return;
      }
    }
  }
};

//----------------------------------------------------------------------------------------------- output
static string jstr(string const & s)
{
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    }
    else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += c;
  }
  return r + "\"";
}
static string jap(APInt const & a)
{
  SmallString<40> s;
  a.toStringUnsigned(s, 16);
  return "\"" + std::string(s.str()) + "\"";
}
static string jins(vector<std::pair<string, APInt>> const & v)
{
  string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += string(i ? "," : "") + "[" + jstr(v[i].first) + "," + std::to_string(v[i].second.getBitWidth()) + "," + jap(v[i].second) + "]";
  return r + "]";
}

static string result(Engine & g, string const & name, double wall)
{
  std::ostringstream o;
  o << "{\"harness\":" << jstr(name) << ",\"paths\":" << g.paths << ",\"forks\":" << g.forks << ",\"merged\":" << g.merged << ",\"instrs\":" << g.instrs
    << ",\"queries\":" << g.queries << ",\"sat\":" << g.satQ << ",\"unsat\":" << g.unsatQ << ",\"asserts\":" << g.assertsChecked
    << ",\"asserts_symbolic\":" << g.assertsSym << ",\"assume_kills\":" << g.pathsKilledByAssume << ",\"solver_s\":" << g.solverTime
    << ",\"wall_s\":" << wall;
  o << ",\"covers\":[";
  bool c = false;
  for (auto & x : g.covers) {
    o << (c ? "," : "") << jstr(x);
    c = true;
  }
  o << "],\"problems\":[";
  c = false;
  for (auto & x : g.problems) {
    o << (c ? "," : "") << jstr(x);
    c = true;
  }
  o << "],\"functions\":[";
  c = false;
  for (auto * f : g.executed) {
    string d = demangle(f->getName().str());
    if (d.find("tiny") == string::npos)
      continue;
    o << (c ? "," : "") << jstr(d);
    c = true;
  }
  o << "],\"n_functions\":" << g.executed.size() << ",\"violations\":[";
  c = false;
  for (auto & v : g.viols) {
    o << (c ? "," : "") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where)
      << ",\"ins\":" << jins(v.ins) << "}";
    c = true;
  }
  o << "],\"traces\":[";
  c = false;
  for (auto & t : g.traces) {
    o << (c ? "," : "") << "{\"end\":" << jstr(t.end) << ",\"ins\":" << jins(t.ins) << ",\"obs\":[";
    for (size_t i = 0; i < t.obs.size(); ++i)
      o << (i ? "," : "") << jap(t.obs[i]);
    o << "],\"covers\":[";
    for (size_t i = 0; i < t.covers.size(); ++i)
      o << (i ? "," : "") << jstr(t.covers[i]);
    o << "]}";
    c = true;
  }
  o << "]}";
  return o.str();
}

int main(int argc, char ** argv)
{
  string in, out;
  bool noMergeOpt = false;
  Limits lim;
  unsigned jobs = 1;
  std::set<string> only;
  bool list = false;
  string smtDir;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto next = [&] { return string(argv[++i]); };
    if (a == "--out")
      out = next();
    else if (a == "--jobs")
      jobs = std::stoul(next());
    else if (a == "--only") {
      std::stringstream ss(next());
      string t;
      while (std::getline(ss, t, ','))
        only.insert(t);
    }
    else if (a == "--no-merge")
      noMergeOpt = true;
    else if (a == "--max-paths")
      lim.maxPaths = std::stoull(next());
    else if (a == "--max-instr")
      lim.maxInstr = std::stoull(next());
    else if (a == "--time-limit")
      lim.timeLimit = std::stod(next());
    else if (a == "--traces")
      lim.maxTraces = std::stoull(next());
    else if (a == "--dump-smt")
      smtDir = next();
    else if (a == "--list")
      list = true;
    else
      in = a;
  }
  LLVMContext C;
  SMDiagnostic err;
  auto M = parseIRFile(in, err, C);
  if (!M) {
    err.print("vpsym", errs());
    return 2;
  }
  vector<Function *> hs;
  for (Function & F : *M)
    if (F.getName().starts_with("vp_h_") && !F.isDeclaration())
      if (only.empty() || only.count(F.getName().str()))
        hs.push_back(&F);
  if (list) {
    for (auto * h : hs)
      std::cout << h->getName().str() << "\n";
    return 0;
  }
  // One process per harness (own z3 context; a crash stays local).
  struct Job
  {
    pid_t pid;
    string file;
    size_t idx;
  };
  vector<string> res(hs.size());
  vector<Job> run;
  size_t nexth = 0;
  auto reap = [&] {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    for (size_t i = 0; i < run.size(); ++i)
      if (run[i].pid == p) {
        std::ifstream f(run[i].file);
        std::stringstream b;
        b << f.rdbuf();
        f.close();
        unlink(run[i].file.c_str());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !b.str().empty())
          res[run[i].idx] = b.str();
        else
          res[run[i].idx] = "{\"harness\":" + jstr(hs[run[i].idx]->getName().str())
                            + ",\"paths\":0,\"problems\":[\"engine crashed\"],\"violations\":[],\"traces\":[],\"covers\":[],\"functions\":[]}";
        run.erase(run.begin() + i);
        return;
      }
  };
  while (nexth < hs.size() || !run.empty()) {
    if (nexth < hs.size() && run.size() < jobs) {
      string file = out + ".part" + std::to_string(nexth);
      pid_t p = fork();
      if (p == 0) {
        Z = new z3::context();
        double t = now();
        string r;
        {
          Engine g(*M, lim);
          g.noMerge = noMergeOpt;
          if (!smtDir.empty()) {
            g.dumpSmt = true;
            g.smtDir = smtDir;
          }
          try {
            g.setupGlobals();
            g.run(hs[nexth]);
          }
          catch (Unsupported & u) {
            g.problems.push_back(u.what);
          }
          catch (z3::exception & e) {
            g.problems.push_back(string("z3: ") + e.msg());
          }
          catch (std::exception & e) {
            g.problems.push_back(string("exception: ") + e.what());
          }
          r = result(g, hs[nexth]->getName().str(), now() - t);
          std::ofstream f(file);
          f << r;
          f.close();
          _exit(0);
        }
      }
      run.push_back({p, file, nexth});
      ++nexth;
    }
    else
      reap();
  }
  std::ofstream f(out);
  f << "[\n";
  for (size_t i = 0; i < res.size(); ++i)
    f << res[i] << (i + 1 < res.size() ? ",\n" : "\n");
  f << "]\n";
  return 0;
}
