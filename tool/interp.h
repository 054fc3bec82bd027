// Interprocedural abstract interpreter over LLVM IR.
#pragma once
#include "val.h"
#include <memory>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Analysis/PostDominators.h>

enum ObjKind : u8 { O_ALLOCA, O_GLOBAL, O_IN, O_OUT, O_INOUT, O_FUNC, O_HEAP, O_NULL };
struct ObjMeta { u8 kind; bool isConst; u32 align; u64 size; std::string name; const llvm::Value *site; u64 histLabel; };
struct ObjData { u32 rc = 0; bool alive = true; std::vector<Cell> cells; };
struct ORef { ObjData *d = nullptr; ORef() {} ORef(ObjData *x) : d(x) { if (d) d->rc++; } ORef(const ORef &o) : d(o.d) { if (d) d->rc++; } ORef(ORef &&o) noexcept : d(o.d) { o.d = nullptr; } ORef &operator=(ORef o) { std::swap(d, o.d); return *this; } ~ORef() { if (d && --d->rc == 0) delete d; } };

// dependency labels
enum : u64 {
  LB_UNINIT = 1ull << 0, LB_HIST = 1ull << 1, LB_ENV = 1ull << 2, LB_OPQ = 1ull << 3, LB_ASM = 1ull << 4,
  LB_SKS = 1ull << 5 /* packed s */, LB_SKP = 1ull << 6 /* pk copy and hpk in sk */, LB_Z = 1ull << 7, LB_PK = 1ull << 8, LB_CT = 1ull << 9, LB_MSG = 1ull << 10, LB_AUX = 1ull << 11,
  LB_OLD = 1ull << 12 /* previous content of an output buffer */, LB_STATE = 1ull << 13,
  LB_R0 = 1ull << 16 /* random draw n: bits 16.. (n < 24) */, LB_LANE0 = 1ull << 44 /* lanes: bits 44..47 */
};

struct Event { std::string type, where, fn, detail; u64 label; u64 count; bool cond; };
struct DInst; struct DFunc;
struct Frame { DFunc *f; std::vector<V> regs; std::vector<u32> allocas; };
struct Outcome { bool dead = false, returned = false; V ret; std::vector<std::pair<int, V>> phis; const llvm::BasicBlock *pred = nullptr; };

struct Interp {
  llvm::Module &M; const llvm::DataLayout &DL; unsigned pw;
  std::vector<ObjMeta> meta; std::vector<ORef> mem;
  std::map<const llvm::GlobalValue *, u32> gobj; std::map<u32, const llvm::Function *> fobj;
  std::map<const llvm::Function *, std::unique_ptr<DFunc>> dfs;
  std::vector<Event> events; std::map<std::string, size_t> evIdx;
  std::vector<const llvm::Instruction *> callStack; std::vector<std::string> fnStack;
  std::set<std::string> histGlobals, writtenGlobals, noIntercept;
  u64 nInst = 0, maxInst = 4000000000ull, nForks = 0, maxForks = 200000, nLoads = 0, nStores = 0, nCalls = 0; int symDepth = 0; std::vector<Lit> guards;
  std::set<const llvm::Function *> analysed; std::set<const llvm::Instruction *> condBranches;
  std::map<std::string, std::function<V(Interp &, const llvm::CallBase *, std::vector<V> &)>> hooks;
  std::function<V(u64 addr, unsigned width)> deviceLoad; // loads at fixed addresses (device registers)
  std::function<bool(Interp &, const llvm::CallBase *, const llvm::Function *, std::vector<V> &, V &)> primHook; // summarised primitives
  std::set<const llvm::Value *> accessedSites; const llvm::Instruction *curI = nullptr;

  Interp(llvm::Module &m);
  u32 newObj(u8 kind, u64 size, u32 align, const std::string &name, bool isConst, const llvm::Value *site = nullptr);
  ObjData &W(u32 id) { ORef &r = mem[id]; if (r.d->rc > 1) { ObjData *n = new ObjData; n->alive = r.d->alive; n->cells = r.d->cells; r = ORef(n); } return *r.d; }
  const ObjData &R(u32 id) { return *mem[id].d; }
  void event(const char *type, const std::string &detail, u64 label);
  std::string where(const llvm::Instruction *I);
  // memory
  bool check(const V &p, u64 n, bool write, unsigned align, const char *what);
  Cell &uninit(u32 obj, u64 off);
  void loadCells(const V &p, u64 n, Cell *o, unsigned align);
  void storeCells(const V &p, u64 n, const Cell *c, unsigned align);
  V load(const V &p, llvm::Type *t, unsigned align);
  void store(const V &p, const V &v, llvm::Type *t, unsigned align);
  void copyMem(const V &d, const V &s, u64 n); void setMem(const V &d, const V &v, u64 n);
  std::vector<Lit> readBits(const V &p, u64 n); void writeBits(const V &p, const std::vector<Lit> &l);
  std::vector<Lit> objBits(u32 obj, u64 off, u64 n);
  void initBits(u32 obj, u64 off, const std::vector<Lit> &l);
  u32 globalObj(const llvm::GlobalValue *g); void initConst(u32 obj, u64 off, const llvm::Constant *c);
  V constVal(const llvm::Constant *c);
  // execution
  V call(const llvm::Function *f, std::vector<V> args);
  Outcome run(Frame &fr, const llvm::BasicBlock *b, const llvm::BasicBlock *pred, const llvm::BasicBlock *stop, std::vector<std::pair<int, V>> *preset);
  void join(Lit c, std::vector<ORef> &ma, std::vector<ORef> &mb);
  V execCall(Frame &fr, const llvm::CallBase *cb, bool &dead);
  V evalOp(Frame &fr, const llvm::Instruction *I);
  V opnd(Frame &fr, const llvm::Value *v);
  V binop(unsigned opc, const V &a, const V &b, const llvm::Instruction *I);
  V vecMap2(llvm::Type *t, const V &a, const V &b, const std::function<V(const V &, const V &)> &f);
  V elem(const V &v, unsigned i, unsigned bytes); V packVec(std::vector<V> &e, unsigned ew);
  V elemT(const V &v, unsigned i, llvm::Type *et);
  V intrinsic(const llvm::CallBase *cb, const std::string &name, std::vector<V> &a, bool &handled);
  V x86(const llvm::CallBase *cb, const std::string &name, std::vector<V> &a, bool &handled);
  V icmp(unsigned pred, const V &a, const V &b);
  V undefVal(llvm::Type *t);
  V mkUninit(unsigned w);
};
struct DFunc { const llvm::Function *F; std::map<const llvm::Value *, int> slot; int nslots = 0; std::unique_ptr<llvm::PostDominatorTree> pdt; std::map<const llvm::BasicBlock *, const llvm::BasicBlock *> ipd; std::unordered_map<const llvm::Value *, V> consts; bool isConstCache = false; };
V aesEnc(const V &st, const V &rk, bool last); V aesKeyAssist(const V &k, unsigned imm);
// primitives
struct Prims { std::map<std::vector<u32>, u32> tab; u32 next = 0; std::vector<std::string> names;
  std::vector<std::vector<u32>> keys; std::vector<u32> nodeBase;
  // value-numbered application of a named primitive to bit inputs
  std::vector<Lit> apply(u32 kind, const std::vector<Lit> &in, unsigned nout) { std::vector<u32> key; key.reserve(in.size() + 2); key.push_back(kind); key.push_back(nout); key.insert(key.end(), in.begin(), in.end());
    auto it = tab.find(key); u32 base; if (it == tab.end()) { u64 lab = 0; for (Lit l : in) lab |= BS.label(l); base = BS.block(N_PRIM, next++, nout, lab); nodeBase.push_back(base); keys.push_back(key); tab[key] = base; } else base = it->second;
    std::vector<Lit> o(nout); for (unsigned i = 0; i < nout; i++) o[i] = (base + i) << 1; return o; } };
enum : u32 { PR_KECCAK = 1, PR_AES256 = 2, PR_SHA256 = 3, PR_SHA512 = 4, PR_SHA256B = 5, PR_SHA512B = 6 };
extern Prims PR;
