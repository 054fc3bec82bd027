#include "interp.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
using namespace llvm;
BitStore BS; PolyStore PS; Ops OP; Prims PR;

Interp::Interp(Module &m) : M(m), DL(m.getDataLayout()) { pw = DL.getPointerSizeInBits(); OP.LAB_OPQ = LB_OPQ; newObj(O_NULL, 0, 1, "null", true); }
u32 Interp::newObj(u8 kind, u64 size, u32 align, const std::string &name, bool isConst, const Value *site) {
  meta.push_back({kind, isConst, align, size, name, site, 0}); ObjData *d = new ObjData; if (kind != O_FUNC) { d->cells.resize(size); for (auto &c : d->cells) c.kind = V_UNINIT; } mem.push_back(ORef(d)); return (u32)meta.size() - 1; }
std::string Interp::where(const Instruction *I) {
  if (!I) return "?"; std::string s; if (auto &d = I->getDebugLoc()) { auto *sc = cast<DIScope>(d.getScope()); s = sc->getFilename().str() + ":" + std::to_string(d.getLine()); } else s = "?"; return s; }
void Interp::event(const char *type, const std::string &detail, u64 label) {
  std::string w = where(curI); std::string fn = curI ? curI->getFunction()->getName().str() : "";
  std::string key = std::string(type) + "|" + w + "|" + detail; auto it = evIdx.find(key);
  if (it != evIdx.end()) { events[it->second].count++; events[it->second].label |= label; return; }
  evIdx[key] = events.size(); std::string chain; for (auto &f : fnStack) chain += (chain.empty() ? "" : ">") + f; events.push_back({type, w, chain, detail, label, 1, symDepth > 0}); }

static std::string pstr(Interp &I, const V &p) { return I.meta[p.obj].name + "[" + std::to_string((i64)p.c) + "]"; }
bool Interp::check(const V &p, u64 n, bool write, unsigned align, const char *what) {
  const ObjMeta &m = meta[p.obj]; i64 off = (i64)p.c;
  if (m.kind == O_FUNC || m.kind == O_NULL) { event("oob", std::string(what) + " through invalid pointer", 0); return false; }
  if (!R(p.obj).alive) { event("dead", std::string(what) + " to dead object " + m.name, 0); return false; }
  if (off < 0 || (u64)off + n > m.size) { event("oob", std::string(what) + " of " + std::to_string(n) + " byte(s) at offset " + std::to_string(off) + " of object '" + m.name + "' (" + std::to_string(m.size) + " bytes)", 0); return false; }
  if (align > 1 && (m.align < align || off % align)) event("align", std::string(what) + " requiring alignment " + std::to_string(align) + " of object '" + m.name + "' (alignment " + std::to_string(m.align) + ", kind " + std::to_string(m.kind) + ") offset%align=" + std::to_string(off % align), 0);
  if (write) { if (m.kind == O_IN || (m.isConst && m.kind == O_GLOBAL)) event("constwrite", "write to read-only object '" + m.name + "'", 0); }
  return true; }
V Interp::mkUninit(unsigned w) { u32 b = BS.block(N_UNINIT, 0, w, LB_UNINIT); BitsObj *o = newBits(w); for (unsigned i = 0; i < w; i++) o->b[i] = (b + i) << 1; return mkB(o, w); }
Cell &Interp::uninit(u32 obj, u64 off) { // materialise a stable name for an uninitialised byte (shared between snapshots: name is a property of the object)
  Cell &c = mem[obj].d->cells[off]; if (c.kind == V_UNINIT) { u64 lab = meta[obj].histLabel ? meta[obj].histLabel : (u64)LB_UNINIT; static std::map<std::pair<u32, u64>, u32> names; auto k = std::make_pair(obj, off); auto it = names.find(k); u32 b; if (it == names.end()) { b = BS.block(N_UNINIT, obj, 8, lab); names[k] = b; } else b = it->second; Lit l[8]; for (int i = 0; i < 8; i++) l[i] = (b + i) << 1; c = mkBits(l, 8); } return c; }
void Interp::loadCells(const V &p, u64 n, Cell *o, unsigned align) {
  nLoads++;
  if (p.kind == V_PTR) { if (!check(p, n, false, align, "read")) { for (u64 i = 0; i < n; i++) { if ((i64)(p.c + i) >= 0 && p.c + i < meta[p.obj].size && meta[p.obj].kind != O_FUNC) { V q = p; q.c += i; o[i] = R(p.obj).cells[q.c].kind == V_UNINIT ? uninit(p.obj, q.c) : R(p.obj).cells[q.c]; } else o[i] = mkUninit(8); } return; }
    const ObjData &d = R(p.obj); for (u64 i = 0; i < n; i++) { const Cell &c = d.cells[p.c + i]; if (c.kind == V_UNINIT) o[i] = uninit(p.obj, p.c + i); else o[i] = c; } return; }
  if (p.kind == V_GP) { // address depends on input
    event("addr", "read through an address selected by data", OP.label(p));
    std::vector<Cell> t(n); bool first = true; for (auto &a : p.g->alt) { loadCells(a.second, n, t.data(), align); for (u64 i = 0; i < n; i++) o[i] = first ? t[i] : OP.iteCell(a.first, t[i], o[i]); first = false; } return; }
  if (p.kind == V_C) event("oob", "read through null/constant pointer", 0); else event("addr", "read through unresolved address", OP.label(p));
  for (u64 i = 0; i < n; i++) { Lit l[8]; V x = OP.opaque(20, 8, {p, mkC(i, 32)}, "unresolved load"); o[i] = x; (void)l; } }
void Interp::storeCells(const V &p, u64 n, const Cell *c, unsigned align) {
  nStores++;
  if (p.kind == V_PTR) { bool ok = check(p, n, true, align, "write"); const ObjMeta &m = meta[p.obj];
    if (m.kind == O_GLOBAL) { writtenGlobals.insert(m.name); u64 lab = 0; for (u64 i = 0; i < n; i++) lab |= OP.label(c[i]); for (Lit g : guards) lab |= BS.label(g); event("globwrite", "store to static object '" + m.name + "'", lab); }
    if (m.kind == O_FUNC || m.kind == O_NULL || (!ok && !R(p.obj).alive)) return;
    ObjData &d = W(p.obj); for (u64 i = 0; i < n; i++) if (ok || ((i64)(p.c + i) >= 0 && p.c + i < m.size)) d.cells[p.c + i] = c[i];
    return; }
  if (p.kind == V_GP) { event("addr", "write through an address selected by data", OP.label(p));
    for (auto &a : p.g->alt) if (a.second.kind == V_PTR) { std::vector<Cell> t(n); if (!check(a.second, n, true, align, "write")) continue; loadCells(a.second, n, t.data(), 1); for (u64 i = 0; i < n; i++) t[i] = OP.iteCell(a.first, c[i], t[i]); storeCells(a.second, n, t.data(), align); } return; }
  if (p.kind == V_C) event("oob", "write through null/constant pointer", 0); else event("addr", "write through unresolved address", OP.label(p)); }
static unsigned bytesOf(Interp &I, Type *t) { return (unsigned)I.DL.getTypeStoreSize(t).getFixedValue(); }
V Interp::load(const V &p, Type *t, unsigned align) {
  unsigned n = bytesOf(*this, t);
  if (t->isIntegerTy() || t->isPointerTy()) { if (n > 8) throw AnalysisAbort{"wide integer load"}; Cell c[8]; loadCells(p, n, c, align); V r = OP.fromCells(c, n); if (t->isIntegerTy() && t->getIntegerBitWidth() != 8 * n) r = OP.trunc(r, t->getIntegerBitWidth()); return r; }
  if (t->isFloatTy() || t->isDoubleTy()) { Cell c[8]; loadCells(p, n, c, align); return OP.fromCells(c, n); }
  VecObj *o = new VecObj; o->cells.resize(n); V r = mkVec(o); loadCells(p, n, o->cells.data(), align); return r; }
void Interp::store(const V &p, const V &v, Type *t, unsigned align) {
  unsigned n = bytesOf(*this, t);
  if (v.kind == V_VEC) { if (v.v->cells.size() < n) throw AnalysisAbort{"vector store shape"}; storeCells(p, n, v.v->cells.data(), align); return; }
  Cell c[8]; if (n > 8) throw AnalysisAbort{"wide integer store"}; V x = v; if (x.kind == V_NONE) x = mkUninit(8 * n); if (x.w != 8 * n && x.kind != V_PTR && x.kind != V_GP) x = OP.zext(x, 8 * n); OP.toCells(x, n, c); storeCells(p, n, c, align); }
void Interp::copyMem(const V &d, const V &s, u64 n) { if (!n) return; if (n > (1u << 24)) { event("oob", "copy of " + std::to_string(n) + " bytes", 0); return; } std::vector<Cell> t(n); loadCells(s, n, t.data(), 1); storeCells(d, n, t.data(), 1); }
void Interp::setMem(const V &d, const V &v, u64 n) { if (!n) return; if (n > (1u << 24)) { event("oob", "fill of " + std::to_string(n) + " bytes", 0); return; } std::vector<Cell> t(n, v); storeCells(d, n, t.data(), 1); }
std::vector<Lit> Interp::readBits(const V &p, u64 n) { std::vector<Cell> t(n); loadCells(p, n, t.data(), 1); std::vector<Lit> o(8 * n); for (u64 i = 0; i < n; i++) OP.cellBits(t[i], &o[8 * i]); return o; }
void Interp::writeBits(const V &p, const std::vector<Lit> &l) { u64 n = l.size() / 8; std::vector<Cell> t(n); for (u64 i = 0; i < n; i++) t[i] = mkBits(&l[8 * i], 8); if (n) storeCells(p, n, t.data(), 1); }
std::vector<Lit> Interp::objBits(u32 obj, u64 off, u64 n) { std::vector<Lit> o(8 * n); for (u64 i = 0; i < n; i++) { const Cell &c = R(obj).cells[off + i]; if (c.kind == V_UNINIT) OP.cellBits(uninit(obj, off + i), &o[8 * i]); else OP.cellBits(c, &o[8 * i]); } return o; }
void Interp::initBits(u32 obj, u64 off, const std::vector<Lit> &l) { ObjData &d = W(obj); for (u64 i = 0; i < l.size() / 8; i++) d.cells[off + i] = mkBits(&l[8 * i], 8); }

void Interp::initConst(u32 obj, u64 off, const Constant *c) {
  Type *t = c->getType(); u64 n = DL.getTypeStoreSize(t).getFixedValue(); ObjData &d = W(obj);
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { for (u64 i = 0; i < n; i++) d.cells[off + i] = mkC(0, 8); return; }
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL.getTypeStoreSize(ds->getElementType()).getFixedValue(); for (unsigned i = 0; i < ds->getNumElements(); i++) { u64 v = ds->getElementType()->isIntegerTy() ? ds->getElementAsInteger(i) : ds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); for (u64 j = 0; j < es; j++) d.cells[off + i * es + j] = mkC((v >> (8 * j)) & 0xff, 8); } return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) { u64 o; if (auto *st = dyn_cast<StructType>(t)) o = DL.getStructLayout(st)->getElementOffset(i); else { Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType(); o = i * DL.getTypeAllocSize(et).getFixedValue(); } initConst(obj, off + o, ca->getOperand(i)); } return; }
  if (isa<UndefValue>(c)) return;
  V v = constVal(c); Cell cc[8]; OP.toCells(v, (unsigned)n, cc); for (u64 i = 0; i < n; i++) W(obj).cells[off + i] = cc[i]; }
u32 Interp::globalObj(const GlobalValue *g) {
  auto it = gobj.find(g); if (it != gobj.end()) return it->second;
  if (auto *f = dyn_cast<Function>(g)) { u32 o = newObj(O_FUNC, 0, 1, g->getName().str(), true); gobj[g] = o; fobj[o] = f; return o; }
  auto *gv = cast<GlobalVariable>(g); u64 sz = DL.getTypeAllocSize(gv->getValueType()).getFixedValue(); u32 al = (u32)std::max<u64>(gv->getAlign() ? gv->getAlign()->value() : 1, DL.getABITypeAlign(gv->getValueType()).value());
  u32 o = newObj(O_GLOBAL, sz, al, g->getName().str(), gv->isConstant()); gobj[g] = o;
  if (histGlobals.count(meta[o].name) || !gv->hasInitializer()) meta[o].histLabel = LB_HIST; else { for (auto &c : W(o).cells) c = mkC(0, 8); initConst(o, 0, gv->getInitializer()); }
  return o; }
V Interp::undefVal(Type *t) { if (t->isVectorTy()) { unsigned n = bytesOf(*this, t); VecObj *o = new VecObj; auto *vt = cast<FixedVectorType>(t); if (vt->getElementType()->isIntegerTy(1)) { for (unsigned i = 0; i < vt->getNumElements(); i++) o->elems.push_back(mkC(0, 1)); return mkVec(o); } o->cells.resize(n); V u = mkUninit(8); for (auto &c : o->cells) c = u; return mkVec(o); } if (t->isPointerTy()) return mkUninit(pw); if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return mkUninit(w > 64 ? 64 : w); } return V(); }
V Interp::constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w > 64) { VecObj *o = new VecObj; for (unsigned i = 0; i < w / 8; i++) o->cells.push_back(mkC(ci->getValue().extractBitsAsZExtValue(8, 8 * i), 8)); return mkVec(o); } return mkC(ci->getZExtValue(), w); }
  if (isa<ConstantPointerNull>(c)) return mkC(0, pw);
  if (isa<UndefValue>(c)) return undefVal(c->getType());
  if (auto *g = dyn_cast<GlobalValue>(c)) { if (auto *ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee()); return mkPtr(globalObj(g), 0, pw); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return mkC(cf->getValueAPF().bitcastToAPInt().getZExtValue(), (unsigned)DL.getTypeSizeInBits(c->getType()));
  if (c->getType()->isVectorTy()) { auto *vt = cast<FixedVectorType>(c->getType()); VecObj *o = new VecObj; V r = mkVec(o); unsigned N = vt->getNumElements();
    if (vt->getElementType()->isIntegerTy(1)) { for (unsigned i = 0; i < N; i++) { auto *e = c->getAggregateElement(i); o->elems.push_back(isa<UndefValue>(e) ? mkC(0, 1) : constVal(e)); } return r; }
    unsigned eb = bytesOf(*this, vt->getElementType()); for (unsigned i = 0; i < N; i++) { V e = constVal(c->getAggregateElement(i)); Cell cc[8]; OP.toCells(e, eb, cc); for (unsigned j = 0; j < eb; j++) o->cells.push_back(cc[j]); } return r; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) { APInt off(DL.getIndexTypeSizeInBits(gep->getType()), 0); if (gep->accumulateConstantOffset(DL, off)) { V b = constVal(cast<Constant>(gep->getPointerOperand())); if (b.kind == V_PTR) b.c += off.getSExtValue(); else if (b.kind == V_C) b.c += off.getSExtValue(); return b; } }
    if (ce->isCast()) { V b = constVal(ce->getOperand(0)); if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast) { if (b.kind == V_C) { unsigned w = ce->getType()->isPointerTy() ? pw : ce->getType()->getIntegerBitWidth(); return mkC(b.c, w); } return b; } if (ce->getOpcode() == Instruction::Trunc) return OP.trunc(b, ce->getType()->getIntegerBitWidth()); }
    if (ce->getOpcode() == Instruction::Add) return OP.addsub(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), false);
    if (ce->getOpcode() == Instruction::Sub) return OP.addsub(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), true); }
  if (c->isNullValue()) { if (c->getType()->isIntegerTy()) return mkC(0, c->getType()->getIntegerBitWidth()); }
  std::string s; raw_string_ostream os(s); c->print(os); throw AnalysisAbort{"unsupported constant " + os.str()}; }

V Interp::opnd(Frame &fr, const Value *v) {
  auto it = fr.f->slot.find(v); if (it != fr.f->slot.end()) { V &r = fr.regs[it->second]; if (r.kind == V_NONE) return undefVal(v->getType()); return r; }
  auto ci = fr.f->consts.find(v); if (ci != fr.f->consts.end()) return ci->second;
  if (auto *c = dyn_cast<Constant>(v)) { V r = constVal(c); if (!isa<UndefValue>(c)) fr.f->consts[v] = r; return r; }
  if (isa<MetadataAsValue>(v)) return V();
  throw AnalysisAbort{"operand"}; }

V Interp::elem(const V &v, unsigned i, unsigned bytes) { return OP.fromCells(&v.v->cells[i * bytes], bytes); }
V Interp::elemT(const V &v, unsigned i, Type *et) { if (et->isIntegerTy(1)) return v.v->elems[i]; return elem(v, i, bytesOf(*this, et)); }
V Interp::packVec(std::vector<V> &e, unsigned ew) { VecObj *o = new VecObj; V r = mkVec(o); if (ew == 1) { o->elems = e; return r; } unsigned b = ew / 8; o->cells.resize(e.size() * b); for (size_t i = 0; i < e.size(); i++) OP.toCells(e[i], b, &o->cells[i * b]); return r; }
V Interp::vecMap2(Type *t, const V &a, const V &b, const std::function<V(const V &, const V &)> &f) {
  auto *vt = cast<FixedVectorType>(t); Type *et = vt->getElementType(); unsigned N = vt->getNumElements(); std::vector<V> e(N);
  for (unsigned i = 0; i < N; i++) e[i] = f(elemT(a, i, et), elemT(b, i, et));
  return packVec(e, et->isIntegerTy(1) ? 1 : 8 * bytesOf(*this, et)); }
V Interp::icmp(unsigned pred, const V &a, const V &b) {
  Lit r; switch (pred) { case CmpInst::ICMP_EQ: r = OP.eq(a, b); break; case CmpInst::ICMP_NE: r = OP.eq(a, b) ^ 1; break; case CmpInst::ICMP_ULT: r = OP.ult(a, b, false); break; case CmpInst::ICMP_UGE: r = OP.ult(a, b, false) ^ 1; break; case CmpInst::ICMP_UGT: r = OP.ult(b, a, false); break; case CmpInst::ICMP_ULE: r = OP.ult(b, a, false) ^ 1; break; case CmpInst::ICMP_SLT: r = OP.ult(a, b, true); break; case CmpInst::ICMP_SGE: r = OP.ult(a, b, true) ^ 1; break; case CmpInst::ICMP_SGT: r = OP.ult(b, a, true); break; default: r = OP.ult(b, a, true) ^ 1; break; }
  return mkBits(&r, 1); }
V Interp::binop(unsigned opc, const V &a, const V &b, const Instruction *I) {
  unsigned w = a.w;
  switch (opc) {
  case Instruction::Add: return OP.addsub(a, b, false); case Instruction::Sub: return OP.addsub(a, b, true); case Instruction::Mul: return OP.mul(a, b);
  case Instruction::And: return OP.And(a, b); case Instruction::Or: return OP.Or(a, b); case Instruction::Xor: return OP.Xor(a, b);
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    if (b.kind == V_C) { if (b.c >= w) event("shift", "shift amount " + std::to_string(b.c) + " >= width " + std::to_string(w), 0); return opc == Instruction::Shl ? OP.shl(a, (unsigned)std::min<u64>(b.c, 255)) : OP.shr(a, (unsigned)std::min<u64>(b.c, 255), opc == Instruction::AShr); }
    else { // data-dependent shift amount: barrel
      Lit s[64]; OP.bits(b, s); V r = a; unsigned lg = 0; while ((1u << lg) < w) lg++; for (unsigned i = 0; i < lg; i++) { V t = opc == Instruction::Shl ? OP.shl(r, 1u << i) : OP.shr(r, 1u << i, opc == Instruction::AShr); r = OP.ite(s[i], t, r); } return r; }
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    if (a.kind == V_C && b.kind == V_C) { if (b.c == 0) { event("div0", "division by zero", 0); return mkC(0, w); } if (opc == Instruction::UDiv) return mkC(a.c / b.c, w); if (opc == Instruction::URem) return mkC(a.c % b.c, w); i64 x = Ops::sx(a), y = Ops::sx(b); if (y == -1) return opc == Instruction::SDiv ? mkC((u64)0 - (u64)x, w) : mkC(0, w); return opc == Instruction::SDiv ? mkC((u64)(x / y), w) : mkC((u64)(x % y), w); }
    bool p2 = b.kind == V_C && b.c && !(b.c & (b.c - 1));
    if (!p2) event("div", "division/remainder with data operand", OP.label(a) | OP.label(b));
    if (p2 && (opc == Instruction::UDiv)) return OP.shr(a, __builtin_ctzll(b.c), false);
    if (p2 && (opc == Instruction::URem)) return OP.And(a, mkC(b.c - 1, w));
    if (p2) { Lit l[64]; OP.bits(a, l); unsigned s = __builtin_ctzll(b.c); if (l[w - 1] == L0) return opc == Instruction::SDiv ? OP.shr(a, s, false) : OP.And(a, mkC(b.c - 1, w));
      // signed: (a + ((a>>31)&(2^s-1))) >> s
      V sg = OP.shr(a, w - 1, true); V bias = OP.And(sg, mkC(b.c - 1, w)); V t = OP.addsub(a, bias, false); V q = OP.shr(t, s, true); return opc == Instruction::SDiv ? q : OP.addsub(a, OP.shl(q, s), true); }
    return OP.opaque(30 + opc, w, {a, b}, "division"); }
  default: throw AnalysisAbort{std::string("unsupported binary op ") + I->getOpcodeName()}; } }

void Interp::join(Lit c, std::vector<ORef> &ma, std::vector<ORef> &mb) { // mem := c ? ma : mb
  size_t n = std::max(ma.size(), mb.size()); mem.clear(); mem.resize(n);
  for (size_t i = 0; i < n; i++) {
    if (i >= ma.size() || !ma[i].d) { mem[i] = mb[i]; continue; } if (i >= mb.size() || !mb[i].d) { mem[i] = ma[i]; continue; }
    if (ma[i].d == mb[i].d) { mem[i] = ma[i]; continue; }
    ObjData *x = ma[i].d, *y = mb[i].d; ObjData *o = new ObjData; o->alive = x->alive && y->alive; o->cells = x->cells;
    mem[i] = ORef(o);
    for (size_t j = 0; j < o->cells.size(); j++) { if (Ops::sameCell(x->cells[j], y->cells[j])) continue; Cell a = x->cells[j], b = y->cells[j]; if (a.kind == V_UNINIT) { mem[i].d->cells[j].kind = V_UNINIT; mem[i].d->cells[j] = Cell(); mem[i].d->cells[j].kind = V_UNINIT; a = uninit((u32)i, j); } if (b.kind == V_UNINIT) { Cell s = mem[i].d->cells[j]; mem[i].d->cells[j] = Cell(); mem[i].d->cells[j].kind = V_UNINIT; b = uninit((u32)i, j); } mem[i].d->cells[j] = OP.iteCell(c, a, b); } } }

Outcome Interp::run(Frame &fr, const BasicBlock *b, const BasicBlock *pred, const BasicBlock *stop, std::vector<std::pair<int, V>> *preset) {
  std::vector<std::pair<int, V>> pv; bool have = false; if (preset) { pv = *preset; have = true; }
  auto phisFor = [&](const BasicBlock *blk, const BasicBlock *from) { std::vector<std::pair<int, V>> r; for (auto &ph : blk->phis()) r.push_back({fr.f->slot[&ph], opnd(fr, ph.getIncomingValueForBlock(from))}); return r; };
  for (;;) {
    if (!have) pv = phisFor(b, pred);
    have = false; for (auto &x : pv) fr.regs[x.first] = x.second;
    const BasicBlock *next = nullptr;
    for (auto it = b->getFirstNonPHIIt(); it != b->end(); ++it) {
      const Instruction *I = &*it; curI = I; if (++nInst > maxInst) throw AnalysisAbort{"instruction budget exceeded at " + where(I)};
      if (!I->isTerminator()) {
        if (auto *cb = dyn_cast<CallBase>(I)) { bool dead = false; V r = execCall(fr, cb, dead); curI = I; if (dead) { Outcome o; o.dead = true; return o; } if (!I->getType()->isVoidTy()) fr.regs[fr.f->slot[I]] = std::move(r); continue; }
        if (I->getType()->isVoidTy()) { evalOp(fr, I); continue; }
        V r = evalOp(fr, I); fr.regs[fr.f->slot[I]] = std::move(r); continue; }
      if (auto *rt = dyn_cast<ReturnInst>(I)) { Outcome o; o.returned = true; if (rt->getReturnValue()) o.ret = opnd(fr, rt->getReturnValue()); return o; }
      if (isa<UnreachableInst>(I)) { Outcome o; o.dead = true; return o; }
      std::vector<std::pair<Lit, const BasicBlock *>> tg;
      if (auto *br = dyn_cast<BranchInst>(I)) {
        if (br->isUnconditional()) tg.push_back({L1, br->getSuccessor(0)});
        else { V c = opnd(fr, br->getCondition()); Lit l[1]; OP.bits(c, l); condBranches.insert(I); tg.push_back({l[0], br->getSuccessor(0)}); tg.push_back({l[0] ^ 1, br->getSuccessor(1)}); } }
      else if (auto *sw = dyn_cast<SwitchInst>(I)) { V c = opnd(fr, sw->getCondition()); condBranches.insert(I); Lit none = L1; for (auto &cs : sw->cases()) { Lit e = OP.eq(c, mkC(cs.getCaseValue()->getZExtValue(), c.w)); tg.push_back({e, cs.getCaseSuccessor()}); none = BS.And(none, e ^ 1); } tg.push_back({none, sw->getDefaultDest()}); }
      else throw AnalysisAbort{std::string("unsupported terminator ") + I->getOpcodeName()};
      const BasicBlock *only = nullptr; std::vector<std::pair<Lit, const BasicBlock *>> live; for (auto &t : tg) { if (t.first == L1) { only = t.second; break; } if (t.first != L0) live.push_back(t); }
      if (!only && live.size() == 1) only = live[0].second;
      if (!only) { bool same = true; for (auto &t : live) if (t.second != live[0].second || t.second->phis().begin() != t.second->phis().end()) same = false; if (same && !live.empty()) only = live[0].second; }
      if (only) { next = only; break; }
      // condition is not the same for all inputs: analyse the sides and join at the immediate post-dominator
      u64 lab = 0; for (auto &t : live) lab |= BS.label(t.first);
      event("branch", isa<SwitchInst>(I) ? "switch on data" : "conditional jump on data", lab);
      if (++nForks > maxForks) throw AnalysisAbort{"too many data-dependent branches at " + where(I)};
      const BasicBlock *S = fr.f->ipd[b];
      std::vector<ORef> m0 = mem; std::vector<V> r0 = fr.regs; std::vector<u32> al0 = fr.allocas;
      Outcome acc; acc.dead = true; std::vector<ORef> macc; std::vector<V> racc; bool first = true; Lit gacc = L0;
      for (auto &t : live) {
        mem = m0; while (mem.size() < meta.size()) mem.push_back(ORef()); fr.regs = r0; Outcome o; symDepth++; guards.push_back(t.first); const Instruction *cI = I;
        if (t.second == S) { o.phis = phisFor(S, b); } else o = run(fr, t.second, b, S, nullptr);
        symDepth--; guards.pop_back(); curI = cI;
        if (o.dead) continue;
        if (first) { acc = o; macc = mem; racc = fr.regs; gacc = t.first; first = false; continue; }
        std::vector<ORef> mb = mem; join(gacc, macc, mb); macc = mem;
        if (o.returned) { acc.ret = OP.ite(gacc, acc.ret, o.ret); }
        for (size_t q = 0; q < acc.phis.size() && q < o.phis.size(); q++) acc.phis[q].second = OP.ite(gacc, acc.phis[q].second, o.phis[q].second);
        for (size_t q = 0; q < racc.size(); q++) { V &x = racc[q], &y = fr.regs[q]; if (x.kind == V_NONE) { continue; } if (y.kind == V_NONE) { x = V(); continue; } if (Ops::sameCell(x, y)) continue; if (x.w != y.w || (x.kind == V_VEC) != (y.kind == V_VEC)) { x = V(); continue; } x = OP.ite(gacc, x, y); }
        gacc = BS.Or(gacc, t.first); }
      mem = macc; while (mem.size() < meta.size()) mem.push_back(ORef()); fr.regs = racc;
      if (first) { Outcome o; o.dead = true; mem = m0; while (mem.size() < meta.size()) mem.push_back(ORef()); fr.regs = r0; return o; }
      if (!S || acc.returned) return acc;
      if (S == stop) return acc;
      pv = acc.phis; have = true; next = S; break; }
    if (!next) throw AnalysisAbort{"fell off block"};
    if (!have) { if (next == stop) { Outcome o; o.phis = phisFor(next, b); return o; } pred = b; }
    b = next; } }

V Interp::call(const Function *f, std::vector<V> args) {
  nCalls++; analysed.insert(f);
  auto &dp = dfs[f]; if (!dp) { dp.reset(new DFunc); dp->F = f; for (auto &a : f->args()) dp->slot[&a] = dp->nslots++; for (auto &bb : *f) for (auto &I : bb) if (!I.getType()->isVoidTy()) dp->slot[&I] = dp->nslots++;
    dp->pdt.reset(new PostDominatorTree(const_cast<Function &>(*f))); for (auto &bb : *f) { auto *n = dp->pdt->getNode(&bb); const BasicBlock *ip = nullptr; if (n && n->getIDom()) ip = n->getIDom()->getBlock(); dp->ipd[&bb] = ip; } }
  if (fnStack.size() > 200) throw AnalysisAbort{"recursion too deep"};
  Frame fr; fr.f = dp.get(); fr.regs.resize(dp->nslots); unsigned i = 0; for (auto &a : f->args()) { if (i < args.size()) fr.regs[dp->slot[&a]] = args[i]; i++; }
  fnStack.push_back(f->getName().str()); const Instruction *cI = curI;
  Outcome o = run(fr, &f->getEntryBlock(), nullptr, nullptr, nullptr);
  fnStack.pop_back(); curI = cI;
  for (u32 a : fr.allocas) if (a < mem.size() && mem[a].d) { ObjData *d = new ObjData; d->alive = false; mem[a] = ORef(d); }
  if (o.dead) { V r; r.kind = V_NONE; r.w = 255; return r; }
  return o.ret; }

V Interp::evalOp(Frame &fr, const Instruction *I) {
  unsigned opc = I->getOpcode();
  switch (opc) {
  case Instruction::Alloca: { auto *a = cast<AllocaInst>(I); u64 n = 1; if (a->isArrayAllocation()) { V c = opnd(fr, a->getArraySize()); if (c.kind != V_C) { event("len", "data-dependent array size", OP.label(c)); n = 4096; } else n = c.c; } u64 sz = DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue() * n; if (sz > (1u << 24)) throw AnalysisAbort{"huge stack object"};
    std::string nm = a->getName().str(); u32 o = newObj(O_ALLOCA, sz, (u32)a->getAlign().value(), nm.empty() ? "local" : nm, false, a); fr.allocas.push_back(o); return mkPtr(o, 0, pw); }
  case Instruction::Load: { auto *l = cast<LoadInst>(I); V lp = opnd(fr, l->getPointerOperand()); if (deviceLoad && lp.kind == V_C && lp.c && l->getType()->isIntegerTy()) return deviceLoad(lp.c, l->getType()->getIntegerBitWidth()); return load(lp, l->getType(), (unsigned)l->getAlign().value()); }
  case Instruction::Fence: return V();
  case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(I); Type *t = r->getValOperand()->getType(); if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64) break; unsigned o2 = 0; bool xchg = false; // one thread of control: a read followed by a write
    switch (r->getOperation()) { case AtomicRMWInst::Xchg: xchg = true; break; case AtomicRMWInst::Add: o2 = Instruction::Add; break; case AtomicRMWInst::Sub: o2 = Instruction::Sub; break; case AtomicRMWInst::And: o2 = Instruction::And; break; case AtomicRMWInst::Or: o2 = Instruction::Or; break; case AtomicRMWInst::Xor: o2 = Instruction::Xor; break; default: break; }
    if (!xchg && !o2) break;
    V p = opnd(fr, r->getPointerOperand()), v = opnd(fr, r->getValOperand()), old = load(p, t, 1); store(p, xchg ? v : binop(o2, old, v, I), t, 1); return old; }
  case Instruction::Store: { auto *s = cast<StoreInst>(I); store(opnd(fr, s->getPointerOperand()), opnd(fr, s->getValueOperand()), s->getValueOperand()->getType(), (unsigned)s->getAlign().value()); return V(); }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I); V p = opnd(fr, g->getPointerOperand()); i64 off = 0; std::vector<std::pair<V, u64>> sym;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { const Value *ix = it.getOperand(); if (StructType *st = it.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; } u64 sc = DL.getTypeAllocSize(it.getIndexedType()).getFixedValue(); V v = opnd(fr, ix); if (v.kind == V_C) off += Ops::sx(v) * (i64)sc; else sym.push_back({v, sc}); }
    if (p.kind == V_C) { p.c += off; if (sym.empty()) return p; }
    if (sym.empty()) { if (p.kind == V_PTR) { p.c += off; return p; } if (p.kind == V_GP) { GPObj *n = new GPObj; for (auto &x : p.g->alt) { V q = x.second; if (q.kind == V_PTR || q.kind == V_C) q.c += off; n->alt.push_back({x.first, q}); } V r; r.kind = V_GP; r.w = (u8)pw; r.g = n; n->rc++; return r; } return OP.addsub(p, mkC((u64)off, pw), false); }
    // data-dependent index: enumerate its possible values
    V ix = mkC(0, pw); for (auto &s : sym) { V v = s.first; if (v.w < pw) v = OP.sext(v, pw); ix = OP.addsub(ix, OP.mul(v, mkC(s.second, pw)), false); }
    event("index", "data-dependent array index", OP.label(ix));
    Lit l[64]; OP.bits(ix, l); std::vector<Lit> vars; for (unsigned i = 0; i < pw; i++) if (l[i] > 1) { Lit v = l[i] & ~1u; if (std::find(vars.begin(), vars.end(), v) == vars.end()) vars.push_back(v); }
    if (vars.size() > 10 || p.kind != V_PTR) return OP.opaque(40, pw, {ix}, "unresolved address");
    GPObj *n = new GPObj; for (u32 j = 0; j < (1u << vars.size()); j++) { u64 val = 0; for (unsigned i = 0; i < pw; i++) { if (l[i] < 2) val |= (u64)l[i] << i; else { size_t q = std::find(vars.begin(), vars.end(), l[i] & ~1u) - vars.begin(); val |= (u64)(((j >> q) & 1) ^ (l[i] & 1)) << i; } } Lit gd = L1; for (size_t q = 0; q < vars.size(); q++) gd = BS.And(gd, (j >> q & 1) ? vars[q] : vars[q] ^ 1); if (gd == L0) continue; V sv = mkC(val, pw); V q = mkPtr(p.obj, (i64)p.c + off + Ops::sx(sv), pw); n->alt.push_back({gd, q}); }
    V r; r.kind = V_GP; r.w = (u8)pw; r.g = n; n->rc++; return r; }
  case Instruction::ICmp: { auto *c = cast<ICmpInst>(I); V a = opnd(fr, c->getOperand(0)), b = opnd(fr, c->getOperand(1)); if (a.kind == V_VEC && b.kind == V_VEC && c->getOperand(0)->getType()->isIntegerTy() && a.v->cells.size() == b.v->cells.size() && a.v->cells.size() % 8 == 0 && !a.v->cells.empty()) { // wide integers, word by word
      Lit lt = 0, ne = 0; bool sg = c->isSigned(); size_t nw = a.v->cells.size() / 8; bool swap = c->getPredicate() == CmpInst::ICMP_UGT || c->getPredicate() == CmpInst::ICMP_SGT || c->getPredicate() == CmpInst::ICMP_ULE || c->getPredicate() == CmpInst::ICMP_SLE;
      for (size_t k = 0; k < nw; k++) { V x = OP.fromCells(&a.v->cells[8 * k], 8), y = OP.fromCells(&b.v->cells[8 * k], 8); Lit n = OP.eq(x, y) ^ 1; ne = BS.Or(ne, n); if (!c->isEquality()) { Lit l = swap ? OP.ult(y, x, sg && k + 1 == nw) : OP.ult(x, y, sg && k + 1 == nw); lt = BS.Or(l, BS.And(n ^ 1, lt)); } }
      Lit r; switch (c->getPredicate()) { case CmpInst::ICMP_EQ: r = ne ^ 1; break; case CmpInst::ICMP_NE: r = ne; break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = lt; break; default: r = lt ^ 1; break; }
      return mkBits(&r, 1); }
    if (a.kind == V_VEC) { auto *vt = cast<FixedVectorType>(c->getOperand(0)->getType()); Type *et = vt->getElementType(); std::vector<V> e; for (unsigned i = 0; i < vt->getNumElements(); i++) e.push_back(icmp(c->getPredicate(), elemT(a, i, et), elemT(b, i, et))); return packVec(e, 1); }
    if (a.kind == V_GP || b.kind == V_GP) { event("addr", "comparison of data-selected pointers", OP.label(a) | OP.label(b)); return OP.opaque(41, 1, {}, "pointer compare"); }
    return icmp(c->getPredicate(), a, b); }
  case Instruction::Select: { V c = opnd(fr, I->getOperand(0)), a = opnd(fr, I->getOperand(1)), b = opnd(fr, I->getOperand(2)); if (c.kind == V_VEC) { auto *vt = cast<FixedVectorType>(I->getType()); Type *et = vt->getElementType(); std::vector<V> e; for (unsigned i = 0; i < vt->getNumElements(); i++) { Lit l[1]; OP.bits(c.v->elems[i], l); e.push_back(OP.ite(l[0], elemT(a, i, et), elemT(b, i, et))); } return packVec(e, et->isIntegerTy(1) ? 1 : 8 * bytesOf(*this, et)); } Lit l[1]; OP.bits(c, l); return OP.ite(l[0], a, b); }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
    V a = opnd(fr, I->getOperand(0)); auto f = [&](const V &x, unsigned w) { return opc == Instruction::Trunc ? OP.trunc(x, w) : opc == Instruction::ZExt ? OP.zext(x, w) : OP.sext(x, w); };
    if (I->getType()->isVectorTy()) { auto *vt = cast<FixedVectorType>(I->getType()); Type *st = cast<FixedVectorType>(I->getOperand(0)->getType())->getElementType(); unsigned w = vt->getElementType()->getIntegerBitWidth(); std::vector<V> e; for (unsigned i = 0; i < vt->getNumElements(); i++) e.push_back(f(elemT(a, i, st), w)); return packVec(e, w); }
    if (I->getType()->getIntegerBitWidth() > 64 || I->getOperand(0)->getType()->getIntegerBitWidth() > 64) { // wide integers as byte vectors
      unsigned sb = I->getOperand(0)->getType()->getIntegerBitWidth(), db = I->getType()->getIntegerBitWidth(); VecObj *o = new VecObj; V r = mkVec(o); std::vector<Cell> src; if (a.kind == V_VEC) src = a.v->cells; else { src.resize(sb / 8); OP.toCells(a, sb / 8, src.data()); } while (src.size() < db / 8) src.push_back(mkC(0, 8)); if (opc == Instruction::SExt) throw AnalysisAbort{"wide sext"}; src.resize(db / 8); if (db <= 64) return OP.fromCells(src.data(), db / 8); o->cells = src; return r; }
    return f(a, I->getType()->getIntegerBitWidth()); }
  case Instruction::PtrToInt: { V a = opnd(fr, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth(); if (a.kind == V_C) return mkC(a.c, w); if (w == pw) return a; return OP.opaque(42, w, {a}, "pointer narrowed"); }
  case Instruction::IntToPtr: { V a = opnd(fr, I->getOperand(0)); if (a.kind == V_C) return mkC(a.c, pw); return a; }
  case Instruction::BitCast: { V a = opnd(fr, I->getOperand(0)); bool dv = I->getType()->isVectorTy(), sv = I->getOperand(0)->getType()->isVectorTy(); if (dv == sv) { if (!dv) return a; bool di1 = cast<VectorType>(I->getType())->getElementType()->isIntegerTy(1), si1 = cast<VectorType>(I->getOperand(0)->getType())->getElementType()->isIntegerTy(1); if (!di1 && !si1) return a; }
    if (a.kind == V_VEC && !dv) { unsigned w = (unsigned)DL.getTypeSizeInBits(I->getType()); if (!a.v->elems.empty()) { Lit l[64]; for (size_t i = 0; i < a.v->elems.size() && i < 64; i++) OP.bits(a.v->elems[i], &l[i]); return mkBits(l, w); } if (w > 64) return a; return OP.fromCells(a.v->cells.data(), w / 8); }
    if (a.kind != V_VEC && dv) { auto *vt = cast<FixedVectorType>(I->getType()); if (vt->getElementType()->isIntegerTy(1)) { Lit l[64]; OP.bits(a, l); std::vector<V> e; for (unsigned i = 0; i < a.w; i++) e.push_back(mkBits(l + i, 1)); return packVec(e, 1); } VecObj *o = new VecObj; V r = mkVec(o); o->cells.resize(a.w / 8); OP.toCells(a, a.w / 8, o->cells.data()); return r; }
    if (a.kind == V_VEC) return a;
    throw AnalysisAbort{"bitcast"}; }
  case Instruction::ExtractElement: { V a = opnd(fr, I->getOperand(0)), ix = opnd(fr, I->getOperand(1)); if (ix.kind != V_C) throw AnalysisAbort{"symbolic extractelement"}; return elemT(a, (unsigned)ix.c, I->getType()); }
  case Instruction::InsertElement: { V a = opnd(fr, I->getOperand(0)), e = opnd(fr, I->getOperand(1)), ix = opnd(fr, I->getOperand(2)); if (ix.kind != V_C) throw AnalysisAbort{"symbolic insertelement"}; VecObj *o = new VecObj(*a.v); o->rc = 0; V r = mkVec(o); if (e.w == 1 && o->cells.empty()) { o->elems[ix.c] = e; return r; } unsigned b = bytesOf(*this, I->getOperand(1)->getType()); OP.toCells(e, b, &o->cells[ix.c * b]); return r; }
  case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(I); V a = opnd(fr, s->getOperand(0)), b = opnd(fr, s->getOperand(1)); auto *st = cast<FixedVectorType>(s->getOperand(0)->getType()); unsigned n = st->getNumElements(); Type *et = st->getElementType(); VecObj *o = new VecObj; V r = mkVec(o);
    if (et->isIntegerTy(1)) { for (int m : s->getShuffleMask()) o->elems.push_back(m < 0 ? mkC(0, 1) : (unsigned)m < n ? a.v->elems[m] : b.v->elems[m - n]); return r; }
    unsigned eb = bytesOf(*this, et); for (int m : s->getShuffleMask()) { const V &src = (m >= 0 && (unsigned)m >= n) ? b : a; unsigned k = m < 0 ? 0 : (unsigned)m % n; for (unsigned j = 0; j < eb; j++) if (m < 0) o->cells.push_back(mkUninit(8)); else o->cells.push_back(src.v->cells[k * eb + j]); }
    return r; }
  case Instruction::Freeze: return opnd(fr, I->getOperand(0));
  case Instruction::FNeg: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FCmp: { unsigned w = (unsigned)DL.getTypeSizeInBits(I->getType()); std::vector<V> a; for (auto &u : I->operands()) a.push_back(opnd(fr, u)); return OP.opaque(100 + opc, w, a, "floating point"); }
  case Instruction::ExtractValue: { V a = opnd(fr, I->getOperand(0)); auto *ev = cast<ExtractValueInst>(I); if (a.kind == V_VEC && !a.v->elems.empty() && ev->getNumIndices() == 1) return a.v->elems[ev->getIndices()[0]]; return undefVal(I->getType()); }
  default: break; }
  if (I->isBinaryOp()) { V a = opnd(fr, I->getOperand(0)), b = opnd(fr, I->getOperand(1)); if (a.kind == V_VEC) { if (!I->getType()->isVectorTy()) { // wide integer bit ops
        if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) { VecObj *o = new VecObj; V r = mkVec(o); for (size_t i = 0; i < a.v->cells.size(); i++) { Lit x[8], y[8]; OP.cellBits(a.v->cells[i], x); OP.cellBits(b.v->cells[i], y); for (int j = 0; j < 8; j++) x[j] = opc == Instruction::And ? BS.And(x[j], y[j]) : opc == Instruction::Or ? BS.Or(x[j], y[j]) : BS.Xor(x[j], y[j]); o->cells.push_back(mkBits(x, 8)); } return r; }
        unsigned nb = I->getType()->getIntegerBitWidth(), n = nb / 8; auto word = [&](const V &x, unsigned k) { return OP.fromCells(&x.v->cells[8 * k], 8); }; auto wide = [&](const std::vector<V> &ws) { VecObj *o = new VecObj; V r = mkVec(o); for (auto &x : ws) { V t = x; Cell c[8]; OP.toCells(t, 8, c); for (int q = 0; q < 8; q++) o->cells.push_back(c[q]); } return r; };
        if (nb == 128 && b.kind == V_VEC && a.v->cells.size() == n && b.v->cells.size() == n) {
          V al = word(a, 0), ah = word(a, 1), bl = word(b, 0), bh = word(b, 1);
          if (opc == Instruction::Add) { V lo = OP.addsub(al, bl, false); Lit c = OP.ult(lo, al, false); return wide({lo, OP.addsub(OP.addsub(ah, bh, false), OP.zext(mkBits(&c, 1), 64), false)}); }
          if (opc == Instruction::Sub) { Lit c = OP.ult(al, bl, false); return wide({OP.addsub(al, bl, true), OP.addsub(OP.addsub(ah, bh, true), OP.zext(mkBits(&c, 1), 64), true)}); }
          if ((opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr) && bl.kind == V_C && bh.kind == V_C && bh.c == 0 && bl.c < nb) {
            unsigned sh = (unsigned)bl.c; V z = mkC(0, 64), sg = opc == Instruction::AShr ? OP.shr(ah, 63, true) : z; if (sh == 0) return a;
            if (opc == Instruction::Shl) { if (sh >= 64) return wide({z, sh == 64 ? al : OP.shl(al, sh - 64)}); return wide({OP.shl(al, sh), OP.Or(OP.shl(ah, sh), OP.shr(al, 64 - sh, false))}); }
            bool ar = opc == Instruction::AShr; if (sh >= 64) return wide({sh == 64 ? ah : OP.shr(ah, sh - 64, ar), sg}); return wide({OP.Or(OP.shr(al, sh, false), OP.shl(ah, 64 - sh)), OP.shr(ah, sh, ar)}); } }
        throw AnalysisAbort{"wide integer arithmetic at " + where(I)}; }
      if (I->getType()->getScalarType()->isFloatingPointTy()) throw AnalysisAbort{"fp vector"};
      return vecMap2(I->getType(), a, b, [&](const V &x, const V &y) { return binop(opc, x, y, I); }); } return binop(opc, a, b, I); }
  std::string s; raw_string_ostream os(s); I->print(os); throw AnalysisAbort{"unsupported instruction " + os.str() + " at " + where(I)}; }

V Interp::execCall(Frame &fr, const CallBase *cb, bool &dead) {
  const Function *f = cb->getCalledFunction();
  if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    if (StringRef(ia->getAsmString()).trim().empty()) { // an optimisation barrier: tied operands keep their values, nothing else happens
      Type *rt = cb->getType(); if (rt->isVoidTy()) return V(); std::vector<V> outs; auto cs = ia->ParseConstraints(); unsigned argNo = 0; std::map<int, V> tied; int outNo = 0; std::vector<int> outIdx; int ci = 0;
      for (auto &c : cs) { if (c.Type == InlineAsm::isOutput) { if (!c.isIndirect) outIdx.push_back(ci); else argNo++; outNo++; } else if (c.Type == InlineAsm::isInput) { if (argNo < cb->arg_size()) { V v = opnd(fr, cb->getArgOperand(argNo)); if (c.hasMatchingInput()) {} for (auto &code : c.Codes) if (!code.empty() && isdigit((unsigned char)code[0])) tied[atoi(code.c_str())] = v; } argNo++; } ci++; }
      bool all = !outIdx.empty(); for (int o : outIdx) all &= tied.count(o) > 0;
      if (all) { if (!rt->isStructTy()) return tied[outIdx[0]]; VecObj *o = new VecObj; V r = mkVec(o); for (int k : outIdx) o->elems.push_back(tied[k]); return r; } }
    event("asm", "inline assembly", 0); if (cb->getType()->isVoidTy()) return V(); if (cb->getType()->isIntegerTy()) { V r = OP.opaque(43, cb->getType()->getIntegerBitWidth(), {}, "inline asm"); for (unsigned i = 0; i < r.w; i++) BS.nodes[r.b->b[i] >> 1].label |= LB_ASM; return r; } if (auto *st = dyn_cast<StructType>(cb->getType())) { VecObj *o = new VecObj; V r = mkVec(o); for (unsigned i = 0; i < st->getNumElements(); i++) { V e = OP.opaque(43, st->getElementType(i)->getIntegerBitWidth(), {}, "inline asm"); for (unsigned j = 0; j < e.w; j++) BS.nodes[e.b->b[j] >> 1].label |= LB_ASM; o->elems.push_back(e); } return r; } return undefVal(cb->getType()); }
  if (f && f->isIntrinsic()) { auto id = f->getIntrinsicID(); switch (id) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::prefetch: return V(); case Intrinsic::stacksave: return mkC(0, pw); case Intrinsic::trap: dead = true; return V(); default: break; } }
  std::vector<V> a; for (auto &u : cb->args()) a.push_back(opnd(fr, u));
  if (!f) { V fp = opnd(fr, cb->getCalledOperand()); if (fp.kind == V_PTR && fobj.count(fp.obj)) f = fobj[fp.obj]; else { event("icall", "call through unresolved pointer", OP.label(fp)); if (cb->getType()->isVoidTy()) return V(); return undefVal(cb->getType()); } }
  std::string nm = f->getName().str();
  auto h = hooks.find(nm); if (h != hooks.end()) return h->second(*this, cb, a);
  if (primHook) { V r; if (primHook(*this, cb, f, a, r)) return r; }
  if (!f->isDeclaration()) { V r = call(f, a); if (r.kind == V_NONE && r.w == 255) { dead = true; return V(); } return r; }
  bool handled = false; V r;
  if (f->isIntrinsic()) { if (nm.compare(0, 9, "llvm.x86.") == 0) r = x86(cb, nm, a, handled); else r = intrinsic(cb, nm, a, handled); if (handled) return r; throw AnalysisAbort{"unsupported intrinsic " + nm + " at " + where(cb)}; }
  auto len = [&](const V &v, const char *what) -> u64 { if (v.kind == V_C) return v.c; event("len", std::string("data-dependent length of ") + what, OP.label(v)); return 0; };
  if (nm == "memcpy" || nm == "memmove" || nm == "__memcpy_chk") { copyMem(a[0], a[1], len(a[2], "memcpy")); return a[0]; }
  if (nm == "memset" || nm == "__memset_chk") { setMem(a[0], OP.trunc(a[1], 8), len(a[2], "memset")); return a[0]; }
  if (nm == "explicit_bzero" || nm == "bzero") { setMem(a[0], mkC(0, 8), len(a[1], "bzero")); return V(); }
  if (nm == "memcmp" || nm == "bcmp" || nm == "strncmp" || nm == "strcmp") { u64 n = nm == "strcmp" ? 0 : len(a[2], nm.c_str()); auto x = readBits(a[0], n), y = readBits(a[1], n); std::vector<Lit> v; u64 lab = 0; for (size_t i = 0; i < x.size(); i++) { v.push_back(BS.Xor(x[i], y[i])); lab |= BS.label(v.back()); } event("memcmp", nm + " (stops at the first difference)", lab); Lit l[32]; for (int i = 0; i < 32; i++) l[i] = L0; l[0] = BS.orAll(v); return mkBits(l, 32); }
  if (nm == "CRYPTO_memcmp") { u64 n = len(a[2], "CRYPTO_memcmp"); auto x = readBits(a[0], n), y = readBits(a[1], n); std::vector<Lit> v; for (size_t i = 0; i < x.size(); i++) v.push_back(BS.Xor(x[i], y[i])); Lit l[32]; for (int i = 0; i < 32; i++) l[i] = L0; l[0] = BS.orAll(v); return mkBits(l, 32); }
  if (nm == "malloc" || nm == "calloc" || nm == "aligned_alloc") { V s = nm == "calloc" ? OP.mul(a[0], a[1]) : nm == "malloc" ? a[0] : a[1]; u32 o = newObj(O_HEAP, len(s, "malloc"), 16, "heap", false); if (nm == "calloc") for (auto &c : W(o).cells) c = mkC(0, 8); return mkPtr(o, 0, pw); }
  if (nm == "free") { if (a[0].kind == V_PTR) { ObjData *d = new ObjData; d->alive = false; d->cells.resize(0); mem[a[0].obj] = ORef(d); meta[a[0].obj].size = meta[a[0].obj].size; } return V(); }
  if (nm == "exit" || nm == "abort" || nm == "__assert_fail" || nm == "_exit") { event("exit", nm + "() reachable", 0); dead = true; return V(); }
  if (nm == "printf" || nm == "puts" || nm == "putchar" || nm == "fprintf" || nm == "fflush" || nm == "perror") { u64 lab = 0; for (auto &x : a) lab |= OP.label(x); event("io", nm, lab); return cb->getType()->isVoidTy() ? V() : mkC(0, cb->getType()->getIntegerBitWidth()); }
  event("extern", "call of external function " + nm, 0);
  if (cb->getType()->isVoidTy()) return V(); V e = cb->getType()->isIntegerTy() ? OP.opaque(44, cb->getType()->getIntegerBitWidth(), {}, "external") : undefVal(cb->getType());
  if (e.kind == V_B) for (unsigned i = 0; i < e.w; i++) BS.nodes[e.b->b[i] >> 1].label |= LB_ENV; return e; }

V Interp::intrinsic(const CallBase *cb, const std::string &nm, std::vector<V> &a, bool &h) {
  h = true; auto id = cb->getIntrinsicID(); auto len = [&](const V &v) -> u64 { if (v.kind == V_C) return v.c; event("len", "data-dependent copy length", OP.label(v)); return 0; };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(a[0], a[1], len(a[2])); return V();
  case Intrinsic::memset: setMem(a[0], a[1], len(a[2])); return V();
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return a[0];
  case Intrinsic::is_constant: return mkC(0, 1);
  case Intrinsic::objectsize: return mkC(~0ull, cb->getType()->getIntegerBitWidth());
  default: break; }
  Type *t = cb->getType(); bool vec = t->isVectorTy(); unsigned N = vec ? cast<FixedVectorType>(t)->getNumElements() : 1; Type *et = t->getScalarType(); if (!et->isIntegerTy()) { h = false; return V(); } unsigned w = et->getIntegerBitWidth(); if (w > 64) { h = false; return V(); }
  auto one = [&](std::vector<V> x) -> V { switch (id) {
    case Intrinsic::bswap: { Lit l[64], o[64]; OP.bits(x[0], l); for (unsigned i = 0; i < w; i++) o[i] = l[(w / 8 - 1 - i / 8) * 8 + i % 8]; return mkBits(o, w); }
    case Intrinsic::fshl: case Intrinsic::fshr: { if (x[2].kind != V_C) { h = false; return V(); } unsigned s = (unsigned)(x[2].c % w); if (id == Intrinsic::fshr) s = (w - s) % w; if (!s) return id == Intrinsic::fshl ? x[0] : x[1]; Lit p[64], q[64], o[64]; OP.bits(x[0], p); OP.bits(x[1], q); for (unsigned i = 0; i < w; i++) o[i] = i >= s ? p[i - s] : q[w - s + i]; return mkBits(o, w); }
    case Intrinsic::umin: { Lit c = OP.ult(x[0], x[1], false); return OP.ite(c, x[0], x[1]); } case Intrinsic::umax: { Lit c = OP.ult(x[1], x[0], false); return OP.ite(c, x[0], x[1]); }
    case Intrinsic::smin: { Lit c = OP.ult(x[0], x[1], true); return OP.ite(c, x[0], x[1]); } case Intrinsic::smax: { Lit c = OP.ult(x[1], x[0], true); return OP.ite(c, x[0], x[1]); }
    case Intrinsic::abs: { Lit c = OP.ult(x[0], mkC(0, w), true); return OP.ite(c, OP.addsub(mkC(0, w), x[0], true), x[0]); }
    case Intrinsic::ctpop: { Lit l[64]; OP.bits(x[0], l); Poly *p = new Poly; for (unsigned i = 0; i < w; i++) PS.addLit(p, l[i], 1); PS.normTerms(p->t, w); PS.finish(p, w); return mkP(p, w, w, UP_ZERO); }
    case Intrinsic::bitreverse: { Lit l[64], o[64]; OP.bits(x[0], l); for (unsigned i = 0; i < w; i++) o[i] = l[w - 1 - i]; return mkBits(o, w); }
    case Intrinsic::uadd_sat: { V t = OP.addsub(x[0], x[1], false); Lit c = OP.ult(t, x[0], false); return OP.ite(c, mkC(~0ull >> (64 - w), w), t); }
    case Intrinsic::cttz: case Intrinsic::ctlz: { Lit l[64]; OP.bits(x[0], l); V r = mkC(w, w); for (unsigned i = 0; i < w; i++) { unsigned b = id == Intrinsic::cttz ? w - 1 - i : i; r = OP.ite(l[b], mkC(id == Intrinsic::cttz ? b : w - 1 - b, w), r); } return r; }
    case Intrinsic::usub_sat: { Lit c = OP.ult(x[0], x[1], false); return OP.ite(c, mkC(0, w), OP.addsub(x[0], x[1], true)); }
    default: h = false; return V(); } };
  if (!vec) return one(a); std::vector<V> e; for (unsigned i = 0; i < N && h; i++) { std::vector<V> x; for (auto &v : a) x.push_back(v.kind == V_VEC ? elemT(v, i, et) : v); e.push_back(one(x)); } if (!h) return V(); return packVec(e, w); }

// ---- x86 vector intrinsics ---------------------------------------------------
V Interp::x86(const CallBase *cb, const std::string &full, std::vector<V> &a, bool &h) {
  h = true; std::string nm = full.substr(9); auto has = [&](const char *s) { return nm.find(s) != std::string::npos; };
  auto vt = dyn_cast<FixedVectorType>(cb->getType()); unsigned N = vt ? vt->getNumElements() : 0; Type *et = vt ? vt->getElementType() : nullptr; unsigned ew = et && et->isIntegerTy() ? et->getIntegerBitWidth() : 0;
  auto starts = [&](const char *s) { return nm.rfind(s, 0) == 0; };
  // immediate and scalar-count shifts
  for (auto pre : {"avx2.", "sse2."}) { std::string p = pre; if (!starts(pre)) continue; std::string o = nm.substr(p.size());
    for (auto &k : {std::pair<const char *, int>{"pslli.", 0}, {"psrli.", 1}, {"psrai.", 2}, {"psll.", 0}, {"psrl.", 1}, {"psra.", 2}}) if (o.rfind(k.first, 0) == 0) { V cnt = a[1].kind == V_VEC ? OP.fromCells(a[1].v->cells.data(), 8) : a[1]; if (cnt.kind != V_C) throw AnalysisAbort{"symbolic vector shift"}; u64 s = cnt.c; std::vector<V> e; for (unsigned i = 0; i < N; i++) { V x = elemT(a[0], i, et); if (s >= ew && k.second != 2) e.push_back(mkC(0, ew)); else { unsigned ss = (unsigned)std::min<u64>(s, ew - 1); e.push_back(k.second == 0 ? OP.shl(x, ss) : OP.shr(x, ss, k.second == 2)); } } return packVec(e, ew); }
    for (auto &k : {std::pair<const char *, int>{"psllv.", 0}, {"psrlv.", 1}, {"psrav.", 2}}) if (o.rfind(k.first, 0) == 0) { std::vector<V> e; for (unsigned i = 0; i < N; i++) { V x = elemT(a[0], i, et), c = elemT(a[1], i, et); if (c.kind != V_C) throw AnalysisAbort{"symbolic vector shift"}; if (c.c >= ew && k.second != 2) e.push_back(mkC(0, ew)); else { unsigned ss = (unsigned)std::min<u64>(c.c, ew - 1); e.push_back(k.second == 0 ? OP.shl(x, ss) : OP.shr(x, ss, k.second == 2)); } } return packVec(e, ew); } }
  if (has("pshuf.b")) { VecObj *o = new VecObj; V r = mkVec(o); size_t n = a[0].v->cells.size(); for (size_t i = 0; i < n; i++) { V c = OP.fromCells(&a[1].v->cells[i], 1); if (c.kind != V_C) throw AnalysisAbort{"symbolic byte shuffle"}; if (c.c & 0x80) o->cells.push_back(mkC(0, 8)); else o->cells.push_back(a[0].v->cells[(i / 16) * 16 + (c.c & 15)]); } return r; }
  if (nm == "avx2.permd" || nm == "avx2.permps") { VecObj *o = new VecObj; V r = mkVec(o); for (unsigned i = 0; i < 8; i++) { V c = elem(a[1], i, 4); if (c.kind != V_C) throw AnalysisAbort{"symbolic permute"}; for (unsigned j = 0; j < 4; j++) o->cells.push_back(a[0].v->cells[(c.c & 7) * 4 + j]); } return r; }
  if (has("packusdw") || has("packssdw") || has("packuswb") || has("packsswb")) { unsigned sw = (has("dw")) ? 32 : 16, dw = sw / 2; bool us = has("packus"); size_t lanes = a[0].v->cells.size() / 16; unsigned per = 128 / sw; std::vector<V> e;
    for (size_t L = 0; L < lanes; L++) for (int w = 0; w < 2; w++) for (unsigned i = 0; i < per; i++) { V x = elem(a[w], (unsigned)(L * per + i), sw / 8); i64 lo = us ? 0 : -(1ll << (dw - 1)), hi = us ? (1ll << dw) - 1 : (1ll << (dw - 1)) - 1; Lit l[64]; OP.bits(x, l); bool fits = true; for (unsigned j = us ? dw : dw - 1; j < sw; j++) if (l[j] != L0) fits = false;
          if (fits) { e.push_back(OP.trunc(x, dw)); continue; } Lit under = OP.ult(x, mkC((u64)lo, sw), true), over = OP.ult(mkC((u64)hi, sw), x, true); e.push_back(OP.ite(under, mkC((u64)lo, dw), OP.ite(over, mkC((u64)hi, dw), OP.trunc(x, dw)))); }
    return packVec(e, dw); }
  if (starts("avx2.maskstore") || starts("avx.maskstore")) { unsigned eb = nm.find(".q") != std::string::npos || nm.find(".pd") != std::string::npos ? 8 : 4; for (size_t i = 0; i < a[1].v->cells.size() / eb; i++) { V m = elem(a[1], (unsigned)i, eb); Lit l[64]; OP.bits(m, l); Lit s = l[8 * eb - 1]; if (s == L0) continue; V p = a[0]; p.c += i * eb; if (s == L1) storeCells(p, eb, &a[2].v->cells[i * eb], 1); else { event("addr", "data-dependent store mask", BS.label(s)); std::vector<Cell> t(eb); loadCells(p, eb, t.data(), 1); for (unsigned j = 0; j < eb; j++) t[j] = OP.iteCell(s, a[2].v->cells[i * eb + j], t[j]); storeCells(p, eb, t.data(), 1); } } return V(); }
  if (starts("avx2.maskload") || starts("avx.maskload")) { unsigned eb = nm.find(".q") != std::string::npos || nm.find(".pd") != std::string::npos ? 8 : 4; VecObj *o = new VecObj; V r = mkVec(o); for (size_t i = 0; i < a[1].v->cells.size() / eb; i++) { V m = elem(a[1], (unsigned)i, eb); Lit l[64]; OP.bits(m, l); Lit s = l[8 * eb - 1]; std::vector<Cell> t(eb, mkC(0, 8)); V p = a[0]; p.c += i * eb; if (s == L1) loadCells(p, eb, t.data(), 1); else if (s != L0) throw AnalysisAbort{"symbolic load mask"}; for (auto &c : t) o->cells.push_back(c); } return r; }
  if (has("pmulhu.w") || has("pmulh.w")) { bool us = has("pmulhu"); std::vector<V> e; for (unsigned i = 0; i < N; i++) { V x = elem(a[0], i, 2), y = elem(a[1], i, 2); V p = OP.mul(us ? OP.zext(x, 32) : OP.sext(x, 32), us ? OP.zext(y, 32) : OP.sext(y, 32)); e.push_back(OP.trunc(OP.shr(p, 16, false), 16)); } return packVec(e, 16); }
  if (has("pmadd.wd")) { std::vector<V> e; for (unsigned i = 0; i < N; i++) { V s = mkC(0, 32); for (int j = 0; j < 2; j++) s = OP.addsub(s, OP.mul(OP.sext(elem(a[0], 2 * i + j, 2), 32), OP.sext(elem(a[1], 2 * i + j, 2), 32)), false); e.push_back(s); } return packVec(e, 32); }
  if (starts("aesni.aesenc")) return aesEnc(a[0], a[1], starts("aesni.aesenclast"));
  if (starts("aesni.aeskeygenassist")) { if (a[1].kind != V_C) throw AnalysisAbort{"aeskeygenassist"}; return aesKeyAssist(a[0], (unsigned)a[1].c); }
  if (starts("bmi.pext") || starts("bmi.pdep")) { if (a[1].kind != V_C) throw AnalysisAbort{"symbolic pext mask"}; unsigned w = a[0].w; Lit x[64], o[64]; OP.bits(a[0], x); for (auto &l : o) l = L0; unsigned j = 0; for (unsigned i = 0; i < w; i++) if (a[1].c >> i & 1) { if (starts("bmi.pext")) o[j++] = x[i]; else o[i] = x[j++]; } return mkBits(o, w); }
  if (has("movmsk")) { std::vector<Lit> l; size_t n = a[0].v->cells.size(); unsigned eb = has("pmovmskb") ? 1 : has(".pd") ? 8 : 4; Lit o[32]; for (auto &q : o) q = L0; for (size_t i = 0; i < n / eb; i++) { Lit t[8]; OP.cellBits(a[0].v->cells[i * eb + eb - 1], t); o[i] = t[7]; } return mkBits(o, 32); }
  if (has("ptestz") || has("ptestc")) { std::vector<Lit> v; for (size_t i = 0; i < a[0].v->cells.size(); i++) { Lit x[8], y[8]; OP.cellBits(a[0].v->cells[i], x); OP.cellBits(a[1].v->cells[i], y); for (int j = 0; j < 8; j++) v.push_back(BS.And(has("ptestc") ? x[j] ^ 1 : x[j], y[j])); } Lit o[32]; for (auto &q : o) q = L0; o[0] = BS.orAll(v) ^ 1; return mkBits(o, 32); }
  if (starts("rdtsc") || starts("avx.vzero")) { if (cb->getType()->isVoidTy()) return V(); V e = OP.opaque(45, 64, {}, "rdtsc"); for (unsigned i = 0; i < e.w; i++) BS.nodes[e.b->b[i] >> 1].label |= LB_ENV; return e; }
  if (starts("sse2.lfence") || starts("sse2.mfence")) return V();
  h = false; return V(); }

// ---- AES round functions (FIPS-197) on bit values ------------------------------
static u8 sboxTab[256]; static bool sboxInit = false;
const u8 *aesSbox() { if (!sboxInit) { u8 p = 1, q = 1; do { p = p ^ (p << 1) ^ (p & 0x80 ? 0x1b : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 9; u8 x = q ^ (u8)(q << 1 | q >> 7) ^ (u8)(q << 2 | q >> 6) ^ (u8)(q << 3 | q >> 5) ^ (u8)(q << 4 | q >> 4); sboxTab[p] = x ^ 0x63; } while (p != 1); sboxTab[0] = 0x63; sboxInit = true; } return sboxTab; }
static void sboxBits1(const Lit *in, Lit *out);
void sboxBits(const Lit *in, Lit *out) { if (!BS.naming) { sboxBits1(in, out); return; } static std::map<std::array<Lit, 8>, std::array<Lit, 8>> memo; std::array<Lit, 8> k; std::copy(in, in + 8, k.begin()); auto it = memo.find(k); if (it == memo.end()) { std::array<Lit, 8> v; sboxBits1(in, v.data()); it = memo.emplace(k, v).first; } std::copy(it->second.begin(), it->second.end(), out); }
static void sboxBits1(const Lit *in, Lit *out) { const u8 *T = aesSbox(); std::vector<Lit> v(in, in + 8); bool cst = true; u8 x = 0; for (int i = 0; i < 8; i++) { if (in[i] > 1) cst = false; else x |= in[i] << i; } if (cst) { for (int i = 0; i < 8; i++) out[i] = (T[x] >> i) & 1; return; }
  // negated inputs: use positive variables and adjust the table
  u8 neg = 0; for (int i = 0; i < 8; i++) if (v[i] > 1 && (v[i] & 1)) { neg |= 1 << i; v[i] ^= 1; } std::vector<Lit> vars; std::vector<int> pos; u8 cv = 0; for (int i = 0; i < 8; i++) { if (v[i] < 2) cv |= v[i] << i; else { vars.push_back(v[i]); pos.push_back(i); } }
  std::vector<u8> tt(1u << vars.size()); for (int b = 0; b < 8; b++) { for (size_t j = 0; j < tt.size(); j++) { u8 y = cv; for (size_t q = 0; q < pos.size(); q++) y |= ((j >> q) & 1) << pos[q]; y ^= neg; tt[j] = (T[y] >> b) & 1; } out[b] = BS.fromTable(vars, tt); if (BS.naming) out[b] = BS.nameBit(out[b]); } }
static void xt(const Lit *i, Lit *o) { for (int j = 0; j < 8; j++) o[j] = j ? i[j - 1] : L0; for (int j : {0, 1, 3, 4}) o[j] = BS.Xor(o[j], i[7]); }
void aesRoundBits(const Lit *st, const Lit *rk, bool last, Lit *out) { Lit s[128]; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) sboxBits(st + 8 * (4 * ((c + r) & 3) + r), s + 8 * (4 * c + r));
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { Lit o[8]; if (last) memcpy(o, s + 8 * (4 * c + r), sizeof o); else { const Lit *a0 = s + 8 * (4 * c + r), *a1 = s + 8 * (4 * c + ((r + 1) & 3)), *a2 = s + 8 * (4 * c + ((r + 2) & 3)), *a3 = s + 8 * (4 * c + ((r + 3) & 3)); Lit x0[8], x1[8]; xt(a0, x0); xt(a1, x1); for (int j = 0; j < 8; j++) o[j] = BS.Xor(BS.Xor(BS.Xor(x0[j], x1[j]), BS.Xor(a1[j], a2[j])), a3[j]); } for (int j = 0; j < 8; j++) out[8 * (4 * c + r) + j] = BS.Xor(o[j], rk[8 * (4 * c + r) + j]); } }
V aesEnc(const V &st, const V &rk, bool last) { Lit s[128], k[128], o[128]; for (int i = 0; i < 16; i++) { OP.cellBits(st.v->cells[i], s + 8 * i); OP.cellBits(rk.v->cells[i], k + 8 * i); } if (BS.naming) for (auto &l : s) l = BS.nameBit(l); aesRoundBits(s, k, last, o); if (BS.naming) for (auto &l : o) l = BS.nameBit(l); VecObj *v = new VecObj; V r = mkVec(v); for (int i = 0; i < 16; i++) v->cells.push_back(mkBits(o + 8 * i, 8)); return r; }
V aesKeyAssist(const V &k, unsigned imm) { Lit x[128], o[128]; for (int i = 0; i < 16; i++) OP.cellBits(k.v->cells[i], x + 8 * i); if (BS.naming) for (auto &l : x) l = BS.nameBit(l); Lit s1[32], s3[32]; for (int b = 0; b < 4; b++) { sboxBits(x + 32 + 8 * b, s1 + 8 * b); sboxBits(x + 96 + 8 * b, s3 + 8 * b); }
  for (int i = 0; i < 32; i++) { o[i] = s1[i]; o[32 + i] = BS.Xor(s1[(i + 8) & 31], (imm >> i) & 1 & (i < 8)); o[64 + i] = s3[i]; o[96 + i] = BS.Xor(s3[(i + 8) & 31], (imm >> i) & 1 & (i < 8)); }
  VecObj *v = new VecObj; V r = mkVec(v); for (int i = 0; i < 16; i++) v->cells.push_back(mkBits(o + 8 * i, 8)); return r; }
