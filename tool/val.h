// Abstract value domain, part 2: abstract machine values and their transfer functions.
#pragma once
#include "terms.h"
enum VK : u8 { V_NONE, V_C, V_PTR, V_B, V_P, V_VEC, V_GP, V_UNINIT };
enum UP : u8 { UP_ZERO, UP_SEXT, UP_JUNK };
struct VecObj; struct GPObj;
struct V {
  u8 kind = V_NONE, w = 0, k = 0, up = 0, idx = 0; u32 obj = 0;
  union { u64 c; BitsObj *b; Poly *p; VecObj *v; GPObj *g; };
  V() { c = 0; }
  void inc(); void dec();
  V(const V &o) { memcpy((void *)this, &o, sizeof(V)); inc(); }
  V(V &&o) noexcept { memcpy((void *)this, &o, sizeof(V)); o.kind = V_NONE; }
  V &operator=(const V &o) { if (this != &o) { V t(o); swap(t); } return *this; }
  V &operator=(V &&o) noexcept { swap(o); return *this; }
  void swap(V &o) { char t[sizeof(V)]; memcpy(t, this, sizeof(V)); memcpy((void *)this, &o, sizeof(V)); memcpy((void *)&o, t, sizeof(V)); }
  ~V() { dec(); }
};
typedef V Cell;                       // a byte: V plus byte index idx
struct VecObj { u32 rc = 0; u8 ew = 8; std::vector<Cell> cells; std::vector<V> elems; }; // elems only for <N x i1> / pointers
struct GPObj { u32 rc = 0; std::vector<std::pair<Lit, V>> alt; };                           // guarded pointers (exclusive guards)
inline void V::inc() { if (kind >= V_B && kind <= V_GP) { switch (kind) { case V_B: b->rc++; break; case V_P: p->rc++; break; case V_VEC: v->rc++; break; case V_GP: g->rc++; break; } } }
inline void V::dec() { if (kind >= V_B && kind <= V_GP) { switch (kind) { case V_B: if (--b->rc == 0) free(b); break; case V_P: if (--p->rc == 0) delete p; break; case V_VEC: if (--v->rc == 0) delete v; break; case V_GP: if (--g->rc == 0) delete g; break; } kind = V_NONE; } }

static inline V mkC(u64 c, unsigned w) { V r; r.kind = V_C; r.w = (u8)w; r.c = c & maskn(w); return r; }
static inline V mkPtr(u32 obj, i64 off, unsigned w) { V r; r.kind = V_PTR; r.w = (u8)w; r.obj = obj; r.c = (u64)off; return r; }
static inline V mkP(Poly *p, unsigned k, unsigned w, u8 up) {
  V r; if (p->t.empty() && (k >= w || up != UP_JUNK)) { u64 c = p->c0 & maskn(k); if (k < w && up == UP_SEXT && (c >> (k - 1) & 1)) c |= ~maskn(k); if (p->rc == 0) delete p; return mkC(c, w); }
  r.kind = V_P; r.w = (u8)w; r.k = (u8)(k > w ? w : k); r.up = up; r.p = p; p->rc++; return r; }
static inline V mkB(BitsObj *o, unsigned w) { bool cst = true; u64 c = 0; for (unsigned i = 0; i < w; i++) { if (o->b[i] > 1) { cst = false; break; } c |= (u64)o->b[i] << i; }
  V r; if (cst) { if (o->rc == 0) free(o); return mkC(c, w); } r.kind = V_B; r.w = (u8)w; r.b = o; o->rc++; return r; }
static inline V mkBits(const Lit *l, unsigned w) { BitsObj *o = newBits(w); memcpy(o->b, l, w * sizeof(Lit)); return mkB(o, w); }
static inline V mkVec(VecObj *o) { V r; r.kind = V_VEC; r.v = o; o->rc++; return r; }

struct Ops {
  std::map<std::vector<u32>, u32> opq; // (op, operand value numbers) -> node block
  u64 nOpaque = 0; std::map<std::string, u64> opqWhy;
  u64 LAB_OPQ = 0;
  struct OpqMul { unsigned w; std::vector<Lit> a[2]; }; std::map<u32, OpqMul> opqMul; // products kept unexpanded

  void junkBits(const V &a, Lit *o) { // bits k..w-1 of a value known only mod 2^k
    u32 wd = PS.internWord(a.p, a.k); std::vector<u32> key{1, wd, a.w}; auto it = opq.find(key); u32 base;
    if (it == opq.end()) { base = BS.block(N_OPQ, 1, a.w - a.k, PS.lab(a.p) | LAB_OPQ); opq[key] = base; nOpaque++; opqWhy["junk-high-bits"]++; } else base = it->second;
    for (unsigned i = a.k; i < a.w; i++) o[i] = (base + i - a.k) << 1; }
  void bits(const V &a, Lit *o) {
    switch (a.kind) {
    case V_C: for (unsigned i = 0; i < a.w; i++) o[i] = (a.c >> i) & 1; return;
    case V_B: memcpy(o, a.b->b, a.w * sizeof(Lit)); return;
    case V_P: { BitsObj *t = PS.toBits(a.p, a.k); memcpy(o, t->b, a.k * sizeof(Lit));
      if (a.k < a.w) { if (a.up == UP_ZERO) for (unsigned i = a.k; i < a.w; i++) o[i] = L0; else if (a.up == UP_SEXT) for (unsigned i = a.k; i < a.w; i++) o[i] = o[a.k - 1]; else junkBits(a, o); } return; }
    case V_PTR: { std::vector<u32> key{2, a.obj, (u32)a.c, (u32)(a.c >> 32)}; auto it = opq.find(key); u32 base; if (it == opq.end()) { base = BS.block(N_OPQ, 2, 64, LAB_OPQ); opq[key] = base; } else base = it->second; for (unsigned i = 0; i < a.w; i++) o[i] = (base + i) << 1; return; }
    default: { V x = opaque(3, a.w ? a.w : 64, {}, "non-scalar"); memcpy(o, x.b->b, (a.w ? a.w : 64) * sizeof(Lit)); return; }
    } }
  u32 vn(const V &a, std::vector<u32> &key) { // append a value number
    Lit l[64]; if (a.kind == V_C) { key.push_back(0x10000 | a.w); key.push_back((u32)a.c); key.push_back((u32)(a.c >> 32)); return 0; }
    bits(a, l); key.push_back(a.w); for (unsigned i = 0; i < a.w; i++) key.push_back(l[i]); return 0; }
  u64 label(const V &a) { switch (a.kind) { case V_B: { u64 m = 0; for (unsigned i = 0; i < a.w; i++) m |= BS.label(a.b->b[i]); return m; } case V_P: return PS.lab(a.p); case V_VEC: { u64 m = 0; for (auto &c : a.v->cells) m |= label(c); for (auto &c : a.v->elems) m |= label(c); return m; } case V_GP: { u64 m = 0; for (auto &x : a.g->alt) m |= BS.label(x.first); return m; } default: return 0; } }
  V opaque(u32 op, unsigned w, const std::vector<V> &args, const char *why) {
    std::vector<u32> key{op, w}; u64 lab = LAB_OPQ; for (auto &x : args) { vn(x, key); lab |= label(x); }
    if (args.empty()) key.push_back((u32)BS.nodes.size());
    auto it = opq.find(key); u32 base; if (it != opq.end()) base = it->second; else { base = BS.block(N_OPQ, op, w, lab); opq[key] = base; nOpaque++; opqWhy[why]++; if (PS.smallFns && op == 6) { OpqMul m; m.w = w; for (int i = 0; i < 2; i++) { m.a[i].resize(64); bits(args[i], m.a[i].data()); } opqMul[base] = m; } }
    BitsObj *o = newBits(w); for (unsigned i = 0; i < w; i++) o->b[i] = (base + i) << 1; return mkB(o, w); }
  // exact non-negative integer value below 2^k?
  bool exact(const V &a) { return PS.maxVal(a.p) < (a.k >= 64 ? ~0ull : (1ull << a.k)); }
  // view as polynomial
  struct PV { V hold; Poly *p; unsigned k; };
  PV poly(const V &a) {
    PV r; if (a.kind == V_P) { r.hold = a; r.p = a.p; r.k = a.k; if (a.k < a.w && a.up == UP_ZERO) { if (exact(a)) r.k = a.w; }
      else if (a.k < a.w && a.up == UP_SEXT && PS.fitsSigned(a.p, a.k)) { Poly *p = PS.signedLift(a.p, a.k, a.w); V h; h.kind = V_P; h.w = a.w; h.k = a.w; h.p = p; p->rc++; r.hold = h; r.p = p; r.k = a.w; }
      return r; }
    Poly *p; if (a.kind == V_C) { p = new Poly; p->c0 = a.c; } else { Lit l[64]; bits(a, l); p = PS.ofBits(l, a.w); }
    r.hold.kind = V_P; r.hold.w = a.w; r.hold.k = a.w; r.hold.p = p; p->rc++; r.p = p; r.k = a.w; return r; }

  V addsub(const V &a, const V &b, bool sub) {
    unsigned w = a.w;
    if (a.kind == V_C && b.kind == V_C) return mkC(sub ? a.c - b.c : a.c + b.c, w);
    if (b.kind == V_C && b.c == 0) return a;
    if (!sub && a.kind == V_C && a.c == 0) return b;
    if (a.kind == V_PTR && b.kind == V_C) return mkPtr(a.obj, (i64)a.c + (sub ? -(i64)sx(b) : (i64)sx(b)), w);
    if (b.kind == V_PTR && a.kind == V_C && !sub) return mkPtr(b.obj, (i64)b.c + (i64)sx(a), w);
    if (a.kind == V_PTR && b.kind == V_PTR && sub && a.obj == b.obj) return mkC(a.c - b.c, w);
    if (a.kind == V_PTR || b.kind == V_PTR || a.kind == V_GP || b.kind == V_GP) return opaque(4, w, {a, b}, "pointer-arith");
    if (!sub && (a.kind == V_B || a.kind == V_C) && (b.kind == V_B || b.kind == V_C)) { // disjoint bits
      Lit x[64], y[64]; bits(a, x); bits(b, y); bool dis = true; for (unsigned i = 0; i < w && dis; i++) if (x[i] && y[i]) dis = false;
      if (dis) { for (unsigned i = 0; i < w; i++) x[i] |= y[i]; return mkBits(x, w); } }
    PV p = poly(a), q = poly(b); unsigned k = std::min(p.k, q.k);
    Poly *r = PS.addMul(p.p, 1, q.p, sub ? ~0ull : 1, k);
    return simp(mkP(r, k, w, UP_JUNK)); }
  static i64 sx(const V &a) { return a.w >= 64 ? (i64)a.c : (i64)(a.c << (64 - a.w)) >> (64 - a.w); }
  V simp(V a) { return a; }
  V mul(const V &a, const V &b) {
    unsigned w = a.w;
    if (a.kind == V_C && b.kind == V_C) return mkC(a.c * b.c, w);
    if (a.kind == V_C) return mul(b, a);
    if (b.kind == V_C) { if (b.c == 0) return mkC(0, w); if (b.c == 1) return a; if (!(b.c & (b.c - 1))) return shl(a, __builtin_ctzll(b.c)); }
    if (a.kind == V_PTR || b.kind == V_PTR) return opaque(5, w, {a, b}, "pointer-mul");
    PV p = poly(a), q = poly(b); unsigned k = std::min(p.k, q.k);
    if (b.kind == V_C) { // scaling by a constant with trailing zeros keeps more bits
      unsigned kk = std::min<unsigned>(w, p.k + (b.c ? __builtin_ctzll(b.c) : 0)); Poly z; Poly *r = PS.addMul(p.p, b.c, &z, 0, kk); return mkP(r, kk, w, UP_JUNK); }
    Poly *r = PS.mul(p.p, q.p, k); if (!r) return opaque(6, w, {a, b}, "degree>2 product");
    return mkP(r, k, w, UP_JUNK); }
  V shl(const V &a, unsigned s) {
    unsigned w = a.w; if (s == 0) return a; if (s >= w) return mkC(0, w);
    if (a.kind == V_C) return mkC(a.c << s, w);
    if (a.kind == V_P) { PV p = poly(a); unsigned k = std::min(p.k + s, w); Poly z; Poly *r = PS.addMul(p.p, 1ull << s, &z, 0, k); u8 up = (a.k < w && p.k == a.k) ? (a.up == UP_JUNK ? UP_JUNK : a.up) : UP_JUNK; return mkP(r, k, w, k < w ? up : UP_JUNK); }
    Lit x[64], o[64]; bits(a, x); for (unsigned i = 0; i < w; i++) o[i] = i < s ? L0 : x[i - s]; return mkBits(o, w); }
  // split an exact non-negative polynomial at bit s: high part / 2^s if the low part cannot carry
  bool splitAt(const Poly *p, unsigned s, std::vector<Term> &lo, u64 &clo, std::vector<Term> &hi, u64 &chi) {
    u64 m = maskn(s); lo.clear(); hi.clear(); clo = p->c0 & m; chi = p->c0 >> s; unsigned __int128 mx = clo;
    for (auto &x : p->t) { if (x.key >> 32) return false; const PAtom &a = PS.atoms[(u32)x.key]; if (a.kind == PA_SEC) return false;
      if ((x.c & m) == 0) hi.push_back({x.key, x.c >> s}); else { lo.push_back(x); mx += (unsigned __int128)x.c * maskn(a.nb); if (mx >> 63) return false; } }
    return mx < ((unsigned __int128)1 << s); }
  V mkExact(std::vector<Term> &t, u64 c0, unsigned w) { Poly *r = new Poly; r->t = t; r->c0 = c0; PS.finish(r, w); PS.foldSec(r, w); return mkP(r, w, w, UP_ZERO); }
  V shr(const V &a, unsigned s, bool arith) {
    unsigned w = a.w; if (s == 0) return a; if (s >= w) { if (!arith) return mkC(0, w); s = w - 1; }
    if (a.kind == V_C) { if (!arith) return mkC(a.c >> s, w); return mkC((u64)(sx(a) >> s), w); }
    if (a.kind == V_P) {
      bool full = a.k == w, zero = a.k < w && a.up == UP_ZERO;
      if ((full && !arith) || zero) { if (exact(a)) { std::vector<Term> lo, hi; u64 cl, ch; if (splitAt(a.p, s, lo, cl, hi, ch)) return mkExact(hi, ch, w); } }
      if (s < a.k && a.up != UP_SEXT) { u64 m = maskn(s); bool div = (a.p->c0 & m) == 0; if (div) for (auto &x : a.p->t) if (x.c & m) { div = false; break; }
        if (div) { Poly *r = new Poly; r->t = a.p->t; for (auto &x : r->t) x.c >>= s; r->c0 = (a.p->c0 & maskn(a.k)) >> s; PS.finish(r, a.k - s); PS.foldSec(r, a.k - s);
          u8 up = full ? (arith ? UP_SEXT : UP_ZERO) : (zero ? UP_ZERO : UP_JUNK); return mkP(r, a.k - s, w, up); } } }
    Lit x[64], o[64]; bits(a, x); for (unsigned i = 0; i < w; i++) o[i] = i + s < w ? x[i + s] : (arith ? x[w - 1] : L0); return mkBits(o, w); }
  V And(const V &a, const V &b) {
    unsigned w = a.w;
    if (a.kind == V_C && b.kind == V_C) return mkC(a.c & b.c, w);
    if (a.kind == V_C) return And(b, a);
    if (b.kind == V_C) { if (b.c == 0) return mkC(0, w); if (b.c == maskn(w)) return a;
      if (a.kind == V_PTR) { return opaque(7, w, {a, b}, "pointer-mask"); }
      if (a.kind == V_P) {
        u64 mk = b.c; bool low = (mk & (mk + 1)) == 0;
        bool ex = (a.k == w || a.up == UP_ZERO) && exact(a);
        if (ex && !low) { // union of fields cut out of a carry-free sum
          std::vector<Term> acc; u64 cacc = 0; bool ok = true; Poly cur; cur.t = a.p->t; cur.c0 = a.p->c0; unsigned pos = 0; u64 rem = mk;
          while (rem && ok) { unsigned lo_ = __builtin_ctzll(rem); std::vector<Term> lo, hi; u64 cl, ch; if (lo_) { if (!splitAt(&cur, lo_, lo, cl, hi, ch)) { ok = false; break; } cur.t = hi; cur.c0 = ch; pos += lo_; rem >>= lo_; }
            unsigned n = ~rem ? __builtin_ctzll(~rem) : 64; if (n >= 64) { for (auto &x : cur.t) acc.push_back({x.key, x.c << pos}); cacc += cur.c0 << pos; break; }
            if (!splitAt(&cur, n, lo, cl, hi, ch)) { ok = false; break; } for (auto &x : lo) acc.push_back({x.key, x.c << pos}); cacc += cl << pos; cur.t = hi; cur.c0 = ch; pos += n; rem >>= n; }
          if (ok) { PS.normTerms(acc, w); return mkExact(acc, cacc, w); } }
        if (low) { unsigned m = __builtin_popcountll(mk);
          if (ex) { if (PS.maxVal(a.p) <= mk) return a; std::vector<Term> lo, hi; u64 cl, ch; if (splitAt(a.p, m, lo, cl, hi, ch)) return mkExact(lo, cl, w); }
          if (m >= a.k && a.k < w && a.up == UP_ZERO) return a;
          if (m <= a.k && m < 16 && isClass(m) && ((!a.p->quad && a.p->t.size() <= 12) || PS.smallFns)) return maskedWord(a, m); // a masked linear value is exactly its own low bits
          if (m >= a.k) { if (m == a.k) return mkP(cloneP(a.p, a.k), a.k, w, UP_ZERO); }
          else if (isClass(m)) { return mkP(cloneP(a.p, m), m, w, UP_ZERO); } }
        // a mask whose low zero bits / high bits only select bits below k: go through bits
      } }
    if (a.kind == V_P && b.kind == V_P && a.p == b.p && a.k == b.k) return a;
    Lit x[64], y[64]; bits(a, x); bits(b, y); for (unsigned i = 0; i < w; i++) x[i] = BS.And(x[i], y[i]); return mkBits(x, w); }
  V maskedWord(const V &a, unsigned m) { Poly q; PS.truncTo(a.p, m, q.c0, q.t); PS.finish(&q, m); Lit l[64]; PS.toBitsRaw(&q, m, l);
    u32 at = PS.mkBV(l, m); PS.bvDefine(at, q.c0, q.t); Poly *r = new Poly; r->t.push_back({at, 1}); PS.finish(r, a.w); return mkP(r, a.w, a.w, UP_ZERO); }
  bool isClass(unsigned m) { for (unsigned c : PS.classes) if (c == m) return true; return false; }
  Poly *cloneP(const Poly *s, unsigned k) { Poly *r = new Poly; r->t.reserve(s->t.size()); u64 m = maskn(k); for (auto &x : s->t) if (x.c & m) r->t.push_back({x.key, x.c & m}); r->c0 = s->c0 & m; PS.finish(r, k); PS.foldSec(r, k); if (!PS.wordFold.empty()) PS.foldWord(r, k); return r; }
  V Or(const V &a, const V &b) {
    unsigned w = a.w;
    if (a.kind == V_C && b.kind == V_C) return mkC(a.c | b.c, w);
    if (a.kind == V_C && a.c == 0) return b; if (b.kind == V_C && b.c == 0) return a;
    if (a.kind == V_P && b.kind == V_P && a.p == b.p) return a;
    if ((a.kind == V_P || b.kind == V_P) && a.kind != V_PTR && b.kind != V_PTR) { // disjoint exact ranges add
      PV p = poly(a), q = poly(b);
      if (p.k == w && q.k == w) { u64 mp = rng(p.p), mq = rng(q.p); if (mp && mq && !(mp & mq)) { Poly *r = PS.addMul(p.p, 1, q.p, 1, w); return mkP(r, w, w, UP_ZERO); } } }
    Lit x[64], y[64]; bits(a, x); bits(b, y); for (unsigned i = 0; i < w; i++) x[i] = BS.Or(x[i], y[i]); return mkBits(x, w); }
  u64 rng(const Poly *p) { // superset of bit positions of an exact value (0 = unknown)
    u64 mx = PS.maxVal(p); if (mx == ~0ull) return 0; u64 hi = mx ? maskn(64 - __builtin_clzll(mx)) : 0; u64 g = p->c0; for (auto &x : p->t) g |= x.c; unsigned z = g ? __builtin_ctzll(g) : 63; return hi & ~maskn(z); }
  V Xor(const V &a, const V &b) {
    unsigned w = a.w;
    if (a.kind == V_C && b.kind == V_C) return mkC(a.c ^ b.c, w);
    if (a.kind == V_C) return Xor(b, a);
    if (b.kind == V_C) { if (b.c == 0) return a; if (b.c == maskn(w) && a.kind == V_P) { PV p = poly(a); Poly z; z.c0 = ~0ull; Poly *r = PS.addMul(p.p, ~0ull, &z, 1, p.k); return mkP(r, p.k, w, p.k < w ? UP_JUNK : UP_JUNK); } }
    if (a.kind == V_P && b.kind == V_P && a.p == b.p && a.k == b.k) return mkC(0, w);
    Lit x[64], y[64]; bits(a, x); bits(b, y); for (unsigned i = 0; i < w; i++) x[i] = BS.Xor(x[i], y[i]); return mkBits(x, w); }
  V trunc(const V &a, unsigned w) {
    switch (a.kind) { case V_C: return mkC(a.c, w); case V_P: { if (a.k >= w) { if (a.k == w) { V r = a; r.w = w; r.k = w; return r; } if (!isClass(w) && !(exact(a) && PS.maxVal(a.p) <= maskn(w))) { Lit x[64]; bits(a, x); return mkBits(x, w); } return mkP(cloneP(a.p, w), w, w, UP_JUNK); } V r = a; r.w = (u8)w; return r; }
    case V_B: { Lit x[64]; bits(a, x); return mkBits(x, w); } default: return opaque(8, w, {a}, "trunc-pointer"); } }
  V zext(const V &a, unsigned w) {
    switch (a.kind) { case V_C: return mkC(a.c, w); case V_P: { V r = a; if (a.k == a.w) { if (BS.exactOr && !exact(a)) { Lit x[64]; bits(a, x); for (unsigned i = a.w; i < w; i++) x[i] = L0; return mkBits(x, w); } r.w = (u8)w; if (exact(a)) { r.k = (u8)w; } else { r.up = UP_ZERO; } return r; }
        if (a.up == UP_ZERO) { r.w = (u8)w; return r; } break; }
    case V_B: { Lit x[64]; bits(a, x); for (unsigned i = a.w; i < w; i++) x[i] = L0; return mkBits(x, w); } default: break; }
    if (a.kind == V_P) { V r = a; r.w = (u8)w; r.up = UP_JUNK; return r; }
    return opaque(9, w, {a}, "zext-pointer"); }
  V sext(const V &a, unsigned w) {
    switch (a.kind) { case V_C: return mkC((u64)sx(a), w); case V_P: { V r = a; r.w = (u8)w; if (a.k == a.w) { if (PS.maxVal(a.p) < (1ull << (a.k - 1))) { r.k = (u8)w; return r; } r.up = UP_SEXT; return r; } if (a.up == UP_ZERO || a.up == UP_SEXT) return r; r.up = UP_JUNK; return r; }
    case V_B: { Lit x[64]; bits(a, x); for (unsigned i = a.w; i < w; i++) x[i] = x[a.w - 1]; return mkBits(x, w); } default: return opaque(10, w, {a}, "sext-pointer"); } }
  Lit eq(const V &a, const V &b) {
    if (a.kind == V_C && b.kind == V_C) return a.c == b.c;
    if (a.kind == V_PTR && b.kind == V_PTR) return a.obj == b.obj && a.c == b.c;
    if ((a.kind == V_PTR && b.kind == V_C) || (b.kind == V_PTR && a.kind == V_C)) return L0;
    if (a.kind == V_P && b.kind == V_C && b.c == 0 && (a.k == a.w || a.up == UP_ZERO) && exact(a)) { // sum of non-negative terms is zero iff each is
      std::vector<Lit> it; if (a.p->c0) return L0; for (auto &x : a.p->t) { const PAtom &q = PS.atoms[(u32)x.key]; if (q.kind == PA_BIT) it.push_back(q.x << 1); else for (unsigned i = 0; i < q.nb; i++) it.push_back(PS.lpool[q.x + i]); } return BS.orAll(it) ^ 1; }
    Lit x[64], y[64]; bits(a, x); bits(b, y); std::vector<Lit> v; for (unsigned i = 0; i < a.w; i++) v.push_back(BS.Xor(x[i], y[i])); return BS.orAll(v) ^ 1; }
  Lit ult(const V &a, const V &b, bool sgn) {
    if (a.kind == V_C && b.kind == V_C) return sgn ? sx(a) < sx(b) : a.c < b.c;
    if (a.kind == V_PTR && b.kind == V_PTR && a.obj == b.obj) return (i64)a.c < (i64)b.c;
    unsigned w = a.w; Lit x[64], y[64]; bits(a, x); bits(b, y);
    if (sgn && b.kind == V_C && b.c == 0) return x[w - 1];
    if (sgn) { x[w - 1] ^= 1; y[w - 1] ^= 1; }
    Lit lt = L0; for (unsigned i = 0; i < w; i++) { if (x[i] == y[i]) continue; // higher bits dominate
      if (y[i] < 2) lt = y[i] ? BS.Or(x[i] ^ 1, lt) : BS.And(x[i] ^ 1, lt);
      else if (x[i] < 2) lt = x[i] ? BS.And(y[i], lt) : BS.Or(y[i], lt);
      else lt = BS.Ite(BS.Xor(x[i], y[i]), y[i], lt); }
    return lt; }
  V ite(Lit c, const V &a, const V &b) {
    if (c == L1) return a; if (c == L0) return b;
    if (a.kind == b.kind && a.w == b.w && (a.kind == V_C || a.kind == V_PTR) && a.c == b.c && a.obj == b.obj) return a;
    if (a.kind == V_P && b.kind == V_P && a.p == b.p && a.k == b.k && a.up == b.up) return a;
    if (a.kind == V_NONE || b.kind == V_NONE) return V();
    if (a.kind == V_PTR || b.kind == V_PTR || a.kind == V_GP || b.kind == V_GP) { GPObj *g = new GPObj; auto add = [&](Lit gd, const V &x) { if (gd == L0) return; if (x.kind == V_GP) { for (auto &y : x.g->alt) { Lit z = BS.And(gd, y.first); if (z != L0) g->alt.push_back({z, y.second}); } } else g->alt.push_back({gd, x}); }; add(c, a); add(c ^ 1, b); V r; r.kind = V_GP; r.w = a.w; r.g = g; g->rc++; return r; }
    if (a.kind == V_VEC && b.kind == V_VEC) { VecObj *o = new VecObj; o->ew = a.v->ew; for (size_t i = 0; i < a.v->cells.size(); i++) o->cells.push_back(iteCell(c, a.v->cells[i], b.v->cells[i])); for (size_t i = 0; i < a.v->elems.size(); i++) o->elems.push_back(ite(c, a.v->elems[i], b.v->elems[i])); return mkVec(o); }
    Lit x[64], y[64]; bits(a, x); bits(b, y); for (unsigned i = 0; i < a.w; i++) x[i] = BS.Ite(c, x[i], y[i]); return mkBits(x, a.w); }
  // ---- bits that depend on few bits: compared as truth tables with the bits of the words they are computed from
  struct SmallFn { Ops &O; std::vector<u32> leaf; std::vector<u32> words; bool bad = false; int base = -1; size_t N = 0; std::map<u32, std::vector<u64>> wv; std::map<u32, std::vector<u8>> nv; std::map<u32, u32> seen; std::vector<u64> sig; struct Rel { bool ok, neg; u64 c0; std::vector<Term> d; }; std::map<u32, Rel> rels;
    explicit SmallFn(Ops &o) : O(o) {}
    static const size_t BIG = 64;
    void addLeaf(u32 n) { if (std::find(leaf.begin(), leaf.end(), n) == leaf.end()) { leaf.push_back(n); if (leaf.size() > 16) bad = true; } }
    // X = +-B + short
    Rel &rel(u32 X) { auto it = rels.find(X); if (it != rels.end()) return it->second; Rel &r = rels[X]; r.ok = false; auto &x = PS.words[X], &b = PS.words[base]; if (x.M != b.M) return r; for (int s = 0; s < 2 && !r.ok; s++) { Poly p, q; p.t = x.t; p.c0 = x.c0; q.t = b.t; q.c0 = b.c0; Poly *z = PS.addMul(&p, 1, &q, s ? 1 : ~0ull, x.M); if (z->t.size() <= BIG) { r.ok = true; r.neg = s; r.c0 = z->c0; r.d = z->t; } delete z; } return r; }
    void terms(const std::vector<Term> &t) { sig.push_back(t.size()); for (auto &x : t) { sig.push_back(x.c); atom((u32)x.key); if (x.key >> 32) atom((u32)(x.key >> 32)); else sig.push_back(~0ull); if (bad) return; } }
    void ref(Lit l) { sig.push_back(l & 1); node(l >> 1); }
    void atom(u32 a) { const PAtom q = PS.atoms[a]; sig.push_back(q.kind); if (q.kind == PA_BIT) node(q.x); else if (q.kind == PA_BV) { sig.push_back(q.nb); for (unsigned i = 0; i < q.nb && !bad; i++) ref(PS.lpool[q.x + i]); } else { sig.push_back(PS.secDef[q.x].size()); for (auto &d : PS.secDef[q.x]) { sig.push_back(d.c); node(PS.atoms[(u32)d.key].x); } } }
    void node(u32 n) { if (bad) return; auto ins = seen.emplace(n, (u32)seen.size()); sig.push_back(ins.first->second); if (!ins.second) return; if (seen.size() > 4000) { bad = true; return; } const Node x = BS.nodes[n]; sig.push_back(x.kind);
      switch (x.kind) { case N_CONST: return;
      case N_SUM: sig.push_back(x.y); for (u32 i = 0; i < x.y && !bad; i++) { const u32 *p; u32 k = BS.monoNodes(BS.pool[x.x + i], p); std::vector<u32> v(p, p + k); sig.push_back(k); for (u32 y : v) node(y); } return;
      case N_AND: ref(x.x); ref(x.y); return;
      case N_OR: { auto *it = BS.orItems(n << 1); if (!it) { bad = true; return; } sig.push_back(it->size()); for (Lit l : *it) ref(l); return; }
      case N_OPQ: { auto it = O.opqMul.find(n - x.y); if (x.x != 6 || it == O.opqMul.end()) { bad = true; return; } sig.push_back(x.y); for (auto &v : it->second.a) for (unsigned i = 0; i <= x.y; i++) ref(v[i]); return; } // bit y of a product depends on the operand bits up to y
      case N_WB: { u32 w = x.x; sig.push_back(x.y); sig.push_back(PS.words[w].M); if (PS.words[w].t.size() > BIG) { if (base < 0) { base = (int)w; for (unsigned i = 0; i < PS.words[w].M; i++) addLeaf(PS.words[w].base + i); } if ((u32)base == w) { sig.push_back(0); return; } Rel &r = rel(w); if (!r.ok) { bad = true; return; } words.push_back(w); sig.push_back(1); sig.push_back(r.neg); sig.push_back(r.c0); terms(r.d); } else { words.push_back(w); sig.push_back(2); sig.push_back(PS.words[w].c0); terms(PS.words[w].t); } return; }
      default: addLeaf(n); } }
    std::map<u32, std::vector<u64>> av;
    std::vector<u64> &atomV(u32 a) { auto it = av.find(a); if (it != av.end()) return it->second; const PAtom q = PS.atoms[a]; std::vector<u64> r(N, 0); auto put = [&](Lit l, u64 c) { auto &t = tab(l >> 1); u8 f = l & 1; for (size_t j = 0; j < N; j++) r[j] += (u64)(t[j] ^ f) * c; };
      if (q.kind == PA_BIT) put(q.x << 1, 1); else if (q.kind == PA_BV) { for (unsigned i = 0; i < q.nb; i++) put(PS.lpool[q.x + i], 1ull << i); } else for (auto &d : PS.secDef[q.x]) put(PS.atoms[(u32)d.key].x << 1, d.c); return av[a] = r; }
    std::vector<u64> &word(u32 w) { auto it = wv.find(w); if (it != wv.end()) return it->second; std::vector<u64> r(N); auto &W = PS.words[w]; u64 m = maskn(W.M);
      std::vector<Term> t = W.t; u64 c0 = W.c0; bool ng = false, b = (int)w == base;
      if (b) { for (unsigned i = 0; i < W.M; i++) { auto &t = tab(W.base + i); for (size_t j = 0; j < N; j++) r[j] |= (u64)t[j] << i; } return wv[w] = r; }
      if (W.t.size() > BIG) { Rel &rl = rel(w); ng = rl.neg; c0 = rl.c0; t = rl.d; auto &bw = word(base); for (size_t j = 0; j < N; j++) r[j] = (ng ? 0 - bw[j] : bw[j]) + c0; } else for (size_t j = 0; j < N; j++) r[j] = c0;
      for (auto &x : t) { auto &p = atomV((u32)x.key); if (x.key >> 32) { auto &q = atomV((u32)(x.key >> 32)); for (size_t j = 0; j < N; j++) r[j] += x.c * p[j] * q[j]; } else for (size_t j = 0; j < N; j++) r[j] += x.c * p[j]; }
      for (auto &v : r) v &= m; return wv[w] = r; }
    std::vector<u8> &tab(u32 n) { auto it = nv.find(n); if (it != nv.end()) return it->second; std::vector<u8> r(N, 0); const Node x = BS.nodes[n]; auto lf = std::find(leaf.begin(), leaf.end(), n);
      if (lf != leaf.end()) { size_t i = lf - leaf.begin(); for (size_t j = 0; j < N; j++) r[j] = j >> i & 1; return nv[n] = r; }
      switch (x.kind) { case N_SUM: for (u32 i = 0; i < x.y; i++) { const u32 *p; u32 k = BS.monoNodes(BS.pool[x.x + i], p); std::vector<u32> v(p, p + k); std::vector<u8> m(N, 1); for (u32 y : v) { auto &t = tab(y); for (size_t j = 0; j < N; j++) m[j] &= t[j]; } for (size_t j = 0; j < N; j++) r[j] ^= m[j]; } break;
      case N_AND: { auto &p = tab(x.x >> 1), &q = tab(x.y >> 1); for (size_t j = 0; j < N; j++) r[j] = (p[j] ^ (x.x & 1)) & (q[j] ^ (x.y & 1)); break; }
      case N_OR: for (Lit l : *BS.orItems(n << 1)) { auto &p = tab(l >> 1); for (size_t j = 0; j < N; j++) r[j] |= p[j] ^ (l & 1); } break;
      case N_OPQ: { u32 b = n - x.y; auto &m = O.opqMul[b]; std::vector<u64> pq[2]; for (int k = 0; k < 2; k++) { pq[k].assign(N, 0); for (unsigned i = 0; i <= x.y; i++) { auto &t = tab(m.a[k][i] >> 1); u8 f = m.a[k][i] & 1; for (size_t j = 0; j < N; j++) pq[k][j] |= (u64)(t[j] ^ f) << i; } } for (size_t j = 0; j < N; j++) r[j] = (pq[0][j] * pq[1][j]) >> x.y & 1; break; }
      case N_WB: { auto &v = word(x.x); for (size_t j = 0; j < N; j++) r[j] = v[j] >> x.y & 1; break; }
      default: break; }
      return nv[n] = r; }
    // the table is computed once per shape; the answer names a leaf or a bit of a word of the expression
    struct Ans { int kind; u32 at; unsigned bit; bool neg; };
    Lit bitOf(u32 w, unsigned i) { Lit tmp[64]; Poly q; q.c0 = PS.words[w].c0; q.t = PS.words[w].t; unsigned M = PS.words[w].M; PS.finish(&q, M); PS.toBitsRaw(&q, M, tmp); return tmp[i]; }
    Ans solve(Lit l) { N = (size_t)1 << leaf.size(); std::vector<u8> t = tab(l >> 1); if (l & 1) for (auto &b : t) b ^= 1; if (std::all_of(t.begin(), t.end(), [](u8 b) { return !b; })) return {1, 0, 0, false}; if (std::all_of(t.begin(), t.end(), [](u8 b) { return b; })) return {1, 0, 0, true};
      auto same = [&](const std::vector<u8> &u, bool &neg) { bool e = true, c = true; for (size_t j = 0; j < N && (e || c); j++) { if (u[j] != t[j]) e = false; else c = false; } neg = c; return e || c; }; bool ng;
      for (u32 i = 0; i < leaf.size(); i++) if (same(tab(leaf[i]), ng)) return {2, i, 0, ng};
      for (int pass = 0; pass < 2; pass++) for (u32 k = 0; k < words.size(); k++) { u32 w = words[k]; if ((PS.words[w].t.size() > BIG) == (pass == 1)) continue; unsigned M = PS.words[w].M; auto &v = word(w); std::vector<u8> u(N); for (unsigned i = 0; i < M; i++) { Lit c = PS.words[w].base + i; if (c == (l >> 1)) continue; for (size_t j = 0; j < N; j++) u[j] = v[j] >> i & 1; if (same(u, ng)) return {3, k, i, ng}; } }
      return {0, 0, 0, false}; }
    Lit run(Lit l) { sig.push_back(l & 1); node(l >> 1); if (bad) return l; static std::map<std::vector<u64>, Ans> memo; auto it = memo.find(sig); Ans a; if (it != memo.end()) a = it->second; else memo[sig] = a = solve(l);
      if (a.kind == 1) return a.neg ? L1 : L0; if (a.kind == 2) return (leaf[a.at] << 1) | (Lit)a.neg; if (a.kind == 3) return bitOf(words[a.at], a.bit) ^ (Lit)a.neg; return l; } };
  std::unordered_map<u32, Lit> smallMemo;
  Lit smallFn(Lit l) { if (l < 2) return l; auto it = smallMemo.find(l & ~1u); if (it != smallMemo.end()) return it->second ^ (l & 1); SmallFn f(*this); Lit r = f.run(l & ~1u); smallMemo[l & ~1u] = r; return r ^ (l & 1); }
  V smallVal(const V &a) { if (!PS.smallFns || (a.kind != V_B && a.kind != V_P) || a.w > 16 || !(label(a) & LAB_OPQ)) return a; Lit x[64]; bits(a, x); for (unsigned i = 0; i < a.w; i++) if (BS.label(x[i]) & LAB_OPQ) x[i] = smallFn(x[i]); return mkBits(x, a.w); }
  // ---- byte cells
  void cellBits(const Cell &c, Lit *o) { // 8 literals
    switch (c.kind) { case V_C: for (int i = 0; i < 8; i++) o[i] = (c.c >> (8 * c.idx + i)) & 1; return;
    case V_B: for (int i = 0; i < 8; i++) o[i] = (unsigned)(8 * c.idx + i) < c.w ? c.b->b[8 * c.idx + i] : L0; return;
    case V_NONE: case V_UNINIT: { V x = opaque(11, 8, {}, "undefined"); memcpy(o, x.b->b, 8 * sizeof(Lit)); return; }
    case V_VEC: { V x = opaque(12, 8, {}, "vector-byte"); memcpy(o, x.b->b, 8 * sizeof(Lit)); return; }
    default: { Lit t[64]; if (c.kind == V_P && 8u * c.idx + 8 <= c.k) { BitsObj *q = PS.toBits(c.p, c.k); memcpy(o, q->b + 8 * c.idx, 8 * sizeof(Lit)); return; } V x = c; x.idx = 0; bits(x, t); for (int i = 0; i < 8; i++) o[i] = (unsigned)(8 * c.idx + i) < c.w ? t[8 * c.idx + i] : L0; } } }
  static bool sameCell(const Cell &a, const Cell &b) { return a.kind == b.kind && a.idx == b.idx && a.w == b.w && a.k == b.k && a.up == b.up && a.obj == b.obj && a.c == b.c; }
  Cell iteCell(Lit c, const Cell &a, const Cell &b) { if (sameCell(a, b)) return a; if (a.kind == V_PTR || b.kind == V_PTR || a.kind == V_GP || b.kind == V_GP) { if (a.idx == b.idx) { V x = a, y = b; x.idx = y.idx = 0; V r = ite(c, x, y); r.idx = a.idx; return r; } }
    Lit x[8], y[8]; cellBits(a, x); cellBits(b, y); for (int i = 0; i < 8; i++) x[i] = BS.Ite(c, x[i], y[i]); return mkBits(x, 8); }
  // scalar of n bytes from cells
  V fromCells(const Cell *c, unsigned n) {
    const Cell &a = c[0];
    if (a.kind == V_C && a.w == 8) { u64 v = 0; unsigned i = 0; for (; i < n; i++) { if (c[i].kind != V_C || c[i].w != 8) break; v |= c[i].c << (8 * i); } if (i == n) return mkC(v, 8 * n); }
    if (a.idx == 0 && a.w == 8 * n && a.kind >= V_C) { unsigned i = 1; for (; i < n; i++) if (c[i].kind != a.kind || c[i].idx != i || c[i].c != a.c || c[i].w != a.w || c[i].obj != a.obj || c[i].k != a.k || c[i].up != a.up) break; if (i == n) { V r = a; r.idx = 0; return r; } }
    // narrower piece of one polynomial word starting at byte 0
    if (a.kind == V_P && a.idx == 0 && a.w > 8 * n) { unsigned i = 1; for (; i < n; i++) if (c[i].kind != V_P || c[i].idx != i || c[i].p != a.p || c[i].k != a.k) break; if (i == n) { V r = a; return trunc(r, 8 * n); } }
    // a polynomial word followed by zero bytes
    if (a.kind == V_P && a.idx == 0 && a.w < 8 * n && a.w % 8 == 0) { unsigned m = a.w / 8, i = 1; for (; i < m; i++) if (c[i].kind != V_P || c[i].idx != i || c[i].p != a.p) break; if (i == m) { for (; i < n; i++) if (c[i].kind != V_C || ((c[i].c >> (8 * c[i].idx)) & 0xff)) break; if (i == n) { V r = a; r.idx = 0; return zext(r, 8 * n); } } }
    Lit l[64]; for (unsigned i = 0; i < n; i++) cellBits(c[i], l + 8 * i); return mkBits(l, 8 * n); }
  void toCells(const V &a0, unsigned n, Cell *o) {
    V a = smallVal(a0);
    if (a.kind == V_C) { for (unsigned i = 0; i < n; i++) o[i] = mkC(8 * i < 64 ? (a.c >> (8 * i)) & 0xff : 0, 8); return; }
    for (unsigned i = 0; i < n; i++) { o[i] = a; o[i].idx = (u8)i; } }
};
extern Ops OP;
