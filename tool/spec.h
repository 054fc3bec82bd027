// Specification of the scheme, written in the same value domain as the analysed code.
#pragma once
#include "interp.h"
typedef std::vector<Lit> Bits;
struct Params { int L = 3, MU = 8, ET = 4, EP = 10, EQ = 13; bool u = false, s90 = false; bool m0 = false; unsigned lanes = 1;
  unsigned polyq() const { return EQ * 32; } unsigned polyp() const { return EP * 32; }
  unsigned pkb() const { return L * EP * 32 + 32; } unsigned skb() const { return L * EQ * 32 + pkb() + 32 + 32; } unsigned ctb() const { return L * EP * 32 + ET * 32; }
  u64 h1() const { return 1ull << (EQ - EP - 1); } u64 h2() const { return (1ull << (EP - 2)) - (1ull << (EP - ET - 1)) + (m0 ? 0 : 1ull << (EQ - EP - 1)); } };

static inline Bits cat(std::initializer_list<Bits> l) { Bits r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
static inline Bits sub(const Bits &b, size_t byteOff, size_t bytes) { return Bits(b.begin() + 8 * byteOff, b.begin() + 8 * (byteOff + bytes)); }
static inline Bits constBits(u64 v, unsigned n) { Bits r(n); for (unsigned i = 0; i < n; i++) r[i] = i < 64 ? (v >> i) & 1 : 0; return r; }

// ---- Keccak sponge over the permutation as a primitive
static inline Bits sponge(const Bits &msg, unsigned rate, u8 dom, size_t outBytes) {
  Bits st(1600, L0); size_t n = msg.size() / 8, pos = 0;
  auto xorB = [&](size_t at, const Lit *b) { for (int j = 0; j < 8; j++) st[8 * at + j] = BS.Xor(st[8 * at + j], b[j]); };
  while (n - pos >= rate) { for (unsigned i = 0; i < rate; i++) xorB(i, &msg[8 * (pos + i)]); st = PR.apply(PR_KECCAK, st, 1600); pos += rate; }
  for (size_t i = 0; i < n - pos; i++) xorB(i, &msg[8 * (pos + i)]);
  Bits d = constBits(dom, 8), e = constBits(0x80, 8); xorB(n - pos, d.data()); xorB(rate - 1, e.data());
  Bits out; while (out.size() < 8 * outBytes) { st = PR.apply(PR_KECCAK, st, 1600); out.insert(out.end(), st.begin(), st.begin() + 8 * std::min<size_t>(rate, outBytes - out.size() / 8)); }
  return out; }
static inline Bits aesCtr(const Bits &key, u64 ctr0hi, u64 ctr0lo, size_t outBytes) { Bits out; for (u64 blk = 0; out.size() < 8 * outBytes; blk++) { unsigned __int128 c = (((unsigned __int128)ctr0hi << 64) | ctr0lo) + blk; Bits in = key; for (int i = 0; i < 16; i++) { Bits b = constBits((u64)(c >> (8 * (15 - i))) & 0xff, 8); in.insert(in.end(), b.begin(), b.end()); } Bits o = PR.apply(PR_AES256, in, 128); size_t k = std::min<size_t>(16, outBytes - out.size() / 8); out.insert(out.end(), o.begin(), o.begin() + 8 * k); } return out; }
static inline Bits hashH(const Params &P, const Bits &m) { return P.s90 ? PR.apply(PR_SHA256, m, 256) : sponge(m, 136, 6, 32); }
static inline Bits hashG(const Params &P, const Bits &m) { return P.s90 ? PR.apply(PR_SHA512, m, 512) : sponge(m, 72, 6, 64); }
static inline Bits prf(const Params &P, const Bits &seed, size_t n) { return P.s90 ? aesCtr(seed, 0, 0, n) : sponge(seed, 168, 0x1f, n); }

// ---- ring elements: 256 values modulo 2^k, each a polynomial over atoms
struct SpecPoly { std::vector<V> c; };
static inline V secCoef(const Params &P, const Lit *b) { Poly *p = new Poly; if (P.u) { PS.addLit(p, b[0], 1); PS.addLit(p, b[1], (u64)-2); } else { for (int i = 0; i < P.MU / 2; i++) PS.addLit(p, b[i], 1); for (int i = P.MU / 2; i < P.MU; i++) PS.addLit(p, b[i], ~0ull); } PS.normTerms(p->t, 64); PS.finish(p, 64); PS.foldSec(p, 64); return mkP(p, 64, 64, UP_JUNK); }
static inline V fieldCoef(const Lit *b, unsigned n) { V x = mkBits(b, n); return OP.zext(x, 64); }
static inline SpecPoly unpackF(const Bits &b, size_t byteOff, unsigned n) { SpecPoly r; for (int i = 0; i < 256; i++) r.c.push_back(fieldCoef(&b[8 * byteOff + n * i], n)); return r; }
static inline std::vector<SpecPoly> unpackVec(const Bits &b, size_t byteOff, unsigned n, int L) { std::vector<SpecPoly> r; for (int i = 0; i < L; i++) r.push_back(unpackF(b, byteOff + i * n * 32, n)); return r; }
static inline std::vector<SpecPoly> genSecret(const Params &P, const Bits &seed) { unsigned w = P.u ? 2 : P.MU; Bits e = prf(P, seed, P.L * w * 32); std::vector<SpecPoly> s; for (int j = 0; j < P.L; j++) { SpecPoly p; for (int i = 0; i < 256; i++) p.c.push_back(secCoef(P, &e[(j * 256 + i) * w])); s.push_back(p); } return s; }
static inline std::vector<std::vector<SpecPoly>> genMatrix(const Params &P, const Bits &seed) { Bits e = prf(P, seed, P.L * P.L * P.EQ * 32); std::vector<std::vector<SpecPoly>> A; for (int i = 0; i < P.L; i++) { std::vector<SpecPoly> row; for (int j = 0; j < P.L; j++) row.push_back(unpackF(e, (i * P.L + j) * P.EQ * 32, P.EQ)); A.push_back(row); } return A; }
// sum_j a[j]*b[j] mod (x^256+1, 2^k) by the definition
static inline SpecPoly innerProd(const std::vector<const SpecPoly *> &a, const std::vector<const SpecPoly *> &b, unsigned k, u64 c0) {
  SpecPoly r; u64 m = maskn(k);
  // coefficients as reduced term lists
  typedef std::pair<u64, std::vector<Term>> TL; auto red = [&](const SpecPoly &p) { std::vector<TL> o; for (auto &v : p.c) { Ops::PV q = OP.poly(v); TL t; Poly tmp; PS.truncTo(q.p, k, t.first, t.second); o.push_back(t); } return o; };
  std::vector<std::vector<TL>> ra, rb; for (auto *p : a) ra.push_back(red(*p)); for (auto *p : b) rb.push_back(red(*p));
  for (int n = 0; n < 256; n++) { Poly *p = new Poly; p->c0 = c0; 
    for (size_t j = 0; j < ra.size(); j++) for (int i = 0; i < 256; i++) { int l = (n - i) & 255; u64 sg = i <= n ? 1 : ~0ull; auto &x = ra[j][i]; auto &y = rb[j][l];
      p->c0 += sg * x.first * y.first; if (y.first) for (auto &t : x.second) p->t.push_back({t.key, sg * t.c * y.first}); if (x.first) for (auto &t : y.second) p->t.push_back({t.key, sg * t.c * x.first});
      for (auto &t : x.second) for (auto &s : y.second) { if ((t.key | s.key) >> 32) throw AnalysisAbort{"spec product of non-linear coefficients"}; u32 u = (u32)t.key, v = (u32)s.key; u64 c = sg * t.c * s.c; if (u == v && PS.atoms[u].kind == PA_BIT) p->t.push_back({u, c}); else { if (u > v) std::swap(u, v); p->t.push_back({((u64)v << 32) | u, c}); } } }
    PS.normTerms(p->t, k); p->c0 &= m; PS.finish(p, k); r.c.push_back(mkP(p, k, k, UP_JUNK)); }
  return r; }
static inline void appendBits(Bits &o, const V &v, unsigned from, unsigned n) { Lit l[64]; OP.bits(v, l); for (unsigned i = 0; i < n; i++) o.push_back(l[from + i]); }

struct SpecEnc { Bits ct; };
static inline Bits specCpaEnc(const Params &P, const Bits &pk, const Bits &m, const Bits &coins) {
  Bits seedA = sub(pk, P.L * P.polyp(), 32); auto A = genMatrix(P, seedA); auto s = genSecret(P, coins); auto b = unpackVec(pk, 0, P.EP, P.L); Bits ct;
  for (int i = 0; i < P.L; i++) { std::vector<const SpecPoly *> x, y; for (int j = 0; j < P.L; j++) { x.push_back(&A[i][j]); y.push_back(&s[j]); } SpecPoly r = innerProd(x, y, P.EQ, P.h1()); for (auto &v : r.c) appendBits(ct, v, P.EQ - P.EP, P.EP); }
  std::vector<const SpecPoly *> x, y; for (int j = 0; j < P.L; j++) { x.push_back(&b[j]); y.push_back(&s[j]); }
  SpecPoly v = innerProd(x, y, P.EP, P.m0 ? 0 : P.h1());
  for (int i = 0; i < 256; i++) { V mb = OP.zext(mkBits(&m[i], 1), P.EP); V t = OP.addsub(v.c[i], OP.shl(mb, P.EP - 1), !P.m0); appendBits(ct, t, P.EP - P.ET, P.ET); }
  return ct; }
static inline Bits specCpaDec(const Params &P, const Bits &skS, const Bits &ct) {
  auto s = unpackVec(skS, 0, P.EQ, P.L); auto b = unpackVec(ct, 0, P.EP, P.L); SpecPoly cm = unpackF(ct, P.L * P.polyp(), P.ET);
  std::vector<const SpecPoly *> x, y; for (int j = 0; j < P.L; j++) { x.push_back(&b[j]); y.push_back(&s[j]); }
  SpecPoly v = innerProd(x, y, P.EP, P.h2()); Bits m;
  for (int i = 0; i < 256; i++) { V t = OP.addsub(v.c[i], OP.trunc(OP.shl(cm.c[i], P.EP - P.ET), P.EP), true); appendBits(m, t, P.EP - 1, 1); }
  return m; }
static inline void specKeypair(const Params &P, const Bits &r0, const Bits &r1, const Bits &z, Bits &pk, Bits &sk) {
  Bits seedA = prf(P, r0, 32); auto A = genMatrix(P, seedA); auto s = genSecret(P, r1); pk.clear(); sk.clear();
  for (int i = 0; i < P.L; i++) { std::vector<const SpecPoly *> x, y; for (int j = 0; j < P.L; j++) { x.push_back(&A[j][i]); y.push_back(&s[j]); } SpecPoly r = innerProd(x, y, P.EQ, P.h1()); for (auto &v : r.c) appendBits(pk, v, P.EQ - P.EP, P.EP); }
  pk.insert(pk.end(), seedA.begin(), seedA.end());
  for (auto &p : s) for (auto &v : p.c) { Lit l[64]; V t = OP.trunc(v, 16); OP.bits(t, l); sk.insert(sk.end(), l, l + P.EQ); }
  Bits h = hashH(P, pk); sk = cat({sk, pk, h, z}); }
static inline void specEnc(const Params &P, const Bits &pk, const Bits &r, Bits &ct, Bits &ss) {
  Bits m = hashH(P, r), buf = cat({m, hashH(P, pk)}), kr = hashG(P, buf); ct = specCpaEnc(P, pk, m, sub(kr, 32, 32)); ss = hashH(P, cat({sub(kr, 0, 32), hashH(P, ct)})); }
static inline void specDec(const Params &P, const Bits &ct, const Bits &sk, Bits &ss, Bits *failOut = nullptr) {
  size_t o1 = P.L * P.EQ * 32, o2 = o1 + P.pkb(); Bits m = specCpaDec(P, sk, ct); Bits pk = sub(sk, o1, P.pkb()), hpk = sub(sk, o2, 32), z = sub(sk, o2 + 32, 32);
  Bits kr = hashG(P, cat({m, hpk})); Bits ct2 = specCpaEnc(P, pk, m, sub(kr, 32, 32)); std::vector<Lit> d; for (size_t i = 0; i < ct.size(); i++) d.push_back(BS.Xor(ct[i], ct2[i])); Lit fail = BS.orAll(d); if (failOut) failOut->assign(1, fail);
  Bits k0(256); for (int i = 0; i < 256; i++) k0[i] = BS.Ite(fail, z[i], kr[i]); ss = hashH(P, cat({k0, hashH(P, ct)})); }

static inline V mkBitsV(const V &x) { if (x.kind == V_C) return x; Lit l[64]; OP.bits(x, l); return mkBits(l, x.w); }
// ---- SHA-2 by FIPS 180-4 in the same domain (words as V)
static inline V rotr(const V &x, unsigned n) { unsigned w = x.w; if (x.kind == V_C) return mkC(((x.c >> n) | (x.c << (w - n))) & maskn(w), w); Lit l[64], o[64]; OP.bits(x, l); for (unsigned i = 0; i < w; i++) o[i] = l[(i + n) % w]; return mkBits(o, w); }
static inline u64 fracRoot(int prime, int root, int bits) { // fractional bits of the square/cube root, by integer search
  // find floor(prime^(1/root) * 2^bits) with 64-bit fraction using long integers in base 2^32 via __int128 bisection
  typedef unsigned __int128 u128; u128 lo = 0, hi = ((u128)32) << bits; auto le = [&](u128 x) { // x^root <= prime << (root*bits) ?
    // big multiplication with 32-bit limbs
    std::vector<u32> a{1}; auto mulx = [&](std::vector<u32> &v, u128 y) { std::vector<u32> r(v.size() + 4, 0); u32 yl[4] = {(u32)y, (u32)(y >> 32), (u32)(y >> 64), (u32)(y >> 96)}; for (size_t i = 0; i < v.size(); i++) { u64 cy = 0; for (int j = 0; j < 4; j++) { u64 t = (u64)v[i] * yl[j] + r[i + j] + cy; r[i + j] = (u32)t; cy = t >> 32; } size_t k = i + 4; while (cy && k < r.size()) { u64 t = (u64)r[k] + cy; r[k] = (u32)t; cy = t >> 32; k++; } } v = r; };
    for (int i = 0; i < root; i++) mulx(a, x);
    std::vector<u32> b(root * bits / 32 + 2, 0); int sh = root * bits; u64 pv = (u64)prime << (sh % 32); b[sh / 32] = (u32)pv; b[sh / 32 + 1] = (u32)(pv >> 32); size_t n = std::max(a.size(), b.size()); a.resize(n); b.resize(n); for (size_t i = n; i--;) if (a[i] != b[i]) return a[i] < b[i]; return true; };
  while (hi - lo > 1) { u128 mid = (lo + hi) / 2; if (le(mid)) lo = mid; else hi = mid; } return (u64)(lo & ((((u128)1) << bits) - 1)); }
static inline std::vector<int> primes(int n) { std::vector<int> p; for (int i = 2; (int)p.size() < n; i++) { bool ok = true; for (int q : p) if (i % q == 0) ok = false; if (ok) p.push_back(i); } return p; }
static inline V namedWord(const V &x) { if (x.kind != V_P) return x; Ops::PV q = OP.poly(x); if (q.k != x.w || q.p->t.size() > 400 || (q.p->t.size() == 1 && q.p->c0 == 0)) return x; u32 a = PS.nameWord(q.p, x.w); return mkBits(&PS.lpool[PS.atoms[a].x], x.w); }
static inline void sha2Block(unsigned w, std::vector<V> &H, const Bits &blk) { // blk: 16 words of bytes
  unsigned R = w == 32 ? 64 : 80, B = w / 8; static std::map<unsigned, std::vector<u64>> KT; auto &K = KT[w]; if (K.empty()) for (int p : primes(R)) K.push_back(fracRoot(p, 3, w));
  const int S[2][12] = {{2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10}, {28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6}}; const int *q = S[w == 64];
  std::vector<V> W; for (int i = 0; i < 16; i++) { Lit l[64]; for (unsigned j = 0; j < w; j++) l[j] = blk[(i * B + (B - 1 - j / 8)) * 8 + j % 8]; W.push_back(mkBits(l, w)); }
  auto add = [&](const V &a, const V &b) { return OP.addsub(a, b, false); }; auto x3 = [&](const V &a, const V &b, const V &c) { return OP.Xor(OP.Xor(a, b), c); };
  for (unsigned i = 16; i < R; i++) { V s0 = x3(rotr(W[i - 15], q[6]), rotr(W[i - 15], q[7]), OP.shr(mkBitsV(W[i - 15]), q[8], false)), s1 = x3(rotr(W[i - 2], q[9]), rotr(W[i - 2], q[10]), OP.shr(mkBitsV(W[i - 2]), q[11], false)); W.push_back(namedWord(add(add(W[i - 16], s0), add(W[i - 7], s1)))); }
  std::vector<V> s = H; for (unsigned i = 0; i < R; i++) { V &a = s[0], &b = s[1], &c = s[2], &d = s[3], &e = s[4], &f = s[5], &g = s[6], &h = s[7]; V S1 = x3(rotr(e, q[3]), rotr(e, q[4]), rotr(e, q[5])), ch = OP.Xor(OP.And(mkBitsV(e), mkBitsV(f)), OP.And(OP.Xor(mkBitsV(e), mkC(~0ull, w)), mkBitsV(g))); V t1 = add(add(h, S1), add(add(ch, mkC(K[i], w)), W[i])); V S0 = x3(rotr(a, q[0]), rotr(a, q[1]), rotr(a, q[2])), mj = x3(OP.And(mkBitsV(a), mkBitsV(b)), OP.And(mkBitsV(a), mkBitsV(c)), OP.And(mkBitsV(b), mkBitsV(c))); V t2 = add(S0, mj); V ne = namedWord(add(d, t1)), na = namedWord(add(t1, t2)); s = {na, a, b, c, ne, e, f, g}; }
  for (int i = 0; i < 8; i++) H[i] = namedWord(add(H[i], s[i])); }
static inline std::vector<V> sha2Init(unsigned w) { std::vector<V> H; for (int p : primes(8)) H.push_back(mkC(fracRoot(p, 2, w), w)); return H; }
static inline Bits sha2Pad(unsigned w, const Bits &m) { size_t n = m.size() / 8, blk = w * 2; Bits p = m; Bits b = constBits(0x80, 8); p.insert(p.end(), b.begin(), b.end()); size_t lb = w / 4; while ((p.size() / 8 + lb) % blk) p.insert(p.end(), 8, L0); for (size_t i = 0; i < lb; i++) { size_t sh = 8 * (lb - 1 - i); Bits c = constBits(sh < 64 ? ((u64)n * 8) >> sh & 0xff : 0, 8); p.insert(p.end(), c.begin(), c.end()); } return p; }
static inline Bits sha2Out(unsigned w, const std::vector<V> &H) { Bits o; for (auto &h : H) { Lit l[64]; OP.bits(h, l); unsigned B = w / 8; for (unsigned i = 0; i < B; i++) for (int j = 0; j < 8; j++) o.push_back(l[(B - 1 - i) * 8 + j]); } return o; }
