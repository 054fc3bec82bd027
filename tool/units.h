// Analyses of single routines (hashes, permutation, packing, sampling, products, generators),
// each for all contents of its inputs, against the specification in the same value domain.
#include <llvm/IR/DebugInfo.h>

static const Function *fnOpt(const char *n) { auto *f = primFn(n); return f && !f->isDeclaration() ? f : nullptr; }
static std::vector<std::string> unitMissing, unitDone, unitNotes;
static bool have(const char *n, bool required) { if (fnOpt(n)) { unitDone.push_back(js(n)); return true; } if (required) unitMissing.push_back(js(n)); return false; }

static bool shape(const char *n, const std::string &k, bool required) { const Function *f = fnOpt(n); bool ok = f && f->arg_size() == k.size(); for (unsigned i = 0; ok && i < k.size(); i++) ok = f->getArg(i)->getType()->isPointerTy() == (k[i] == 'p'); if (!ok) { if (required) unitMissing.push_back(js(std::string(n) + (f ? " (other parameters)" : ""))); return false; } unitDone.push_back(js(n)); return true; }
// one call of one routine in fresh memory
struct Unit { Interp I; std::map<std::string, u32> obj;
  Unit() : I(*MOD) { I.maxInst = 600000000ull; installPrims(I); }
  u32 mk(u8 kind, const std::string &nm, u64 size, u32 align = 1) { u32 o = I.newObj(kind, size, align, nm, false); if (kind == O_OUT) I.meta[o].histLabel = LB_OLD; obj[nm] = o; return o; }
  u32 in(const std::string &nm, const Bits &b, u32 align = 1, u8 kind = O_IN) { u32 o = mk(kind, nm, b.size() / 8, align); I.initBits(o, 0, b); return o; }
  V ptr(u32 o, i64 off = 0) { return mkPtr(o, off, I.pw); }
  Bits out(u32 o) { return I.objBits(o, 0, I.meta[o].size); }
  V call(const char *fn, std::vector<V> a) { const Function *f = fnOpt(fn); if (!f) throw AnalysisAbort{std::string("routine ") + fn + " not found"}; if (f->arg_size() != a.size()) throw AnalysisAbort{std::string("routine ") + fn + " has an unexpected signature"};
    for (size_t i = 0; i < a.size(); i++) { Type *t = f->getArg(i)->getType(); if (t->isPointerTy() != (a[i].kind == V_PTR || (a[i].kind == V_C && a[i].w == I.pw && t->isPointerTy()))) throw AnalysisAbort{std::string("routine ") + fn + " has an unexpected signature"}; if (t->isIntegerTy() && a[i].kind == V_C) a[i] = mkC(a[i].c, t->getIntegerBitWidth()); }
    return I.call(f, a); }
  void done(const std::string &ctx) { harvest(I, ctx); RP.caseCount++; } };
static V num(u64 n) { return mkC(n, 64); }
static Bits freshIn(const std::string &nm, size_t bytes, u64 lab = LB_AUX) { static std::map<std::string, Bits> pool; Bits &b = pool[nm]; if (b.size() < 8 * bytes) { size_t have = b.size() / 8; Bits more = mkInput(nm + (have ? "+" + std::to_string(have) : ""), bytes - have, lab); b.insert(b.end(), more.begin(), more.end()); } return Bits(b.begin(), b.begin() + 8 * bytes); }
static Lit nameBit(Lit l) { return BS.nameBit(l); }

// ---- P08: the permutation -------------------------------------------------------
static Bits keccakSpec(const Bits &in) {
  // FIPS 202: A[x][y][z], index 64*(5*y+x)+z
  static const int R = 24; Bits A = in; auto at = [](int x, int y, int z) { return 64 * (5 * ((y + 5) % 5) + (x + 5) % 5) + ((z % 64) + 64) % 64; };
  int off[5][5] = {}; { int x = 1, y = 0; for (int t = 0; t < 24; t++) { off[x][y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; } }
  auto rcBit = [](int t) -> int { t %= 255; u32 r = 1; for (int i = 0; i < t; i++) { r <<= 1; if (r & 0x100) r ^= 0x171; } return r & 1; };
  for (int rd = 0; rd < R; rd++) { Bits C(320), B(1600), E(1600);
    for (int x = 0; x < 5; x++) for (int z = 0; z < 64; z++) { Lit c = L0; for (int y = 0; y < 5; y++) c = BS.Xor(c, A[at(x, y, z)]); C[64 * x + z] = c; }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) for (int z = 0; z < 64; z++) { Lit d = BS.Xor(C[64 * ((x + 4) % 5) + z], C[64 * ((x + 1) % 5) + (z + 63) % 64]); Lit t = BS.Xor(A[at(x, y, z)], d); B[at(y, 2 * x + 3 * y, z + off[x][y])] = t; }
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) for (int z = 0; z < 64; z++) E[at(x, y, z)] = BS.Xor(B[at(x, y, z)], BS.And(B[at(x + 1, y, z)] ^ 1, B[at(x + 2, y, z)]));
    for (int j = 0; j <= 6; j++) if (rcBit(j + 7 * rd)) E[at(0, 0, (1 << j) - 1)] ^= 1;
    for (int i = 0; i < 1600; i++) A[i] = nameBit(E[i]); }
  return A; }
static void modePerm() { BS.maxMono = 1024; BS.maxSum = 400; // larger products stay opaque: the analysis of a wrong permutation ends too
  bool x4 = argi("lanes", 1) > 1;
  if (have("KeccakF1600_StatePermute", true)) { Bits s = mkInput("state", 200, LB_STATE); Bits want = keccakSpec(s); Unit u; u.I.noIntercept.insert("KeccakF1600_StatePermute"); u32 o = u.in("state", s, 8, O_INOUT); u.call("KeccakF1600_StatePermute", {u.ptr(o)}); compare("KeccakF1600_StatePermute", u.out(o), want); u.done("KeccakF1600_StatePermute"); }
  const char *p4 = "KeccakP1600times4_PermuteAll_24rounds";
  if (x4 && have(p4, true)) { BS.fold.clear(); Bits s(6400), want(6400); for (int l = 0; l < 4; l++) { Bits x = mkInput("lane" + std::to_string(l), 200, LB_LANE0 << l), y = keccakSpec(x); for (int w = 0; w < 25; w++) for (int b = 0; b < 64; b++) { s[(4 * w + l) * 64 + b] = x[64 * w + b]; want[(4 * w + l) * 64 + b] = y[64 * w + b]; } }
    Unit u; u.I.noIntercept.insert(p4); u32 o = u.in("states", s, 32, O_INOUT); u.call(p4, {u.ptr(o)}); compare(p4, u.out(o), want); u.done(p4); } }

// ---- P07: sponge functions for every length ---------------------------------------
static std::vector<size_t> lens(size_t upto, std::initializer_list<size_t> more) { std::vector<size_t> v; for (size_t i = 0; i <= upto; i++) v.push_back(i); for (size_t m : more) if (m > upto) v.push_back(m); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static void modeSponge() {
  Params P = getParams(); bool x4 = P.lanes > 1; bool thorough = argi("thorough", 0); size_t pk = P.pkb(), ct = P.ctb(), mat = P.L * P.L * P.EQ * 32, sec = P.L * (P.u ? 2 : P.MU) * 32; size_t big = thorough ? 140000 : 66000;
  std::string what = arg("what", "all"); auto want = [&](const char *n) { return what == "all" || what == n; };
  struct H { const char *n; unsigned rate, out; };
  for (H h : {H{"sha3_256", 136, 32}, H{"sha3_512", 72, 64}}) if (want(h.n) && have(h.n, true)) for (size_t n : lens((thorough ? 4 : 2) * h.rate + 9, {64, 32, pk, ct, 3 * h.rate, 10 * h.rate - 1, 10 * h.rate, big})) for (int inplace = 0; inplace < 2; inplace++) { if (inplace && (n < h.out || n > 2 * h.rate)) continue;
      Bits m = freshIn("msg", n); std::string ctx = std::string(h.n) + "(inlen=" + std::to_string(n) + (inplace ? ",in-place" : "") + ")"; Unit u; u32 i, o; if (inplace) i = o = u.in("buf", m, 1, O_INOUT); else { i = u.in("in", m); o = u.mk(O_OUT, "out", h.out); } u.call(h.n, {u.ptr(o), u.ptr(i), num(n)}); Bits got = u.out(o); got.resize(8 * h.out); compare(ctx, got, sponge(m, h.rate, 6, h.out), 1); if (inplace) { Bits rest = u.out(o); rest.erase(rest.begin(), rest.begin() + 8 * h.out); Bits old(m.begin() + 8 * h.out, m.end()); compare(ctx + " bytes after the digest", rest, old, 1); } u.done(ctx); }
  auto xofLens = [&](unsigned rate, std::vector<std::pair<size_t, size_t>> &v) { for (size_t n : lens((thorough ? 4 : 2) * rate + 9, {3 * rate, big})) v.push_back({n, 32}); for (size_t n : lens((thorough ? 5 : 3) * rate + 9, {mat, sec, big})) v.push_back({32, n}); for (size_t n : {rate - 1, rate, rate + 1, 2 * rate}) for (size_t o : {(size_t)0, (size_t)1, (size_t)rate - 1, (size_t)rate, (size_t)rate + 1, (size_t)2 * rate}) v.push_back({n, o}); };
  for (auto fn : {"shake128", "cshake128_simple", "shake256", "cshake256_simple"}) { bool cs = std::string(fn)[0] == 'c'; if (!want(fn) || !have(fn, std::string(fn) == "shake128")) continue; unsigned rate = std::string(fn).find("256") != std::string::npos ? 136 : 168; std::vector<std::pair<size_t, size_t>> v; xofLens(rate, v);
    for (auto &q : v) for (int inplace = 0; inplace < 2; inplace++) { size_t n = q.first, ol = q.second; if (inplace && (n != 32 || ol > 400)) continue; Bits m = freshIn("msg", n); std::string ctx = std::string(fn) + "(outlen=" + std::to_string(ol) + ",inlen=" + std::to_string(n) + (inplace ? ",in-place" : "") + ")"; Unit u; u32 i, o; if (inplace) { Bits b = m; if (ol > n) { Bits t = freshIn("tail", ol - n); b.insert(b.end(), t.begin(), t.end()); } i = o = u.in("buf", b, 1, O_INOUT); } else { i = u.in("in", m); o = u.mk(O_OUT, "out", ol); }
      Bits sp; if (cs) { Bits c = freshIn("cstm", 2); V cv = mkBits(c.data(), 16); u.call(fn, {u.ptr(o), num(ol), cv, u.ptr(i), num(n)}); Bits pre = constBits(rate == 168 ? 0x10010001a801ull : 0x100100018801ull, 48); pre.insert(pre.end(), c.begin(), c.end()); pre.resize(8 * rate, L0); sp = sponge(cat({pre, m}), rate, 4, ol); } else { u.call(fn, {u.ptr(o), num(ol), u.ptr(i), num(n)}); sp = sponge(m, rate, 0x1f, ol); }
      Bits got = u.out(o); got.resize(8 * ol); compare(ctx, got, sp, 1); u.done(ctx); } }
  // block-wise interfaces: absorb (of any previous state contents, or of a zeroed state where the caller has to zero it), then squeeze in two parts
  struct BW { const char *ab, *sq; unsigned rate; bool cs; };
  for (BW b : {BW{"shake128_absorb", "shake128_squeezeblocks", 168, false}, BW{"shake256_absorb", "shake256_squeezeblocks", 136, false}, BW{"cshake128_simple_absorb", "cshake128_simple_squeezeblocks", 168, true}, BW{"cshake256_simple_absorb", "cshake256_simple_squeezeblocks", 136, true}}) { if (what != "all" && what != "blockwise") break; if (!shape(b.ab, b.cs ? "pipi" : "ppi", false) || !shape(b.sq, "pip", false)) continue; bool dirty = P.m0 || b.cs;
    for (size_t n : lens(2 * b.rate + 9, {})) for (size_t k1 : {0, 1, 2}) { size_t k2 = n % 3; if (k1 && n % 7) continue; std::string ctx = std::string(b.ab) + "(inlen=" + std::to_string(n) + "); squeeze " + std::to_string(k1) + "+" + std::to_string(k2) + " blocks"; Unit u; Bits m = freshIn("msg", n), sp; u32 i = u.in("in", m), st = u.in("state", dirty ? freshIn("oldstate", 200) : Bits(1600, L0), 8, O_INOUT), o1 = u.mk(O_OUT, "out1", k1 * b.rate), o2 = u.mk(O_OUT, "out2", k2 * b.rate); size_t tot = (k1 + k2) * b.rate;
      if (b.cs) { Bits c = freshIn("cstm", 2); u.call(b.ab, {u.ptr(st), mkBits(c.data(), 16), u.ptr(i), num(n)}); Bits pre = constBits(b.rate == 168 ? 0x10010001a801ull : 0x100100018801ull, 48); pre.insert(pre.end(), c.begin(), c.end()); pre.resize(8 * b.rate, L0); sp = sponge(cat({pre, m}), b.rate, 4, tot); } else { u.call(b.ab, {u.ptr(st), u.ptr(i), num(n)}); sp = sponge(m, b.rate, 0x1f, tot); }
      u.call(b.sq, {u.ptr(o1), num(k1), u.ptr(st)}); u.call(b.sq, {u.ptr(o2), num(k2), u.ptr(st)}); compare(ctx, cat({u.out(o1), u.out(o2)}), sp, 1); u.done(ctx); } }
  if (!x4) return;
  auto four = [&](const char *fn, unsigned rate, u8 dom, bool xof, size_t outFixed) { if (!want(fn) || !have(fn, true)) return; std::vector<std::pair<size_t, size_t>> v; if (xof) xofLens(rate, v); else for (size_t n : lens(2 * rate + 9, {64, pk, ct, 3 * rate, big})) v.push_back({n, outFixed});
    for (auto &q : v) { size_t n = q.first, ol = q.second; std::string ctx = std::string(fn) + "(outlen=" + std::to_string(ol) + ",inlen=" + std::to_string(n) + ")"; Unit u; std::vector<V> a; std::vector<u32> os; std::vector<Bits> ms; for (int l = 0; l < 4; l++) { os.push_back(u.mk(O_OUT, "out" + std::to_string(l), ol)); a.push_back(u.ptr(os[l])); } if (xof) a.push_back(num(ol)); for (int l = 0; l < 4; l++) { ms.push_back(freshIn("msg" + std::to_string(l), n, LB_AUX | LB_LANE0 << l)); a.push_back(u.ptr(u.in("in" + std::to_string(l), ms[l]))); } a.push_back(num(n)); u.call(fn, a); for (int l = 0; l < 4; l++) compare(ctx + " lane " + std::to_string(l), u.out(os[l]), sponge(ms[l], rate, dom, ol), 1); u.done(ctx); } };
  four("shake128x4", 168, 0x1f, true, 0); four("shake256x4", 136, 0x1f, true, 0); four("sha3_256x4", 136, 6, false, 32); four("sha3_512x4", 72, 6, false, 64);
  const char *sq = "shake128x4_squeezeblocks"; if (want(sq) && have(sq, false)) for (size_t nb : {0, 1, 2, 3, 5}) { Unit u; Bits s(6400); std::vector<Bits> st; for (int l = 0; l < 4; l++) { Bits x = freshIn("sqlane" + std::to_string(l), 200, LB_LANE0 << l); st.push_back(x); for (int w = 0; w < 25; w++) for (int b = 0; b < 64; b++) s[(4 * w + l) * 64 + b] = x[64 * w + b]; } std::vector<V> a; std::vector<u32> os; for (int l = 0; l < 4; l++) { os.push_back(u.mk(O_OUT, "out" + std::to_string(l), nb * 168)); a.push_back(u.ptr(os[l])); } a.push_back(num(nb)); u32 so = u.in("state", s, 32, O_INOUT); a.push_back(u.ptr(so)); u.call(sq, a);
      for (int l = 0; l < 4; l++) { Bits w; for (size_t i = 0; i < nb; i++) { st[l] = PR.apply(PR_KECCAK, st[l], 1600); w.insert(w.end(), st[l].begin(), st[l].begin() + 8 * 168); } compare(std::string(sq) + "(nblocks=" + std::to_string(nb) + ") lane " + std::to_string(l), u.out(os[l]), w, 1); } u.done(sq); } }

// ---- P09: SHA-2 and AES-256 counter mode -------------------------------------------
static Bits sha2Spec(unsigned w, const Bits &m) { Bits p = sha2Pad(w, m); std::vector<V> H = sha2Init(w); for (size_t i = 0; i < p.size(); i += 16 * w) sha2Block(w, H, Bits(p.begin() + i, p.begin() + i + 16 * w)); return sha2Out(w, H); }
static void modeSha2() { PS.classes = {32, 64}; PS.secMU = 0; PS.secU = false; bool thorough = argi("thorough", 0); unsigned w = argi("w", 32); const char *fn = w == 32 ? "sha256" : "sha512"; if (!have(fn, true)) return; size_t blk = 2 * w; Params P = getParams(); PS.classes = {32, 64}; PS.secMU = 0; PS.secU = false;
  unsigned part = argi("part", 0), parts = argi("parts", 1), turn = 0; bool zero = argi("zero", 0);
  std::vector<size_t> L = lens(thorough ? 6 * blk : blk + blk / 4 + 2, {2 * blk - w / 4 - 1, 2 * blk - w / 4, 2 * blk - 1, 2 * blk, 2 * blk + 1, 3 * blk - w / 4 - 1, 3 * blk - w / 4, 3 * blk, P.pkb(), P.ctb(), 64, (size_t)(thorough ? 8197 : 2053)}); if (zero) L = {(1u << 16) + 1, (1u << 21) + 5};
  for (size_t n : L) for (int inplace = 0; inplace < 2; inplace++) { if (inplace && (n < w || n > 2 * blk)) continue; if (turn++ % parts != part) continue;
    // names are local to one message, so that the normal form of a sum does not depend on other lengths
    PS.wordFold.clear(); Bits m = zero ? Bits(8 * n, L0) : freshIn("msg", n), want = sha2Spec(w, m); std::string ctx = std::string(fn) + "(inlen=" + std::to_string(n) + (inplace ? ",in-place" : zero ? ",all-zero message" : "") + ")"; Unit u; u.I.noIntercept.insert(fn); u32 i, o; if (inplace) i = o = u.in("buf", m, 1, O_INOUT); else { i = u.in("in", m); o = u.mk(O_OUT, "out", w); } u.call(fn, {u.ptr(o), u.ptr(i), num(n)}); Bits got = u.out(o); got.resize(8 * w); compare(ctx, got, want, 1); u.done(ctx); } }
struct AesKey { Bits rk[15]; };
static Bits xorB(const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = BS.Xor(a[i], b[i]); return r; }
static Bits nameB(Bits b) { for (auto &l : b) l = BS.nameBit(l); return b; }
void sboxBits(const Lit *in, Lit *out);
static Bits subB(const Bits &a) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i += 8) sboxBits(&a[i], &r[i]); return nameB(r); }
static AesKey aesSchedule(const Bits &key) { std::vector<Bits> W; for (int i = 0; i < 8; i++) W.push_back(sub(key, 4 * i, 4)); u8 rc = 1;
  auto alias = [&](const Bits &form, const Bits &name) { for (int b = 0; b < 32; b++) if (form[b] > 1 && name[b] > 1 && form[b] != name[b] && BS.nodes[form[b] >> 1].kind == N_SUM) BS.fold[form[b] >> 1] = name[b] ^ (form[b] & 1); };
  for (int i = 8; i < 60; i += 4) { Bits g = W[i - 1]; if (i % 8 == 0) { std::rotate(g.begin(), g.begin() + 8, g.end()); g = subB(g); for (int b = 0; b < 8; b++) g[b] ^= (rc >> b) & 1; rc = (u8)((rc << 1) ^ (rc & 0x80 ? 0x1b : 0)); } else g = subB(g);
    // every way of summing up a column from the previous ones has the same name
    Bits pre[4]; for (int j = 0; j < 4; j++) { std::vector<Bits> forms; for (int k = -1; k < j; k++) { Bits h = k < 0 ? g : W[i + k], f = h, t = W[i - 8 + k + 1]; for (int q = k + 1; q <= j; q++) { f = xorB(f, W[i - 8 + q]); if (q > k + 1) t = xorB(t, W[i - 8 + q]); } forms.push_back(xorB(t, h)); forms.push_back(f); } Bits nm = nameB(forms.back()); for (auto &f : forms) alias(f, nm); W.push_back(nm); } }
  AesKey K; for (int r = 0; r < 15; r++) K.rk[r] = cat({W[4 * r], W[4 * r + 1], W[4 * r + 2], W[4 * r + 3]}); return K; }
static Bits aesBlock(const AesKey &K, const Bits &in) { Bits s = nameB(xorB(in, K.rk[0])); auto xt = [](const Lit *i, Lit *o) { for (int j = 0; j < 8; j++) o[j] = j ? i[j - 1] : L0; for (int j : {0, 1, 3, 4}) o[j] = BS.Xor(o[j], i[7]); };
  for (int r = 1; r <= 14; r++) { Bits b = subB(s), t(128), m(128); for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) for (int j = 0; j < 8; j++) t[8 * (4 * c + q) + j] = b[8 * (4 * ((c + q) & 3) + q) + j];
    if (r == 14) m = t; else for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) { const Lit *a0 = &t[8 * (4 * c + q)], *a1 = &t[8 * (4 * c + ((q + 1) & 3))], *a2 = &t[8 * (4 * c + ((q + 2) & 3))], *a3 = &t[8 * (4 * c + ((q + 3) & 3))]; Lit x0[8], x1[8]; xt(a0, x0); xt(a1, x1); for (int j = 0; j < 8; j++) m[8 * (4 * c + q) + j] = BS.Xor(BS.Xor(BS.Xor(x0[j], x1[j]), BS.Xor(a1[j], a2[j])), a3[j]); }
    s = nameB(xorB(m, K.rk[r])); }
  return s; }
static Bits beCtr(unsigned __int128 c, int bytes) { Bits o; for (int i = bytes - 1; i >= 0; i--) { Bits b = constBits((u64)(c >> (8 * i)) & 0xff, 8); o.insert(o.end(), b.begin(), b.end()); } return o; }
static Bits aesStream(const AesKey &K, const Bits &iv12, u64 c0, size_t n) { static std::map<std::pair<std::vector<Lit>, u64>, Bits> memo; Bits o; for (u64 c = c0; o.size() < 8 * n; c++) { auto key = std::make_pair(std::vector<Lit>(iv12), c & 0xffffffff); auto it = memo.find(key); if (it == memo.end()) it = memo.emplace(key, aesBlock(K, cat({iv12, beCtr(c & 0xffffffff, 4)}))).first; o.insert(o.end(), it->second.begin(), it->second.end()); } o.resize(8 * n); return o; }
static void modeAes() { BS.naming = true; BS.maxMono = 2048; BS.maxSum = 3000; PS.classes = {32, 64}; PS.secMU = 0; PS.secU = false; bool thorough = argi("thorough", 0); Params P = getParams(); PS.classes = {32, 64}; PS.secMU = 0; PS.secU = false; std::string what = arg("what", "prf");
  Bits key = mkInput("key", 32, LB_AUX); AesKey K = aesSchedule(key); Bits z12(96, L0), nonce = mkInput("nonce", 12, LB_AUX);
  std::vector<size_t> L; if (argi("wide", 0)) { for (size_t i = 0; i <= 272; i++) L.push_back(i); for (size_t q : {512, 513, 1024, 1040}) L.push_back(q); if (thorough) L.push_back(P.L * P.L * P.EQ * 32); L.push_back(4096 + 128 + 5); } else L = {0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80, 127, 128, 129, 191, 192, 193};
  if (what == "prf" && have("saber_aes256ctr_prf", true)) for (size_t n : L) { std::string ctx = "saber_aes256ctr_prf(outlen=" + std::to_string(n) + ")"; Bits want = aesStream(K, z12, 0, n + 256); want.resize(8 * n); Unit u; u.I.noIntercept.insert("saber_aes256ctr_prf"); u32 o = u.mk(O_OUT, "out", n), k = u.in("key", key); u.call("saber_aes256ctr_prf", {u.ptr(o), num(n), u.ptr(k)}); compare(ctx, u.out(o), want, 1); u.done(ctx); }
  if (what == "nonce" && have("aes256ctr_prf", false)) for (size_t n : {33, 64, 65, 130}) { std::string ctx = "aes256ctr_prf(outlen=" + std::to_string(n) + ")"; Bits want = aesStream(K, nonce, 0, n + 256); want.resize(8 * n); Unit u; u32 o = u.mk(O_OUT, "out", n), k = u.in("key", key), v = u.in("nonce", nonce); u.call("aes256ctr_prf", {u.ptr(o), num(n), u.ptr(k), u.ptr(v)}); compare(ctx, u.out(o), want, 1); u.done(ctx); }
  if (what == "blocks" && have("aes256ctr_init", false) && have("aes256ctr_squeezeblocks", false)) { size_t sz = argi("ctx", 1024); for (std::vector<int> h : std::vector<std::vector<int>>{{1}, {2}, {0, 1}, {1, 1}}) { Unit u; u32 c = u.mk(O_INOUT, "ctx", sz, 8), k = u.in("key", key), v = u.in("nonce", nonce); u.call("aes256ctr_init", {u.ptr(c), u.ptr(k), u.ptr(v)}); u64 blk = 0; for (int nb : h) { std::string ctx = "aes256ctr_squeezeblocks(nblocks=" + std::to_string(nb) + ") from block " + std::to_string(blk); u32 o = u.mk(O_OUT, "out", 64 * nb); Bits want = aesStream(K, nonce, blk, 64 * nb); u.call("aes256ctr_squeezeblocks", {u.ptr(o), num(nb), u.ptr(c)}); compare(ctx, u.out(o), want, 1); blk += 4 * nb; } u.done("aes256ctr_squeezeblocks"); }
    // counter words near every carry boundary: the places where the context holds nonce || counter are found by content
    for (u64 c : {0xfeull, 0xfcull, 0xfffeull, 0xfffdull, 0xffffffull, 0xfffffcull, 0xfffffffaull}) { Unit u; u32 x = u.mk(O_INOUT, "ctx", sz, 8), k = u.in("key", key), v = u.in("nonce", nonce); u.call("aes256ctr_init", {u.ptr(x), u.ptr(k), u.ptr(v)}); Bits mem = u.out(x); std::vector<size_t> at; for (size_t q = 0; q + 16 <= sz; q++) if (std::equal(nonce.begin(), nonce.end(), mem.begin() + 8 * q)) at.push_back(q);
      bool ok = at.size() == 4; for (size_t j = 0; ok && j < 4; j++) { Bits w = beCtr(j, 4); ok = std::equal(w.begin(), w.end(), mem.begin() + 8 * (at[j] + 12)); } if (!ok) { unitNotes.push_back(js("aes256ctr context: counter words not recognised, carry cases not analysed")); break; }
      for (int j = 0; j < 4; j++) u.I.initBits(x, at[j] + 12, beCtr((u32)(c + j), 4)); u32 o = u.mk(O_OUT, "out", 128); Bits want = aesStream(K, nonce, c, 128); u.call("aes256ctr_squeezeblocks", {u.ptr(o), num(2), u.ptr(x)}); std::string ctx = "aes256ctr_squeezeblocks from counter " + std::to_string(c); compare(ctx, u.out(o), want, 1); u.done(ctx); } }
  if (what == "stream" && have("crypto_stream_aes256ctr", false)) { Bits hi = mkInput("nonce.hi", 8, LB_AUX), carry(64); { Lit l[64]; for (int i = 0; i < 64; i++) l[i] = hi[8 * (7 - i / 8) + i % 8]; V s = OP.addsub(mkBits(l, 64), mkC(1, 64), false); OP.bits(s, l); for (int i = 0; i < 64; i++) carry[8 * (7 - i / 8) + i % 8] = l[i]; }
    std::vector<u64> starts = {0, 1, 0xf8, 0xff, 0xffff, 0xfffffff8ull, 0xffffffffull, 0x7ffffffffffffff8ull, 0x7fffffffffffffffull, 0x8000000000000000ull}; for (u64 d = 1; d <= 18; d++) starts.push_back(0 - d);
    for (u64 c : starts) { size_t n = 16 * 18; Unit u; u32 o = u.mk(O_OUT, "out", n), k = u.in("key", key), v = u.in("nonce", cat({hi, beCtr(c, 8)})); Bits want; for (u64 b = 0; b < 18; b++) { Bits x = aesBlock(K, cat({(c + b < c) ? carry : hi, beCtr(c + b, 8)})); want.insert(want.end(), x.begin(), x.end()); } u.call("crypto_stream_aes256ctr", {u.ptr(o), num(n), u.ptr(v), u.ptr(k)}); std::string ctx = "crypto_stream_aes256ctr(nonce low half = -" + std::to_string((u64)(0 - c)) + ")"; compare(ctx, u.out(o), want, 1); u.done(ctx); } } }

// ---- P10, P11: deterministic generator and seed expander ---------------------------
static void installEvp(Interp &I) {
  auto one = [](const CallBase *cb) { return cb->getType()->isVoidTy() ? V() : mkC(1, cb->getType()->getIntegerBitWidth()); };
  I.hooks["EVP_CIPHER_CTX_new"] = [](Interp &I, const CallBase *, std::vector<V> &) -> V { u32 o = I.newObj(O_HEAP, 64, 16, "EVP_CIPHER_CTX", false); for (auto &c : I.W(o).cells) c = mkC(0, 8); return mkPtr(o, 0, I.pw); };
  I.hooks["EVP_aes_256_ecb"] = [](Interp &I, const CallBase *, std::vector<V> &) -> V { for (u32 o = 0; o < I.meta.size(); o++) if (I.meta[o].name == "EVP_aes_256_ecb()") return mkPtr(o, 0, I.pw); return mkPtr(I.newObj(O_GLOBAL, 1, 1, "EVP_aes_256_ecb()", true), 0, I.pw); };
  auto init = [one](Interp &I, const CallBase *cb, std::vector<V> &a) -> V { if (a.size() < 5 || a[0].kind != V_PTR) throw AnalysisAbort{"EVP_EncryptInit_ex"}; bool ecb = a[1].kind == V_PTR && I.meta[a[1].obj].name == "EVP_aes_256_ecb()"; bool keep = a[1].kind == V_C && a[1].c == 0; V p = a[0]; if (!keep) { p.c = a[0].c + 32; I.writeBits(p, constBits(ecb ? 1 : 2, 8)); p.c = a[0].c; } if (a[3].kind == V_PTR) I.writeBits(p, I.readBits(a[3], 32)); return one(cb); };
  I.hooks["EVP_EncryptInit_ex"] = init; I.hooks["EVP_EncryptInit_ex2"] = init; I.hooks["EVP_EncryptInit"] = [init](Interp &I, const CallBase *cb, std::vector<V> &a) -> V { std::vector<V> b = {a[0], a[1], mkC(0, I.pw), a[2], a[3]}; return init(I, cb, b); };
  I.hooks["EVP_CIPHER_CTX_set_padding"] = [one](Interp &, const CallBase *cb, std::vector<V> &) -> V { return one(cb); };
  I.hooks["EVP_EncryptUpdate"] = [one](Interp &I, const CallBase *cb, std::vector<V> &a) -> V { if (a.size() != 5 || a[0].kind != V_PTR || a[4].kind != V_C || a[4].c % 16) throw AnalysisAbort{"EVP_EncryptUpdate"}; V p = a[0]; Bits key = I.readBits(p, 32); p.c += 32; Bits alg = I.readBits(p, 1); if (alg[0] > 1 || alg[1] > 1) throw AnalysisAbort{"EVP_EncryptUpdate: cipher chosen by data"}; Bits in = I.readBits(a[3], a[4].c), out; for (size_t b = 0; b < a[4].c / 16; b++) { Bits x = PR.apply(alg[0] == L1 && alg[1] == L0 ? (u32)PR_AES256 : 90u, cat({key, sub(in, 16 * b, 16)}), 128); out.insert(out.end(), x.begin(), x.end()); } I.writeBits(a[1], out); if (a[2].kind == V_PTR) I.writeBits(a[2], constBits(a[4].c, 32)); return one(cb); };
  I.hooks["EVP_CIPHER_CTX_free"] = [](Interp &I, const CallBase *, std::vector<V> &a) -> V { if (a[0].kind == V_PTR) { ObjData *d = new ObjData; d->alive = false; I.mem[a[0].obj] = ORef(d); } return V(); };
  I.hooks["EVP_CIPHER_CTX_reset"] = [one](Interp &, const CallBase *cb, std::vector<V> &) -> V { return one(cb); };
}
static Bits aesBlk(const Bits &key, const Bits &in) { return PR.apply(PR_AES256, cat({key, in}), 128); }
static Bits beInc(const Bits &v, size_t bytes, size_t tail) { Bits o = v; Lit cy = L1; for (size_t j = bytes; j-- > bytes - tail;) for (int i = 0; i < 8; i++) { Lit x = o[8 * j + i]; o[8 * j + i] = BS.Xor(x, cy); cy = BS.And(x, cy); } return o; }
struct Drbg { Bits K, V_; 
  void update(const Bits *data) { Bits t; for (int i = 0; i < 3; i++) { V_ = beInc(V_, 16, 16); Bits b = aesBlk(K, V_); t.insert(t.end(), b.begin(), b.end()); } if (data) for (int i = 0; i < 384; i++) t[i] = BS.nameBit(BS.Xor(t[i], (*data)[i])); K = sub(t, 0, 32); V_ = sub(t, 32, 16); }
  Bits random(size_t n) { Bits o; while (o.size() < 8 * n) { V_ = beInc(V_, 16, 16); Bits b = aesBlk(K, V_); o.insert(o.end(), b.begin(), b.begin() + std::min<size_t>(128, 8 * n - o.size())); } update(nullptr); return o; } };
static void wantRet(const V &r, i64 want, const std::string &ctx) { if (!(r.kind == V_C && Ops::sx(r) == want)) { RP.bitsMismatch++; RP.mism.push_back("{\"region\":" + js(ctx) + ",\"byte\":0,\"bit\":0,\"got\":" + js("return value " + (r.kind == V_C ? std::to_string((i64)Ops::sx(r)) : std::string("not constant"))) + ",\"want\":" + js(std::to_string(want)) + ",\"labels\":[]}"); } else RP.bitsCompared++; }
static size_t structSize(const char *name, size_t dflt) { DebugInfoFinder F; F.processModule(*MOD); for (auto *t : F.types()) { if (t->getName() != name) continue; const DIType *x = t; for (int g = 0; g < 4 && x; g++) { if (x->getSizeInBits()) return x->getSizeInBits() / 8; if (auto *d = dyn_cast<DIDerivedType>(x)) x = d->getBaseType(); else break; } } return dflt; }
static void modeRng() { BS.exactOr = true; PS.classes = {8, 16, 32, 64}; PS.secMU = 0; PS.secU = false; bool thorough = argi("thorough", 0); std::string what = arg("what", "drbg");
  if (what == "drbg") {
    std::vector<std::string> gens; for (auto n : {"randombytes", "randombytes0", "randombytes1", "randombytes2", "randombytes3"}) if (have(n, std::string(n) == "randombytes")) gens.push_back(n);
    if (!have("randombytes_init", true) || gens.empty()) return;
    Bits ent = freshIn("entropy", 48), pers = freshIn("personalization", 48), str = mkInput("strength", 4, LB_AUX); V strV = mkBits(str.data(), 32);
    struct Loc { std::string obj; size_t k, v; }; std::vector<Loc> locs;
    for (int wp = 0; wp < 2; wp++) { Bits seed = ent; if (wp) for (int i = 0; i < 384; i++) seed[i] = BS.Xor(seed[i], pers[i]); Drbg D{Bits(256, L0), Bits(128, L0)}; D.update(&seed);
      Unit u; installEvp(u.I); u32 e = u.in("entropy", ent), p = u.in("personalization", pers); std::string c0 = std::string("randombytes_init(personalization=") + (wp ? "given" : "NULL") + ")"; u.call("randombytes_init", {u.ptr(e), wp ? u.ptr(p) : mkC(0, u.I.pw), strV});
      std::vector<Loc> L; for (u32 o = 0; o < u.I.meta.size(); o++) { auto &m = u.I.meta[o]; if (m.kind != O_GLOBAL || m.isConst || m.size < 48) continue; Bits b = u.I.objBits(o, 0, m.size); long k = -1, v = -1; for (size_t q = 0; q + 32 <= m.size; q++) if (k < 0 && std::equal(D.K.begin(), D.K.end(), b.begin() + 8 * q)) k = q; for (size_t q = 0; q + 16 <= m.size; q++) if (v < 0 && std::equal(D.V_.begin(), D.V_.end(), b.begin() + 8 * q)) v = q; if (k >= 0 && v >= 0) L.push_back({m.name, (size_t)k, (size_t)v}); }
      if (!wp) locs = L;
      // requests after initialisation, each generator on its own
      for (auto &g : gens) { if (arg("gen") != "" && arg("gen") != g) continue; Unit w; installEvp(w.I); u32 e2 = w.in("entropy", ent), p2 = w.in("personalization", pers); w.call("randombytes_init", {w.ptr(e2), wp ? w.ptr(p2) : mkC(0, w.I.pw), strV}); Drbg S = D; std::string h = c0; for (size_t n : std::vector<size_t>{32, 48, 0, 17, 16, 1, 32}) { h += "; " + g + "(" + std::to_string(n) + ")"; u32 o = w.mk(O_OUT, "out", n); Bits want = S.random(n); V r = w.call(g.c_str(), {w.ptr(o), num(n)}); compare(h, w.out(o), want, 1); wantRet(r, 0, h); } w.done(h); }
      u.done(c0); }
    // any state: the transition of one request, with every other byte of the state object arbitrary
    if (locs.size() < gens.size()) { unitNotes.push_back(js("generator state not recognised in memory: only histories from initialisation analysed")); return; }
    std::vector<Bits> SK, SV, SR; std::vector<u64> sz; for (size_t j = 0; j < locs.size(); j++) { auto *gv = MOD->getGlobalVariable(locs[j].obj, true); u64 s = MOD->getDataLayout().getTypeAllocSize(gv->getValueType()).getFixedValue(); sz.push_back(s); SR.push_back(mkInput(locs[j].obj + ".rest", s, LB_STATE)); SK.push_back(mkInput(locs[j].obj + ".Key", 32, LB_STATE)); SV.push_back(mkInput(locs[j].obj + ".V", 16, LB_STATE)); }
    auto setup = [&](Unit &w) { installEvp(w.I); std::vector<u32> os; for (size_t j = 0; j < locs.size(); j++) { u32 o = w.I.globalObj(MOD->getGlobalVariable(locs[j].obj, true)); w.I.initBits(o, 0, SR[j]); w.I.initBits(o, locs[j].k, SK[j]); w.I.initBits(o, locs[j].v, SV[j]); os.push_back(o); } return os; };
    // each generator owns one state object; two generators never share one
    std::map<std::string, size_t> owner; std::set<size_t> taken;
    for (auto &g : gens) { long own = -1; for (size_t j = 0; j < locs.size() && own < 0; j++) { Unit w; auto os = setup(w); u32 o = w.mk(O_OUT, "out", 16); w.call(g.c_str(), {w.ptr(o), num(16)}); if (!taken.count(j) && w.out(o) == aesBlk(SK[j], beInc(SV[j], 16, 16))) own = j; }
      if (own < 0) { own = 0; for (size_t j = 0; j < locs.size(); j++) if (!taken.count(j) && (locs[j].obj == "DRBG_ctx" + g.substr(11) || locs.size() == 1)) own = j; } taken.insert(own); owner[g] = own; }
    for (auto &g : gens) { if (arg("gen") != "" && arg("gen") != g) continue; long own = owner[g];
      std::vector<size_t> N; for (size_t n = 0; n <= 80; n++) N.push_back(n); for (size_t n : {96, 127, 128, 129, 255, 256, 257, 300}) N.push_back(n); if (thorough) for (size_t n : {511, 512, 513, 1000}) N.push_back(n);
      for (size_t n : N) { std::string ctx = g + "(" + std::to_string(n) + ") from any state"; Unit w; auto os = setup(w); Drbg S{SK[own], SV[own]}; Bits want = S.random(n); u32 o = w.mk(O_OUT, "out", n); V r = w.call(g.c_str(), {w.ptr(o), num(n)}); wantRet(r, 0, ctx); compare(ctx, w.out(o), want, 1);
        for (size_t j = 0; j < locs.size(); j++) { compare(ctx + ": next key of " + locs[j].obj, w.I.objBits(os[j], locs[j].k, 32), (long)j == own ? S.K : SK[j], 1); compare(ctx + ": next counter of " + locs[j].obj, w.I.objBits(os[j], locs[j].v, 16), (long)j == own ? S.V_ : SV[j], 1); } w.done(ctx); } }
    return; }
  // seed expander
  if (!have("seedexpander_init", true) || !have("seedexpander", true)) return;
  Bits key = freshIn("seed", 32), div = freshIn("diversifier", 8); size_t sz = structSize("AES_XOF_struct", 256);
  auto beM = [](u64 m) { return beCtr(m & 0xffffffff, 4); };
  struct SX { Bits key, pre; Bits ctr; Bits buf; size_t pos = 16; u64 rem; Bits take(size_t n) { Bits o; while (n) { if (pos == 16) { buf = aesBlk(key, cat({pre, ctr})); ctr = beInc(ctr, 4, 4); pos = 0; } size_t k = std::min<size_t>(n, 16 - pos); o.insert(o.end(), buf.begin() + 8 * pos, buf.begin() + 8 * (pos + k)); pos += k; n -= k; } return o; } };
  auto start = [&](Unit &u, u64 maxlen, SX &S, u32 &c, i64 want, const std::string &ctx) { c = u.mk(O_INOUT, "ctx", sz, 8); u.I.meta[c].histLabel = LB_OLD; installEvp(u.I); u32 s = u.in("seed", key), d = u.in("diversifier", div); V r = u.call("seedexpander_init", {u.ptr(c), u.ptr(s), u.ptr(d), num(maxlen)}); wantRet(r, want, ctx); S = SX(); S.key = key; S.pre = cat({div, beM(maxlen)}); S.ctr = Bits(32, L0); S.rem = maxlen; };
  auto ask = [&](Unit &u, u32 c, SX &S, u64 n, const std::string &ctx) { bool ok = n < S.rem; size_t bn = ok ? n : std::min<u64>(n, 64); u32 o = u.mk(O_OUT, "x", bn); Bits old = u.out(o); V r = u.call("seedexpander", {u.ptr(c), u.ptr(o), num(n)}); wantRet(r, ok ? 0 : -3, ctx); if (ok) { Bits w = S.take(n); S.rem -= n; compare(ctx, u.out(o), w, 1); } else compare(ctx + ": output of a refused request", u.out(o), old, 1); };
  // accepted and refused maximum lengths
  for (u64 m : {0ull, 1ull, 2ull, 16ull, 255ull, 256ull, 65535ull, 65536ull, 0xffffffull, 0x1000000ull, 0x12345678ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x8000000000000000ull, ~0ull}) { Unit u; SX S; u32 c; std::string ctx = "seedexpander_init(maxlen=" + std::to_string(m) + ")"; bool ok = m <= 0xffffffffull; start(u, m, S, c, ok ? 0 : -1, ctx); if (ok) { ask(u, c, S, m, ctx + "; request of the whole budget"); if (m) ask(u, c, S, std::min<u64>(m - 1, 40), ctx + "; first bytes"); } u.done(ctx); }
  // budget: the request equal to the remaining budget is refused, one less is granted
  for (u64 m : {1ull, 2ull, 17ull, 40ull, 64ull, 100ull}) for (u64 a = 0; a < std::min<u64>(m, 41); a += (m > 40 ? 3 : 1)) { std::string ctx = "budget " + std::to_string(m) + ": seedexpander(" + std::to_string(a) + ")"; Unit u; SX S; u32 c; start(u, m, S, c, 0, ctx); ask(u, c, S, a, ctx); u64 rem = S.rem; for (u64 q : std::initializer_list<u64>{rem, rem + 1, rem + 15, rem + 16, (u64)0x100000000ull, (u64)0x100000000ull + 1, (u64)1 << 63, ~0ull}) ask(u, c, S, q, ctx + "; then " + std::to_string(q)); { V r = u.call("seedexpander", {u.ptr(c), mkC(0, u.I.pw), num(rem ? rem - 1 : 0)}); wantRet(r, -2, ctx + "; then NULL output"); } ask(u, c, S, rem - 1, ctx + "; then " + std::to_string(rem - 1)); ask(u, c, S, 1, ctx + "; then the last byte"); u.done(ctx); }
  // stream position and counter: any 32-bit counter value, every buffer position, request lengths over several blocks
  { Bits any = mkInput("counter", 4, LB_STATE); bool found = true;
    for (size_t p = 0; p <= 16 && found; p++) { std::vector<size_t> Ls; for (size_t l = 0; l <= (thorough ? 70 : 50); l++) Ls.push_back(l); Ls.push_back(256 + p); Ls.push_back(333);
      for (size_t l : Ls) { std::string ctx = "any counter: seedexpander(" + std::to_string(p) + "); seedexpander(" + std::to_string(l) + ")"; Unit u; SX S; u32 c; start(u, 0xfffffffeull, S, c, 0, ctx); Bits pat = cat({S.pre, S.ctr}), mem = u.out(c); long at = -1; for (size_t q = 0; q + 16 <= sz; q++) if (std::equal(pat.begin(), pat.end(), mem.begin() + 8 * q)) at = q; if (at < 0) { unitNotes.push_back(js("seed expander counter not recognised in memory: only counters from zero analysed")); found = false; break; }
        u.I.initBits(c, at + 12, any); S.ctr = any; ask(u, c, S, p, ctx); ask(u, c, S, l, ctx); ask(u, c, S, 19, ctx + "; seedexpander(19)"); u.done(ctx); } } }
}

// ---- P17: a hardware generator read through a device register: every output byte is a fresh byte of some read -------
static void modeHwRng() { getParams(); if (!shape("randombytes", "pi", true)) return; std::vector<std::pair<u32, u32>> words;
  for (size_t n : lens(argi("thorough", 0) ? 600 : 140, {256, 1000})) { Unit u; std::map<u32, std::pair<size_t, unsigned>> bit; size_t reads = 0; std::string bad; u.I.deviceLoad = [&](u64, unsigned w) -> V { if (reads > n + 4) throw AnalysisAbort{"unbounded device reads"}; Bits b = freshIn("generator word " + std::to_string(reads), 2); for (unsigned i = 0; i < 16; i++) bit[b[i]] = {reads, i}; reads++; Lit l[64]; for (unsigned i = 0; i < w; i++) l[i] = i < 16 ? b[i] : L0; return mkBits(l, w); };
    u32 o = u.mk(O_OUT, "out", n); u.call("randombytes", {u.ptr(o), num(n)}); Bits g = u.out(o); std::map<u32, size_t> used; std::string ctx = "randombytes(" + std::to_string(n) + ")"; RP.bitsCompared += g.size();
    for (size_t i = 0; i < g.size() && bad.empty(); i++) { auto it = bit.find(g[i]); if (it == bit.end()) bad = "{\"region\":" + js(ctx) + ",\"byte\":" + std::to_string(i / 8) + ",\"bit\":" + std::to_string(i % 8) + ",\"got\":" + js(litStr(g[i])) + ",\"want\":\"a fresh bit of the hardware generator\",\"labels\":[]}"; else if (!used.insert({g[i], i}).second) bad = "{\"region\":" + js(ctx) + ",\"byte\":" + std::to_string(i / 8) + ",\"bit\":" + std::to_string(i % 8) + ",\"got\":" + js("the generator bit already used for byte " + std::to_string(used[g[i]] / 8)) + ",\"want\":\"a fresh bit of the hardware generator\",\"labels\":[]}"; }
    if (!bad.empty()) { RP.bitsMismatch++; RP.mism.push_back(bad); } u.done(ctx); } }

// ---- P05: packing and unpacking ------------------------------------------------------
// a routine under its known name and with its known parameters; anything else is left to the whole-KEM comparison
static bool sig(const char *n, unsigned ptrs, unsigned ints, bool required) { const Function *f = fnOpt(n); if (!f) { if (required) unitMissing.push_back(js(n)); return false; } bool ok = f->arg_size() == ptrs + ints; for (unsigned i = 0; ok && i < ptrs + ints; i++) ok = f->getArg(i)->getType()->isPointerTy() == (i < ptrs); if (!ok) { if (required) unitMissing.push_back(js(std::string(n) + " (other parameters)")); return false; } unitDone.push_back(js(n)); return true; }
static void vectorSetup(Unit &u) { for (auto n : {"load_values", "init_aux_avx"}) { const Function *f = fnOpt(n); if (f && f->arg_size() == 0) u.call(n, {}); } }
static Bits packSpec(const Bits &d, unsigned w) { Bits o; for (size_t i = 0; i < d.size(); i += 16) o.insert(o.end(), d.begin() + i, d.begin() + i + w); return o; }
static Bits unpackSpec(const Bits &b, unsigned w) { Bits o; for (size_t i = 0; i + w <= b.size(); i += w) { o.insert(o.end(), b.begin() + i, b.begin() + i + w); o.insert(o.end(), 16 - w, L0); } return o; }
static void modePack() { Params P = getParams(); bool x4 = P.lanes > 1; unsigned L = P.L; bool vec = fnOpt("load_values");
  // direction, width, polynomials, modulus argument (0: none), lanes, values of one bit only
  auto run = [&](const char *fn, bool pack, unsigned w, unsigned n, unsigned mod, unsigned lanes, bool bit, bool required) { if (!sig(fn, 2 * lanes, mod ? 1 : 0, required)) return; Unit u; vectorSetup(u); std::vector<V> by, da; std::vector<u32> outs; std::vector<Bits> want;
    for (unsigned l = 0; l < lanes; l++) { std::string s = lanes > 1 ? std::to_string(l) : ""; u64 lb = LB_AUX | (lanes > 1 ? LB_LANE0 << l : 0); size_t bb = n * w * 32, db = n * 512;
      if (pack) { Bits d = freshIn("coefficients" + s, db, lb); if (bit) for (size_t i = 0; i < d.size(); i++) if (i % 16) d[i] = L0; u32 i = u.in("data" + s, d, 32, O_IN), o = u.mk(O_OUT, "bytes" + s, bb); da.push_back(u.ptr(i)); by.push_back(u.ptr(o)); outs.push_back(o); want.push_back(packSpec(d, w)); }
      else { Bits b = freshIn("bytes" + s, bb, lb); u32 i = u.in("bytes" + s, b, 1, O_IN), o = u.mk(O_OUT, "data" + s, db, 32); by.push_back(u.ptr(i)); da.push_back(u.ptr(o)); outs.push_back(o); want.push_back(unpackSpec(b, w)); } }
    std::vector<V> a = by; a.insert(a.end(), da.begin(), da.end()); if (mod) a.push_back(num(mod)); u.call(fn, a);
    for (unsigned l = 0; l < lanes; l++) compare(std::string(fn) + (mod ? "(modulus " + std::to_string(mod) + ")" : "") + (lanes > 1 ? " lane " + std::to_string(l) : ""), u.out(outs[l]), want[l], 1); u.done(fn); };
  auto pk = [&](const char *fn, unsigned w, unsigned n, bool req = false) { run(fn, true, w, n, 0, 1, false, req); }; auto un = [&](const char *fn, unsigned w, unsigned n, bool req = false) { run(fn, false, w, n, 0, 1, false, req); };
  if (P.m0) { // Cortex-M0: one polynomial of a packed vector at a time
    for (unsigned w : {3u, 4u, 6u}) { pk(("SABER_pack_" + std::to_string(w) + "bit").c_str(), w, 1, w == P.ET); un(("SABER_un_pack" + std::to_string(w) + "bit").c_str(), w, 1, w == P.ET); }
    pk("POLVECp2BS", P.EP, L, true); un("BS2POLVECp", P.EP, L); pk("POLVECq2BS", P.EQ, L, true); un("BS2POLVECq", P.EQ, L, true); un("BS2POLq", P.EQ, 1);
    size_t pb = P.EP * 32; if (shape("BS2POLp", "ipp", true)) for (unsigned k = 0; k < L; k++) { Unit u; Bits b = freshIn("bytes", L * pb); u32 i = u.in("bytes", b), o = u.mk(O_OUT, "data", 512, 2); u.call("BS2POLp", {num(k), u.ptr(i), u.ptr(o)}); compare("BS2POLp(polynomial " + std::to_string(k) + ")", u.out(o), unpackSpec(sub(b, k * pb, pb), P.EP), 1); u.done("BS2POLp"); }
    if (shape("POLp2BS", "ppi", true)) for (unsigned k = 0; k < L; k++) { Unit u; Bits b = freshIn("bytes", L * pb), d = freshIn("coefficients", 512), want = b, p = packSpec(d, P.EP); u32 i = u.in("data", d, 2), o = u.in("bytes", b, 1, O_INOUT); u.call("POLp2BS", {u.ptr(o), u.ptr(i), num(k)}); std::copy(p.begin(), p.end(), want.begin() + 8 * k * pb); compare("POLp2BS(polynomial " + std::to_string(k) + ")", u.out(o), want, 1); u.done("POLp2BS"); }
    if (shape("POL2MSG", "pp", true)) { Unit u; Bits d = freshIn("coefficients", 512); for (size_t i = 0; i < d.size(); i++) if (i % 16) d[i] = L0; u32 i = u.in("data", d, 2), o = u.mk(O_OUT, "bytes", 32); u.call("POL2MSG", {u.ptr(i), u.ptr(o)}); compare("POL2MSG", u.out(o), packSpec(d, 1), 1); u.done("POL2MSG"); }
    if (shape("byte_bank2pol_part", "ppii", false)) for (unsigned st = 0; st < 256; st += 8) for (unsigned n8 = 0; n8 <= 21 && st + 8 * n8 <= 256; n8++) { Unit u; Bits b = freshIn("bytes", 280), d = freshIn("coefficients", 512), want = d, p = unpackSpec(sub(b, 0, 13 * n8), 13); u32 i = u.in("bytes", b), o = u.in("pol", d, 2, O_INOUT); u.call("byte_bank2pol_part", {u.ptr(i), u.ptr(o), num(st), num(n8)}); std::copy(p.begin(), p.end(), want.begin() + 16 * st); compare("byte_bank2pol_part(start " + std::to_string(st) + ", " + std::to_string(n8) + " groups)", u.out(o), want, 1); u.done("byte_bank2pol_part"); }
    return; }
  if (!vec) { pk("POLT2BS", P.ET, 1, true); un("BS2POLT", P.ET, 1, true); pk("POLVECq2BS", P.EQ, L, true); un("BS2POLVECq", P.EQ, L, true); pk("POLVECp2BS", P.EP, L, true); un("BS2POLVECp", P.EP, L, true); pk("POLmsg2BS", 1, 1, true); un("BS2POLmsg", 1, 1, true);
    pk("POLq2BS", P.EQ, 1); un("BS2POLq", P.EQ, 1); pk("POLp2BS", P.EP, 1); un("BS2POLp", P.EP, 1); return; }
  bool req = !x4; pk("SABER_pack_3bit", 3, 1, req && P.ET == 3); un("SABER_un_pack3bit", 3, 1, req && P.ET == 3); pk("SABER_pack_4bit", 4, 1, req && P.ET == 4); un("SABER_un_pack4bit", 4, 1, req && P.ET == 4); pk("SABER_pack_6bit", 6, 1, req && P.ET == 6); un("SABER_un_pack6bit", 6, 1, req && P.ET == 6);
  pk("POLVECp2BS", P.EP, L, req); pk("POLVECq2BS", P.EQ, L, req); un("BS2POLVECp", P.EP, L, req); un("BS2POLVECq", P.EQ, L, req); pk("SABER_pack10bit", 10, L); un("SABER_un_pack10bit", 10, L); pk("SABER_pack11bit", 11, L); un("SABER_un_pack11bit", 11, L); pk("SABER_pack13bit", 13, L); un("SABER_un_pack13bit", 13, L); pk("SABER_pack14bit", 14, L); un("SABER_un_pack14bit", 14, L); un("SABER_poly_un_pack13bit", 13, 1); un("BS2POLq", P.EQ, 1, req);
  for (unsigned e : {P.EP, P.EQ}) { run("POLVEC2BS", true, e, L, 1u << e, 1, false, req); run("BS2POLVEC", false, e, L, 1u << e, 1, false, req); }
  // message coefficients are single bits after rounding
  if (sig("POL2MSG", 2, 0, true)) { Unit u; Bits d = freshIn("coefficients", 512); for (size_t i = 0; i < d.size(); i++) if (i % 16) d[i] = L0; u32 i = u.in("data", d, 32), o = u.mk(O_OUT, "bytes", 32); vectorSetup(u); u.call("POL2MSG", {u.ptr(i), u.ptr(o)}); compare("POL2MSG", u.out(o), packSpec(d, 1), 1); u.done("POL2MSG"); }
  if (!x4) return;
  auto x = [&](const char *fn, bool pack, unsigned w, unsigned n, unsigned mod, bool rq) { run(fn, pack, w, n, mod, 4, false, rq); };
  x("SABER_pack_4bitX4", true, 4, 1, 0, true); x("SABER_un_pack4bitX4", false, 4, 1, 0, true);
  for (unsigned e : {P.EP, P.EQ}) { x("POLVEC2BSX4", true, e, L, 1u << e, true); x("BS2POLVECX4", false, e, L, 1u << e, true); }
  x("POLVECp2BSX4", true, P.EP, L, 0, false); x("POLVECq2BSX4", true, P.EQ, L, 0, false); x("old_POLVECp2BSX4", true, P.EP, L, 0, false); x("old_POLVECq2BSX4", true, P.EQ, L, 0, false); x("SABER_pack13bitX4", true, 13, L, 0, false);
  x("BS2POLVECpX4", false, P.EP, L, 0, false); x("BS2POLVECqX4", false, P.EQ, L, 0, false); x("old_BS2POLVECpX4", false, P.EP, L, 0, false); x("old_BS2POLVECqX4", false, P.EQ, L, 0, false); x("BS2POLq4x", false, P.EQ, 1, 0, true); }

// ---- P06: sampling ----------------------------------------------------------------
static Bits coefBits(const V &c) { V t = OP.trunc(c, 16); Lit l[64]; OP.bits(t, l); return Bits(l, l + 16); }
static void modeCbd() { Params P = getParams(); unsigned w = P.u ? 2 : P.MU; bool x4 = P.lanes > 1;
  // coefficients are stored modulo q or as 16-bit two's complement: the value modulo q counts
  auto low = [&](const Bits &b) { Bits o; for (size_t i = 0; i < b.size(); i += 16) o.insert(o.end(), b.begin() + i, b.begin() + i + P.EQ); return o; };
  if (P.m0) { if (shape("cbd", "ipip", true)) for (unsigned st = 0; st < 256; st += 8) for (unsigned n : {4u, 8u, 88u, 96u, 160u, 168u, 248u, 256u}) { if (st + n > 256) continue; Unit u; Bits e = freshIn("expansion", n), d = freshIn("coefficients", 512), want = d; u32 i = u.in("buf", e), o = u.in("s", d, 2, O_INOUT); u.call("cbd", {num(st), u.ptr(o), num(n), u.ptr(i)}); for (unsigned k = 0; k < n; k++) { Bits c = coefBits(secCoef(P, &e[k * w])); std::copy(c.begin(), c.end(), want.begin() + 16 * (st + k)); } compare("cbd(start " + std::to_string(st) + ", " + std::to_string(n) + " bytes)", low(u.out(o)), low(want), 1); u.done("cbd"); } }
  else if (sig("cbd", 2, 0, !P.u) && !P.u) { Unit u; Bits e = freshIn("expansion", w * 32); u32 i = u.in("buf", e), o = u.mk(O_OUT, "s", 512, 2); u.call("cbd", {u.ptr(o), u.ptr(i)}); Bits want; for (int k = 0; k < 256; k++) { Bits c = coefBits(secCoef(P, &e[k * w])); want.insert(want.end(), c.begin(), c.end()); } compare("cbd", low(u.out(o)), low(want), 1); u.done("cbd"); }
  auto vecBits = [&](const Bits &seed) { Bits r; for (auto &p : genSecret(P, seed)) for (auto &v : p.c) { Bits c = coefBits(v); r.insert(r.end(), c.begin(), c.end()); } return r; };
  if (sig("GenSecret", 2, 0, !x4)) { Unit u; Bits sd = freshIn("seed", 32); u32 i = u.in("seed", sd), o = u.mk(O_OUT, "s", 512 * P.L, 2); u.call("GenSecret", {u.ptr(o), u.ptr(i)}); compare("GenSecret", low(u.out(o)), low(vecBits(sd)), 1); u.done("GenSecret"); }
  if (x4 && sig("GenSecret4x", 8, 0, true)) { Unit u; std::vector<V> a; std::vector<u32> os; std::vector<Bits> sd; for (int l = 0; l < 4; l++) { os.push_back(u.mk(O_OUT, "s" + std::to_string(l), 512 * P.L, 2)); a.push_back(u.ptr(os[l])); } for (int l = 0; l < 4; l++) { sd.push_back(freshIn("seed" + std::to_string(l), 32, LB_AUX | LB_LANE0 << l)); a.push_back(u.ptr(u.in("seed" + std::to_string(l), sd[l]))); } u.call("GenSecret4x", a); for (int l = 0; l < 4; l++) compare("GenSecret4x lane " + std::to_string(l), low(u.out(os[l])), low(vecBits(sd[l])), 1); u.done("GenSecret4x"); } }

// ---- P04: products of polynomials ---------------------------------------------------
static void modeMul() { Params P = getParams(); PS.secMU = 0; PS.secU = false; unsigned L = P.L; bool vec = fnOpt("load_values"); std::string what = arg("what", "all"); auto want = [&](const char *w) { return what == "all" || what == w; };
  Bits A = freshIn("a", 512 * L * L), S = freshIn("s", 512 * L); auto poly = [&](const Bits &b, size_t k) { return unpackF(b, 512 * k, 16); };
  std::vector<SpecPoly> a, s; for (size_t k = 0; k < L * L; k++) a.push_back(poly(A, k)); for (size_t k = 0; k < L; k++) s.push_back(poly(S, k));
  auto low = [&](const Bits &b) { Bits o; for (size_t i = 0; i < b.size(); i += 16) o.insert(o.end(), b.begin() + i, b.begin() + i + P.EQ); return o; };
  auto specRow = [&](bool t, unsigned i) { std::vector<const SpecPoly *> x, y; for (unsigned j = 0; j < L; j++) { x.push_back(t ? &a[j * L + i] : &a[i * L + j]); y.push_back(&s[j]); } SpecPoly r = innerProd(x, y, P.EQ, 0); Bits o; for (auto &v : r.c) appendBits(o, v, 0, P.EQ); return o; };
  auto specMat = [&](bool t) { Bits o; for (unsigned i = 0; i < L; i++) { Bits r = specRow(t, i); o.insert(o.end(), r.begin(), r.end()); } return o; };
  if (P.m0) { if (want("acc") && sig("pol_mul", 3, 0, true)) for (int init = 0; init < 2; init++) { Unit u; Bits R = freshIn("res", 512); if (!init) R.assign(512 * 8, L0); u32 x = u.in("a", sub(A, 0, 512), 2), y = u.in("b", sub(S, 0, 512), 2), r = u.in("res", R, 2, O_INOUT); u.call("pol_mul", {u.ptr(x), u.ptr(y), u.ptr(r)}); SpecPoly q = innerProd({&a[0]}, {&s[0]}, P.EQ, 0); Bits o; for (int i = 0; i < 256; i++) { V v = q.c[i]; if (init) v = OP.addsub(v, OP.trunc(fieldCoef(&R[16 * i], 16), P.EQ), false); appendBits(o, v, 0, P.EQ); } compare(init ? "pol_mul onto any accumulator" : "pol_mul", low(u.out(r)), o, 1); u.done("pol_mul"); }
    return; }
  if (!vec) {
    if (want("acc") && sig("poly_mul_acc", 3, 0, false)) for (int init = 0; init < 2; init++) { Unit u; Bits R = freshIn("res", 512); if (!init) R.assign(512 * 8, L0); u32 x = u.in("a", sub(A, 0, 512), 2), y = u.in("b", sub(S, 0, 512), 2), r = u.in("res", R, 2, O_INOUT); u.call("poly_mul_acc", {u.ptr(x), u.ptr(y), u.ptr(r)}); SpecPoly q = innerProd({&a[0]}, {&s[0]}, P.EQ, 0); Bits o; for (int i = 0; i < 256; i++) { V v = q.c[i]; if (init) v = OP.addsub(v, OP.trunc(fieldCoef(&R[16 * i], 16), P.EQ), false); appendBits(o, v, 0, P.EQ); } compare(init ? "poly_mul_acc onto any accumulator" : "poly_mul_acc", low(u.out(r)), o, 1); u.done("poly_mul_acc"); }
    for (int t = 0; t < 2; t++) if (want(t ? "mat1" : "mat0") && sig("MatrixVectorMul", 3, 1, true)) { Unit u; u32 x = u.in("A", A, 2), y = u.in("s", S, 2), r = u.in("res", Bits(512 * 8 * L, L0), 2, O_INOUT); u.call("MatrixVectorMul", {u.ptr(x), u.ptr(y), u.ptr(r), num(t)}); compare("MatrixVectorMul(transpose=" + std::to_string(t) + ")", low(u.out(r)), specMat(t), 1); u.done("MatrixVectorMul"); }
    if (want("inner") && sig("InnerProd", 3, 0, true)) { Unit u; u32 x = u.in("b", sub(A, 0, 512 * L), 2), y = u.in("s", S, 2), r = u.in("res", Bits(512 * 8, L0), 2, O_INOUT); u.call("InnerProd", {u.ptr(x), u.ptr(y), u.ptr(r)}); compare("InnerProd", low(u.out(r)), specRow(false, 0), 1); u.done("InnerProd"); }
    return; }
  bool ok = sig("TC_eval", 2, 0, true);
  auto go = [&](int k) { const char *fn = k < 2 ? "matrix_vector_mul" : "vector_vector_mul"; if (!ok || !sig(fn, 3, k < 2 ? 1 : 0, true)) return; Unit u; vectorSetup(u); u32 bb = u.mk(O_INOUT, "b_bucket", L * 16 * 4 * 32, 32), y = u.in("s", S, 32); for (unsigned j = 0; j < L; j++) u.call("TC_eval", {u.ptr(y, 512 * j), u.ptr(bb, j * 16 * 4 * 32)}); u32 x = u.in("A", k < 2 ? A : sub(A, 0, 512 * L), 32), r = u.mk(O_OUT, "res", k < 2 ? 512 * L : 512, 32); std::vector<V> args{u.ptr(x), u.ptr(bb), u.ptr(r)}; if (k < 2) args.push_back(num(k)); u.call(fn, args); compare(std::string(fn) + (k < 2 ? k ? "(transposed)" : "(not transposed)" : ""), low(u.out(r)), k < 2 ? specMat(k) : specRow(false, 0), 1); u.done(fn); };
  if (want("mat0")) go(0); if (want("mat1")) go(1); if (want("inner")) go(2); }
