// Abstract value domain, part 1: bits as value numbers in algebraic normal form,
// words as polynomials over Z/2^k.  No part of this evaluates the analysed program.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef u32 Lit;                       // node<<1 | complement
static const Lit L0 = 0, L1 = 1;
static inline u64 maskn(unsigned k) { return k >= 64 ? ~0ull : ((1ull << k) - 1); }

enum NodeKind : u8 { N_CONST, N_IN, N_UNINIT, N_WB, N_PRIM, N_OPQ, N_OR, N_AND, N_DEF, N_SUM };
struct Node { u8 kind; u32 x, y; u64 label; };

struct AnalysisAbort { std::string why; };

// ---- bit layer -----------------------------------------------------------
struct BitStore {
  std::vector<Node> nodes;
  std::vector<u32> pool;               // sums / or-sets contents
  struct Mono { u32 off, len; u64 label; };
  std::vector<Mono> monos; std::vector<u32> mpool;
  std::vector<u32> sumHash, monoHash;  // open addressing: value+1
  size_t sumCount = 0, monoCount = 0;
  bool naming = false; // the specification names intermediate bits
  std::unordered_map<u32, Lit> fold;   // SUM node -> defining atom
  std::unordered_map<u32, std::vector<Lit>> orDec; // lit -> OR decomposition
  std::unordered_map<u64, u32> andOpq;
  std::map<std::vector<Lit>, u32> orTab;
  std::vector<std::string> inNames;
  bool strictFold = true;
  size_t maxMono = 30000, maxSum = 0;
  bool exactOr = false; // disjunctions as full polynomials (generator analyses)
  BitStore() { nodes.push_back({N_CONST, 0, 0, 0}); sumHash.assign(1 << 16, 0); monoHash.assign(1 << 16, 0); }

  u64 label(Lit l) const { return nodes[l >> 1].label; }
  u32 newNode(u8 k, u32 x, u32 y, u64 lab) {
    if (nodes.size() > 0x7ffffff0u / 2) throw AnalysisAbort{"term table exhausted"};
    nodes.push_back({k, x, y, lab}); return (u32)nodes.size() - 1; }
  u32 block(u8 k, u32 x, u32 n, u64 lab) { u32 b = (u32)nodes.size(); for (u32 i = 0; i < n; i++) newNode(k, x, i, lab); return b; }

  static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; return h; }
  static u64 hvec(const u32 *p, size_t n) { u64 h = n * 0x1234567; for (size_t i = 0; i < n; i++) h = hmix(h, p[i]); return h; }

  // monomials: id < 2^31 -> single atom node;  else 0x80000000|index
  u32 monoNodes(u32 m, const u32 *&p) const {
    static thread_local u32 tmp[4]; static thread_local int r = 0;
    if (!(m >> 31)) { r = (r + 1) & 3; tmp[r] = m; p = &tmp[r]; return 1; }
    const Mono &x = monos[m & 0x7fffffff]; p = &mpool[x.off]; return x.len; }
  u64 monoLabel(u32 m) const { return (m >> 31) ? monos[m & 0x7fffffff].label : nodes[m].label; }
  u32 mkMono(const u32 *p, u32 n) { // sorted unique
    if (n == 1) return p[0];
    u64 h = hvec(p, n); size_t msk = monoHash.size() - 1; size_t i = h & msk;
    while (monoHash[i]) { const Mono &x = monos[monoHash[i] - 1];
      if (x.len == n && !memcmp(&mpool[x.off], p, n * 4)) return 0x80000000u | (monoHash[i] - 1);
      i = (i + 1) & msk; }
    u64 lab = 0; for (u32 j = 0; j < n; j++) lab |= nodes[p[j]].label;
    std::vector<u32> cp(p, p + n);
    u32 id = (u32)monos.size(); monos.push_back({(u32)mpool.size(), n, lab}); mpool.insert(mpool.end(), cp.begin(), cp.end());
    if (mpool.size() > 0xf0000000u) throw AnalysisAbort{"term table exhausted"};
    monoHash[i] = id + 1;
    if (++monoCount * 2 > monoHash.size()) { std::vector<u32> nh(monoHash.size() * 2, 0); size_t m2 = nh.size() - 1;
      for (u32 v : monoHash) if (v) { const Mono &x = monos[v - 1]; size_t j = hvec(&mpool[x.off], x.len) & m2; while (nh[j]) j = (j + 1) & m2; nh[j] = v; }
      monoHash.swap(nh); }
    return 0x80000000u | id; }
  u32 mulMono(u32 a, u32 b) {
    if (a == b) return a;
    const u32 *pa, *pb; u32 na = monoNodes(a, pa), nb = monoNodes(b, pb);
    u32 buf[64]; std::vector<u32> big; u32 *o = buf; if (na + nb > 64) { big.resize(na + nb); o = big.data(); }
    u32 i = 0, j = 0, n = 0;
    while (i < na && j < nb) { if (pa[i] < pb[j]) o[n++] = pa[i++]; else if (pa[i] > pb[j]) o[n++] = pb[j++]; else { o[n++] = pa[i]; i++; j++; } }
    while (i < na) o[n++] = pa[i++]; while (j < nb) o[n++] = pb[j++];
    return mkMono(o, n); }

  u32 monoCountOf(u32 node) const { return nodes[node].kind == N_CONST ? 0 : nodes[node].kind == N_SUM ? nodes[node].y : 1; }
  void getMonos(u32 node, std::vector<u32> &o) const {
    o.clear(); const Node &n = nodes[node];
    if (n.kind == N_CONST) return;
    if (n.kind == N_SUM) o.assign(pool.begin() + n.x, pool.begin() + n.x + n.y); else o.push_back(node); }
  Lit mkSum(const std::vector<u32> &m) { // sorted, unique, no const
    if (m.empty()) return L0;
    if (m.size() == 1 && !(m[0] >> 31)) return m[0] << 1;
    u64 h = hvec(m.data(), m.size()); size_t msk = sumHash.size() - 1; size_t i = h & msk; u32 nd = 0;
    while (sumHash[i]) { const Node &x = nodes[sumHash[i] - 1];
      if (x.y == m.size() && !memcmp(&pool[x.x], m.data(), m.size() * 4)) { nd = sumHash[i] - 1; break; }
      i = (i + 1) & msk; }
    if (!nd) {
      u64 lab = 0; for (u32 v : m) lab |= monoLabel(v);
      if (pool.size() + m.size() > 0xf0000000u) throw AnalysisAbort{"term table exhausted"};
      u32 off = (u32)pool.size(); pool.insert(pool.end(), m.begin(), m.end());
      nd = newNode(N_SUM, off, (u32)m.size(), lab); sumHash[i] = nd + 1;
      if (++sumCount * 2 > sumHash.size()) { std::vector<u32> nh(sumHash.size() * 2, 0); size_t m2 = nh.size() - 1;
        for (u32 v : sumHash) if (v) { const Node &x = nodes[v - 1]; size_t j = hvec(&pool[x.x], x.y) & m2; while (nh[j]) j = (j + 1) & m2; nh[j] = v; }
        sumHash.swap(nh); }
    }
    if (!fold.empty()) { auto it = fold.find(nd); if (it != fold.end()) return it->second; }
    return nd << 1; }

  std::vector<u32> ta, tb, tc;
  Lit Xor(Lit a, Lit b) {
    if (a < 2) return a ^ b; if (b < 2) return a ^ b;
    if ((a ^ b) < 2) return a ^ b;   // equal or complementary
    u32 neg = (a ^ b) & 1; u32 na = a >> 1, nb = b >> 1;
    getMonos(na, ta); getMonos(nb, tb); tc.clear();
    size_t i = 0, j = 0;
    while (i < ta.size() && j < tb.size()) { if (ta[i] < tb[j]) tc.push_back(ta[i++]); else if (ta[i] > tb[j]) tc.push_back(tb[j++]); else { i++; j++; } }
    while (i < ta.size()) tc.push_back(ta[i++]); while (j < tb.size()) tc.push_back(tb[j++]);
    if (!fold.empty() && !tc.empty() && (tc.back() >> 31)) { u32 c = unfoldDefs(tc); neg ^= c; }
    Lit r = mkSum(tc) ^ neg; return maxSum && tc.size() > maxSum ? nameBit(r) : r; }
  // ---- named bits: an atom standing for a sum; its level orders it after the atoms of its definition
  u32 atomLevel(u32 nd) const { return nodes[nd].kind == N_DEF ? nodes[nd].y : 0; }
  Lit nameBit(Lit l) { if (l < 2 || nodes[l >> 1].kind != N_SUM) return l; u32 s = l >> 1, lv = 0; for (u32 i = 0; i < nodes[s].y; i++) { const u32 *p; u32 k = monoNodes(pool[nodes[s].x + i], p); for (u32 j = 0; j < k; j++) lv = std::max(lv, atomLevel(p[j])); }
    u32 n = newNode(N_DEF, s, lv + 1, label(l)); fold[s] = n << 1; andMemo.clear(); return (n << 1) | (l & 1); }
  // in a sum with products of lower-level atoms, a named bit is written out
  u32 unfoldDefs(std::vector<u32> &m) { u32 c = 0;
    for (int guard = 0; guard < 64; guard++) { u32 mx = 0; bool have = false; for (u32 x : m) { if (x >> 31) break; if (nodes[x].kind == N_DEF) { have = true; mx = std::max(mx, nodes[x].y); } } if (!have) return c;
      u32 lv = 0; bool nl = false; for (size_t i = m.size(); i--;) { if (!(m[i] >> 31)) break; nl = true; const u32 *p; u32 k = monoNodes(m[i], p); for (u32 j = 0; j < k; j++) lv = std::max(lv, atomLevel(p[j])); } if (!nl || mx <= lv) return c;
      std::vector<u32> r; for (u32 x : m) { if (!(x >> 31) && nodes[x].kind == N_DEF && nodes[x].y == mx) { const Node &d = nodes[nodes[x].x]; r.insert(r.end(), pool.begin() + d.x, pool.begin() + d.x + d.y); } else r.push_back(x); }
      std::sort(r.begin(), r.end()); size_t o = 0; for (size_t i = 0; i < r.size();) { size_t j = i; while (j < r.size() && r[j] == r[i]) j++; if ((j - i) & 1) r[o++] = r[i]; i = j; } r.resize(o); m.swap(r); }
    return c; }

  const std::vector<Lit> *orItems(Lit l) const { // decomposition of an OR-shaped literal
    auto it = orDec.find(l); if (it != orDec.end()) return &it->second;
    return nullptr; }
  bool isOrAtom(u32 nd) const { return nodes[nd].kind == N_OR; }

  std::unordered_map<u64, Lit> andMemo;
  Lit And(Lit a, Lit b) { if (!exactOr || a < 2 || b < 2 || (u64)monoCountOf(a >> 1) * monoCountOf(b >> 1) < 3) return And1(a, b); if (a > b) std::swap(a, b); u64 key = ((u64)a << 32) | b; auto it = andMemo.find(key); if (it != andMemo.end()) return it->second; Lit r = And1(a, b); andMemo[key] = r; return r; }
  Lit And1(Lit a, Lit b) {
    if (a == L0 || b == L0) return L0; if (a == L1) return b; if (b == L1) return a;
    if (a == b) return a; if (a == (b ^ 1)) return L0;
    // complement of OR-sets: De Morgan keeps comparison results flat
    if ((a & 1) && (b & 1) && (isOrAtom(a >> 1) || isOrAtom(b >> 1)) && orItems(a ^ 1) && orItems(b ^ 1)) return Or(a ^ 1, b ^ 1) ^ 1;
    u32 na = a >> 1, nb = b >> 1; size_t ca = monoCountOf(na), cb = monoCountOf(nb);
    if (ca * cb > 24) { Lit r; if (andTable(a, b, r)) return r; }
    if (ca * cb > maxMono) {
      if (a > b) std::swap(a, b);
      u64 key = ((u64)a << 32) | b; auto it = andOpq.find(key); if (it != andOpq.end()) return it->second << 1;
      u32 nd = newNode(N_AND, a, b, label(a) | label(b)); andOpq[key] = nd; return nd << 1; }
    std::vector<u32> A, B, R; getMonos(na, A); getMonos(nb, B); R.reserve(ca * cb + ca + cb);
    for (u32 x : A) for (u32 y : B) R.push_back(mulMono(x, y));
    if (a & 1) R.insert(R.end(), B.begin(), B.end());
    if (b & 1) R.insert(R.end(), A.begin(), A.end());
    std::sort(R.begin(), R.end()); size_t o = 0;
    for (size_t i = 0; i < R.size();) { size_t j = i; while (j < R.size() && R[j] == R[i]) j++; if ((j - i) & 1) R[o++] = R[i]; i = j; }
    R.resize(o);
    return mkSum(R) ^ ((a & 1) & (b & 1)); }

  // products over at most 8 atoms by truth table
  struct Tab { u32 mono[256]; }; std::map<std::vector<u32>, Tab *> tabs;
  static void moebius(u64 *t) { static const u64 M[6] = {0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0x00000000ffffffffull}; for (int w = 0; w < 4; w++) for (int i = 0; i < 6; i++) t[w] ^= (t[w] & M[i]) << (1 << i); t[1] ^= t[0]; t[3] ^= t[2]; t[2] ^= t[0]; t[3] ^= t[1]; }
  bool andTable(Lit a, Lit b, Lit &res) {
    u32 at[8]; unsigned n = 0; auto scan = [&](u32 nd) -> bool { const Node &x = nodes[nd]; if (x.kind != N_SUM) { for (unsigned q = 0; q < n; q++) if (at[q] == nd) return true; if (n == 8) return false; at[n++] = nd; return true; } for (u32 i = 0; i < x.y; i++) { const u32 *p; u32 k = monoNodes(pool[x.x + i], p); for (u32 j = 0; j < k; j++) { bool f = false; for (unsigned q = 0; q < n; q++) if (at[q] == p[j]) { f = true; break; } if (!f) { if (n == 8) return false; at[n++] = p[j]; } } } return true; };
    if (!scan(a >> 1) || !scan(b >> 1)) return false; std::sort(at, at + n);
    auto build = [&](Lit l, u64 *t) { t[0] = t[1] = t[2] = t[3] = 0; const Node &x = nodes[l >> 1]; u32 self = l >> 1; u32 cnt = x.kind == N_SUM ? x.y : 1; for (u32 i = 0; i < cnt; i++) { const u32 *p; u32 k = monoNodes(x.kind == N_SUM ? pool[x.x + i] : self, p); unsigned m = 0; for (u32 j = 0; j < k; j++) for (unsigned q = 0; q < n; q++) if (at[q] == p[j]) { m |= 1u << q; break; } t[m >> 6] ^= 1ull << (m & 63); } if (l & 1) t[0] ^= 1; moebius(t); };
    u64 ta_[4], tb_[4]; build(a, ta_); build(b, tb_); for (int i = 0; i < 4; i++) ta_[i] &= tb_[i]; if (n < 8) { for (unsigned i = 1u << n; i < 256; i++) ta_[i >> 6] &= ~(1ull << (i & 63)); } moebius(ta_);
    if (n < 8) for (unsigned i = 1u << n; i < 256; i++) ta_[i >> 6] &= ~(1ull << (i & 63));
    std::vector<u32> key(at, at + n); Tab *&T = tabs[key]; if (!T) { T = new Tab; memset(T, 0, sizeof(Tab)); }
    std::vector<u32> R; R.reserve(256); u32 c = ta_[0] & 1; for (unsigned m = 1; m < (1u << n); m++) if (ta_[m >> 6] >> (m & 63) & 1) { u32 &id = T->mono[m]; if (!id) { u32 v[8]; u32 k = 0; for (unsigned q = 0; q < n; q++) if (m >> q & 1) v[k++] = at[q]; id = mkMono(v, k); } R.push_back(id); }
    std::sort(R.begin(), R.end()); res = mkSum(R) ^ c; return true; }

  // number of distinct atoms, stops above lim
  size_t support(Lit l, std::vector<u32> &s, size_t lim) const {
    u32 nd = l >> 1; const Node &n = nodes[nd];
    auto add = [&](u32 x) { if (std::find(s.begin(), s.end(), x) == s.end()) s.push_back(x); };
    if (n.kind == N_CONST) return s.size();
    if (n.kind != N_SUM) { add(nd); return s.size(); }
    for (u32 i = 0; i < n.y; i++) { const u32 *p; u32 c = monoNodes(pool[n.x + i], p); for (u32 j = 0; j < c; j++) add(p[j]); if (s.size() > lim) return s.size(); }
    return s.size(); }

  Lit Or(Lit a, Lit b) {
    if (a == L1 || b == L1) return L1; if (a == L0) return b; if (b == L0) return a;
    if (a == b) return a; if (a == (b ^ 1)) return L1;
    if (nodes[a >> 1].kind == N_SUM || nodes[b >> 1].kind == N_SUM) { Lit x = Xor(a, b); // a|b = a|(a^b): the shorter of the two
      size_t ca = monoCountOf(a >> 1), cb = monoCountOf(b >> 1), cx = monoCountOf(x >> 1); if (cx < std::max(ca, cb) && (orItems(x) || isOrAtom(x >> 1))) return ca < cb ? Or(a, x) : Or(b, x); }
    auto items = [&](Lit l, std::vector<Lit> &o) { auto *p = orItems(l); if (p) o.insert(o.end(), p->begin(), p->end()); else o.push_back(l); };
    std::vector<u32> s; support(a, s, 6); support(b, s, 6);
    std::vector<Lit> it;
    if (s.size() <= 6 && !((isOrAtom(a >> 1) && !(a & 1)) || (isOrAtom(b >> 1) && !(b & 1)))) {
      Lit r = Xor(Xor(a, b), And(a, b));
      if (r > 1) { items(a, it); items(b, it); norm(it); if (it.size() > 1) orDec.emplace(r, it); }
      return r; }
    if ((u64)monoCountOf(a >> 1) * monoCountOf(b >> 1) <= 4096 && !(isOrAtom(a >> 1) && isOrAtom(b >> 1) && !(a & 1) && !(b & 1))) {
      Lit p = And(a, b); if (p == L0) return Xor(a, b); }
    if (exactOr && (u64)monoCountOf(a >> 1) * monoCountOf(b >> 1) <= 16384 && !isOrAtom(a >> 1) && !isOrAtom(b >> 1)) return Xor(Xor(a, b), And(a, b));
    items(a, it); items(b, it); norm(it);
    for (size_t i = 0; i + 1 < it.size(); i++) if ((it[i] ^ 1) == it[i + 1]) return L1;
    return orSet(it); }
  static void norm(std::vector<Lit> &v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
  Lit orSet(const std::vector<Lit> &it) {
    if (it.empty()) return L0; if (it.size() == 1) return it[0];
    bool allneg = true; for (Lit l : it) if (!(l & 1) || nodes[l >> 1].kind == N_SUM || nodes[l >> 1].kind == N_OR) { allneg = false; break; }
    if (allneg) { std::vector<u32> m; for (Lit l : it) m.push_back(l >> 1); std::sort(m.begin(), m.end()); u32 mo = mkMono(m.data(), (u32)m.size()); Lit r = mkSum({mo}) ^ 1; orDec.emplace(r, it); return r; }
    auto f = orTab.find(it); if (f != orTab.end()) return f->second << 1;
    u64 lab = 0; for (Lit l : it) lab |= label(l);
    u32 nd = newNode(N_OR, 0, 0, lab); orTab.emplace(it, nd); orDec.emplace(nd << 1, it); return nd << 1; }
  Lit orAll(const std::vector<Lit> &v) { // canonical irrespective of order
    std::vector<Lit> it; for (Lit l : v) { if (l == L1) return L1; if (l == L0) continue; auto *p = orItems(l); if (p) it.insert(it.end(), p->begin(), p->end()); else it.push_back(l); }
    norm(it); for (size_t i = 0; i + 1 < it.size(); i++) if ((it[i] ^ 1) == it[i + 1]) return L1;
    std::vector<u32> s; for (Lit l : it) { support(l, s, 6); if (s.size() > 6) break; }
    if (s.size() <= 6) { Lit r = L0; for (Lit l : it) r = Or(r, l); return r; }
    if (exactOr) { std::vector<Lit> o = it; std::stable_sort(o.begin(), o.end(), [&](Lit a, Lit b) { return monoCountOf(a >> 1) < monoCountOf(b >> 1); }); Lit acc = L1; bool ok = true;
      for (Lit l : o) { if (isOrAtom(l >> 1) || (u64)(monoCountOf(acc >> 1) + 1) * (monoCountOf(l >> 1) + 1) > 65536) { ok = false; break; } acc = And(acc, l ^ 1); if (monoCountOf(acc >> 1) > 600) { ok = false; break; } } if (ok) return acc ^ 1; }
    // pairwise-built small ORs keep the same item set, so the flat set is the normal form
    return orSet(it); }
  Lit Ite(Lit c, Lit t, Lit e) {
    if (c == L1) return t; if (c == L0) return e; if (t == e) return t;
    if (t == L1 && e == L0) return c; if (t == L0 && e == L1) return c ^ 1;
    if (t == L1) return Or(c, e); if (e == L0) return And(c, t);
    return Xor(e, And(c, Xor(t, e))); }
  // ANF of a truth table over given atoms (Moebius transform)
  Lit fromTable(const std::vector<Lit> &vars, std::vector<u8> tt) {
    size_t n = vars.size(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < tt.size(); j++) if (j >> i & 1) tt[j] ^= tt[j ^ (1u << i)];
    bool atoms = true; for (Lit v : vars) if ((v & 1) || nodes[v >> 1].kind == N_SUM || v < 2) atoms = false;
    if (atoms) {
      std::vector<u32> R; u32 c = 0; std::vector<u32> m;
      for (size_t j = 0; j < tt.size(); j++) if (tt[j]) { if (!j) { c = 1; continue; } m.clear(); for (size_t i = 0; i < n; i++) if (j >> i & 1) m.push_back(vars[i] >> 1); std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); R.push_back(mkMono(m.data(), (u32)m.size())); }
      std::sort(R.begin(), R.end()); size_t o = 0; for (size_t i = 0; i < R.size();) { size_t k = i; while (k < R.size() && R[k] == R[i]) k++; if ((k - i) & 1) R[o++] = R[i]; i = k; } R.resize(o);
      return mkSum(R) ^ c; }
    Lit r = L0;
    for (size_t j = 0; j < tt.size(); j++) if (tt[j]) { Lit p = L1; for (size_t i = 0; i < n; i++) if (j >> i & 1) p = And(p, vars[i]); r = Xor(r, p); }
    return r; }
};
extern BitStore BS;

// ---- word polynomial layer ------------------------------------------------
enum PAKind : u8 { PA_BIT, PA_BV, PA_SEC };
struct PAtom { u8 kind, nb; u32 x; u64 label; };
struct Term { u64 key, c; };
struct BitsObj { u32 rc; u8 n; Lit b[64]; };
struct Poly {
  u32 rc = 0; u64 c0 = 0; u64 label_ = 0; bool quad = false, labOk = false;
  std::vector<Term> t;
  BitsObj *bits = nullptr; u8 bitsK = 0;      // cached conversion
  ~Poly() { if (bits && --bits->rc == 0) free(bits); }
};
static inline BitsObj *newBits(unsigned n) { BitsObj *o = (BitsObj *)malloc(offsetof(BitsObj, b) + sizeof(Lit) * (n < 1 ? 1 : n)); o->rc = 0; o->n = (u8)n; return o; }

struct PolyStore {
  std::vector<PAtom> atoms; // index 0 unused
  std::vector<Lit> lpool;
  std::unordered_map<u32, u32> bitAtom;                       // node -> atom
  struct VH { size_t operator()(const std::vector<u32> &v) const { return BitStore::hvec(v.data(), v.size()); } };
  std::unordered_map<std::vector<u32>, u32, VH> bvAtom, secAtom;
  std::vector<std::vector<Term>> secDef;                       // SEC id -> linear terms (integer coefs)
  struct Word { u8 M; u32 base; u64 c0; u64 h; std::vector<Term> t; };
  std::vector<Word> words; std::unordered_multimap<u64, u32> wordTab;
  std::vector<unsigned> classes = {10, 13, 16, 32, 64};
  bool smallFns = false; // short functions of few bits are rewritten to an equal named bit
  int secMU = 0; bool secU = false; // secret pattern to fold
  size_t maxTerms = 400000;
  std::unordered_map<u64, u32> truncCache;
  size_t nMul = 0, nAdd = 0;
  PolyStore() { atoms.push_back({PA_BIT, 0, 0, 0}); }
  void setClasses(int ep, int eq) { std::set<unsigned> s{(unsigned)ep, (unsigned)eq, 16, 32, 64}; classes.assign(s.begin(), s.end()); }

  u32 mkBitAtom(u32 node) { auto it = bitAtom.find(node); if (it != bitAtom.end()) return it->second; u32 id = (u32)atoms.size(); atoms.push_back({PA_BIT, 1, node, BS.nodes[node].label}); bitAtom[node] = id; return id; }
  u32 mkBV(const Lit *l, unsigned n) {
    std::vector<u32> v(l, l + n); auto it = bvAtom.find(v); if (it != bvAtom.end()) return it->second;
    u64 lab = 0; for (Lit x : v) lab |= BS.label(x);
    u32 id = (u32)atoms.size(); u32 off = (u32)lpool.size(); lpool.insert(lpool.end(), v.begin(), v.end());
    atoms.push_back({PA_BV, (u8)n, off, lab}); bvAtom[v] = id; return id; }
  static Term lin(u32 a, u64 c) { return {a, c}; }

  void normTerms(std::vector<Term> &t, unsigned k) {
    std::sort(t.begin(), t.end(), [](const Term &a, const Term &b) { return a.key < b.key; });
    size_t o = 0; u64 m = maskn(k);
    for (size_t i = 0; i < t.size();) { u64 c = 0; size_t j = i; while (j < t.size() && t[j].key == t[i].key) c += t[j++].c; c &= m; if (c) t[o++] = {t[i].key, c}; i = j; }
    t.resize(o); }
  void finish(Poly *p, unsigned k) {
    bool q = false; for (auto &x : p->t) if (x.key >> 32) { q = true; break; }
    p->labOk = false; p->quad = q; p->c0 &= maskn(k); }
  u64 lab(const Poly *p_) { Poly *p = const_cast<Poly *>(p_); if (p->labOk) return p->label_;
    u64 l = 0; for (auto &x : p->t) { l |= atoms[(u32)x.key].label; if (x.key >> 32) l |= atoms[x.key >> 32].label; } p->label_ = l; p->labOk = true; return l; }

  // canonical polynomial of a bit vector of width w
  Poly *ofBits(const Lit *b, unsigned w) {
    Poly *p = new Poly; unsigned top = w; // detect sign extension run
    unsigned i = 0;
    unsigned rep = w; if (w >= 2 && b[w - 1] > 1) { while (rep > 1 && b[rep - 2] == b[w - 1]) rep--; } // bits rep-1..w-1 all equal
    if (w >= 2 && b[w - 1] > 1 && rep < w) { top = rep; Lit s = b[w - 1]; u64 c = maskn(w) & ~maskn(rep); // sum of 2^rep..2^(w-1)
      addLit(p, s, c); }
    while (i < top) {
      if (b[i] < 2) { if (b[i] == L1) p->c0 += 1ull << i; i++; continue; }
      unsigned j = i; while (j < top && b[j] > 1 && !(j > i && b[j] == b[j - 1])) j++;
      if (j - i >= 5) {
        bool done = false;
        const Node &n0 = BS.nodes[b[i] >> 1];
        (void)n0;
        if (!done) p->t.push_back(lin(mkBV(b + i, j - i), 1ull << i));
      } else for (unsigned q = i; q < j; q++) addLit(p, b[q], 1ull << q);
      i = j; }
    normTerms(p->t, w); finish(p, w); foldSec(p, w); return p; }
  void addLit(Poly *p, Lit l, u64 c) { if (l < 2) { if (l) p->c0 += c; return; } u32 a = mkBitAtom(l >> 1); if (l & 1) { p->c0 += c; p->t.push_back(lin(a, 0 - c)); } else p->t.push_back(lin(a, c)); }

  // if bits are exactly the low n bits of one interned polynomial word, return that word id
  int wholeWord(const Lit *b, unsigned n) {
    if (!n || b[n - 1] < 2 || (b[n - 1] & 1)) return -1; const Node &t = BS.nodes[b[n - 1] >> 1]; if (t.kind != N_WB || t.y != n - 1) return -1;
    u32 id = t.x; if (words[id].M < n) return -1;
    for (unsigned i = 0; i + 1 < n; i++) { if (b[i] < 2) return -1; const Node &x = BS.nodes[b[i] >> 1]; if (x.kind != N_WB || (b[i] & 1) || x.y != i) return -1; if (x.x != id) { u32 r = reduceWord(id, words[x.x].M); if (r != x.x) return -1; } }
    return (int)id; }
  u32 reduceWord(u32 id, unsigned M) { if (words[id].M == M) return id; if (words[id].M < M) return ~0u; u64 key = ((u64)id << 8) | M; auto it = truncCache.find(key); if (it != truncCache.end()) return it->second;
    Poly p; p.c0 = words[id].c0; p.t = words[id].t; u32 r = internWord(&p, M); truncCache[key] = r; return r; }

  bool foldSec(Poly *p, unsigned k) { // recognise a sampled secret coefficient
    if (!secMU && !secU) return false;
    if (p->quad || p->c0) return false; u64 m = maskn(k);
    if (secU) { if (p->t.size() != 2 || k < 3) return false; }
    else if ((int)p->t.size() != secMU) return false;
    int pos = 0, neg = 0, two = 0, ntwo = 0;
    for (auto &x : p->t) { if (atoms[(u32)x.key].kind != PA_BIT) return false; if (x.c == 1) pos++; else if (x.c == m) neg++; else if (secU && x.c == 2) two++; else if (secU && x.c == (m - 1)) ntwo++; else return false; }
    bool flip = false;
    if (secU) { if (pos == 1 && ntwo == 1) flip = false; else if (neg == 1 && two == 1) flip = true; else return false; }
    else { if (pos != secMU / 2 || neg != secMU / 2) return false; flip = p->t[0].c != 1; }
    std::vector<u32> key; std::vector<Term> def;
    for (auto &x : p->t) { i64 c = x.c <= 2 ? (i64)x.c : -(i64)((m - x.c) + 1); if (flip) c = -c; key.push_back((u32)x.key); key.push_back((u32)c); def.push_back({x.key, (u64)c}); }
    u32 id; auto it = secAtom.find(key);
    if (it != secAtom.end()) id = it->second; else { id = (u32)atoms.size(); atoms.push_back({PA_SEC, 64, (u32)secDef.size(), lab(p)}); secDef.push_back(def); secAtom[key] = id; }
    p->t.assign(1, lin(id, flip ? m : 1)); return true; }

  Poly *addMul(const Poly *a, u64 ca, const Poly *b, u64 cb, unsigned k) {
    nAdd++; Poly *p = new Poly; u64 m = maskn(k); size_t na = a->t.size(), nb = b->t.size();
    static std::vector<Term> buf; if (buf.size() < na + nb) buf.resize(2 * (na + nb));
    const Term *x = a->t.data(), *xe = x + na, *y = b->t.data(), *ye = y + nb; Term *o = buf.data(); u64 anyq = 0;
    while (x != xe && y != ye) { u64 kx = x->key, ky = y->key, key = kx < ky ? kx : ky; u64 c = (kx <= ky ? x->c * ca : 0) + (ky <= kx ? y->c * cb : 0); x += kx <= ky; y += ky <= kx; c &= m; o->key = key; o->c = c; u64 keep = c != 0; anyq |= keep ? key >> 32 : 0; o += keep; }
    for (; x != xe; ++x) { u64 c = (x->c * ca) & m; if (c) { *o++ = {x->key, c}; anyq |= x->key >> 32; } }
    for (; y != ye; ++y) { u64 c = (y->c * cb) & m; if (c) { *o++ = {y->key, c}; anyq |= y->key >> 32; } }
    bool q = anyq != 0; p->t.assign(buf.data(), o);
    p->quad = q; p->c0 = (a->c0 * ca + b->c0 * cb) & m;
    if (p->t.size() > maxTerms) throw AnalysisAbort{"polynomial too large"};
    foldSec(p, k); if (!wordFold.empty()) foldWord(p, k);
    return p; }
  // words that the specification names: the polynomial is replaced by the named bits
  struct VH64 { size_t operator()(const std::vector<u64> &v) const { u64 h = v.size(); for (u64 x : v) h = BitStore::hmix(h, x); return h; } }; std::unordered_map<std::vector<u64>, u32, VH64> wordFold; std::set<u32> wordNames;
  static std::vector<u64> wordKey(const Poly *p, unsigned k) { std::vector<u64> v{k, p->c0 & maskn(k)}; for (auto &x : p->t) { v.push_back(x.key); v.push_back(x.c & maskn(k)); } return v; }
  void foldWord(Poly *p, unsigned k) { if (p->t.empty() || p->t.size() > 400 || p->quad || (p->t.size() == 1 && p->c0 == 0)) return; auto it = wordFold.find(wordKey(p, k)); if (it == wordFold.end()) return; p->t.assign(1, lin(it->second, 1)); p->c0 = 0; p->labOk = false; }
  u32 nameWord(const Poly *p, unsigned k) { auto key = wordKey(p, k); auto it = wordFold.find(key); if (it != wordFold.end()) return it->second; u64 lb = lab(p); Lit l[64]; for (unsigned i = 0; i < k; i++) l[i] = BS.newNode(N_DEF, 0, 0, lb) << 1; u32 a = mkBV(l, k); wordFold[key] = a; return a; }
  Poly *mul(const Poly *a, const Poly *b, unsigned k) { // null if degree would exceed 2
    nMul++; u64 m = maskn(k);
    if ((a->quad && !b->t.empty()) || (b->quad && !a->t.empty())) return nullptr;
    Poly *p = new Poly; p->t.reserve(a->t.size() * b->t.size() + a->t.size() + b->t.size());
    for (auto &x : a->t) for (auto &y : b->t) {
      u32 u = (u32)x.key, v = (u32)y.key; u64 c = (x.c * y.c) & m; if (!c) continue;
      if (u == v && atoms[u].kind == PA_BIT) p->t.push_back({u, c}); else { if (u > v) std::swap(u, v); p->t.push_back({((u64)v << 32) | u, c}); } }
    if (b->c0) for (auto &x : a->t) p->t.push_back({x.key, x.c * b->c0});
    if (a->c0) for (auto &y : b->t) p->t.push_back({y.key, y.c * a->c0});
    p->c0 = (a->c0 * b->c0) & m; normTerms(p->t, k); finish(p, k); return p; }

  // bit-vector atoms whose value is, mod 2^nb, a known linear form
  struct LinDef { u64 c0; std::vector<Term> t; bool quad; };
  std::unordered_map<u32, LinDef> bvDef; std::unordered_map<u32, bool> bvSeen;
  void bvDefine(u32 a, u64 c0, const std::vector<Term> &t) { if (t.size() == 1 && t[0].key == a) return; if (!bvDef.count(a)) { bool q = false; for (auto &x : t) if (x.key >> 32) q = true; bvDef[a] = {c0, t, q}; } bvSeen[a] = true; }
  const LinDef *bvLin(u32 a) { if (atoms[a].kind != PA_BV) return nullptr; auto it = bvDef.find(a); if (it != bvDef.end()) return &it->second; if (bvSeen.count(a)) return nullptr; bvSeen[a] = true;
    int w = wholeWord(&lpool[atoms[a].x], atoms[a].nb); if (w < 0 || words[w].t.size() > 16) return nullptr; for (auto &x : words[w].t) if (x.key >> 32) return nullptr;
    bvDef[a] = {words[w].c0, words[w].t, false}; return &bvDef[a]; }
  // reduce mod 2^M: coefficients, bit-vector atoms longer than M bits, and bit-vector atoms naming a known word
  void truncTo(const Poly *s, unsigned M, u64 &c0, std::vector<Term> &out) {
    u64 m = maskn(M); c0 = s->c0 & m; out.clear(); out.reserve(s->t.size()); bool resort = false;
    auto lin1 = [&](u32 a, std::vector<Term> &o, u64 &c) -> bool { // expand atom a to a linear form
      c = 0; o.clear(); if (atoms[a].kind == PA_BV && atoms[a].nb >= M) { const LinDef *w = bvLin(a); if (w && !w->quad) { c = w->c0; for (auto &x : w->t) o.push_back({expT((u32)x.key, M), x.c}); return true; } if (atoms[a].nb > M) { o.push_back({mkBVt(a, M), 1}); return true; } } o.push_back({a, 1}); return false; };
    std::vector<Term> la, lb; u64 ca, cb;
    for (auto &x : s->t) { u64 c = x.c & m; if (!c) continue; u32 a = (u32)x.key, b = (u32)(x.key >> 32);
      if (!b && atoms[a].kind == PA_BV && atoms[a].nb >= M && !bvDef.empty()) { auto it = bvDef.find(a); if (it != bvDef.end() && it->second.quad) { Poly q; q.c0 = it->second.c0; q.t = it->second.t; u64 qc; std::vector<Term> qt; truncTo(&q, M, qc, qt); resort = true; c0 += c * qc; for (auto &z : qt) out.push_back({z.key, z.c * c}); continue; } }
      bool ta = lin1(a, la, ca), tb = false; if (b) tb = lin1(b, lb, cb);
      if (!ta && !tb) { out.push_back({x.key, c}); continue; }
      resort = true;
      if (!b) { c0 += c * ca; for (auto &q : la) out.push_back({q.key, q.c * c}); continue; }
      c0 += c * ca * cb; if (ca) for (auto &q : lb) out.push_back({q.key, q.c * c * ca}); if (cb) for (auto &q : la) out.push_back({q.key, q.c * c * cb});
      for (auto &p : la) for (auto &q : lb) { u32 u = (u32)p.key, v = (u32)q.key; u64 cc = c * p.c * q.c; if (u == v && atoms[u].kind == PA_BIT) { out.push_back({u, cc}); continue; } if (u > v) std::swap(u, v); out.push_back({((u64)v << 32) | u, cc}); } }
    c0 &= m; if (resort) normTerms(out, M); }
  u32 expT(u32 a, unsigned M) { if (atoms[a].kind == PA_BV && atoms[a].nb > M) return mkBVt(a, M); return a; }
  // signed range of a linear polynomial whose coefficients are read as signed k-bit integers
  bool fitsSigned(const Poly *p, unsigned k) { if (p->quad || k > 62) return false; __int128 lo, hi; auto sg = [&](u64 c) -> i64 { return (i64)(c << (64 - k)) >> (64 - k); }; lo = hi = sg(p->c0 & maskn(k)); for (auto &x : p->t) { i64 c = sg(x.c); const PAtom &a = atoms[(u32)x.key]; __int128 mn = 0, mx = 0; if (a.kind == PA_SEC) { for (auto &d : secDef[a.x]) { i64 q = (i64)d.c; if (q > 0) mx += q; else mn += q; } } else { if (a.nb > 40) return false; mx = (__int128)maskn(a.nb); } __int128 u = c * mn, v = c * mx; if (u > v) std::swap(u, v); lo += u; hi += v; } return lo >= -((__int128)1 << (k - 1)) && hi < ((__int128)1 << (k - 1)); }
  Poly *signedLift(const Poly *p, unsigned k, unsigned w) { Poly *r = new Poly; auto sg = [&](u64 c) -> u64 { return (u64)((i64)(c << (64 - k)) >> (64 - k)) & maskn(w); }; r->c0 = sg(p->c0 & maskn(k)); for (auto &x : p->t) r->t.push_back({x.key, sg(x.c)}); finish(r, w); foldSec(r, w); return r; }
  u32 mkBVt(u32 a, unsigned M) { std::vector<Lit> l(lpool.begin() + atoms[a].x, lpool.begin() + atoms[a].x + M); return mkBV(l.data(), M); }
  u32 internWord(const Poly *s, unsigned M) { std::vector<Term> t; u64 c0; truncTo(s, M, c0, t); return internTrunc(t, c0, M); }
  u32 internTrunc(std::vector<Term> &t, u64 c0, unsigned M) {
    u64 h = BitStore::hmix(c0, M); for (auto &x : t) { h = BitStore::hmix(h, x.key); h = BitStore::hmix(h, x.c); }
    auto r = wordTab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) { Word &w = words[it->second]; if (w.M == M && w.c0 == c0 && w.t.size() == t.size() && !memcmp(w.t.data(), t.data(), t.size() * sizeof(Term))) return it->second; }
    u64 lab = 0; for (auto &x : t) { lab |= atoms[(u32)x.key].label; if (x.key >> 32) lab |= atoms[x.key >> 32].label; }
    u32 id = (u32)words.size(); words.push_back({(u8)M, 0, c0, h, std::move(t)}); wordTab.emplace(h, id);
    u32 base = BS.block(N_WB, id, M, lab); words[id].base = base; return id; }

  // max value if every coefficient is taken as a non-negative integer; ~0 if unbounded/overflow
  u64 maxVal(const Poly *p) { unsigned __int128 s = p->c0; for (auto &x : p->t) { if (x.key >> 32) return ~0ull; const PAtom &a = atoms[(u32)x.key]; if (a.kind == PA_SEC) return ~0ull; unsigned __int128 mv = (unsigned __int128)x.c * maskn(a.nb); s += mv; if (s >> 63) return ~0ull; } return (u64)s; }

  // all bits 0..k-1 of the polynomial value mod 2^k
  BitsObj *toBits(Poly *p, unsigned k) {
    if (p->bits && p->bitsK == k) return p->bits;
    BitsObj *o = newBits(k); toBitsRaw(p, k, o->b);
    if (p->bits && --p->bits->rc == 0) free(p->bits);
    o->rc = 1; p->bits = o; p->bitsK = (u8)k; return o; }
  void toBitsRaw(Poly *p, unsigned k, Lit *o) {
    if (p->t.empty()) { for (unsigned i = 0; i < k; i++) o[i] = (p->c0 >> i) & 1; return; }
    if (!p->quad && p->t.size() <= 64 && digits(p, k, o)) return; // atoms in separate digits: their own bits
    // the name of bit i depends only on the polynomial modulo the modulus class of i
    unsigned done = 0; Lit tmp[64];
    for (unsigned c : classes) { if (done >= k) break; unsigned M = c > k ? k : c; if (M <= done) continue;
      Poly q; truncTo(p, M, q.c0, q.t); finish(&q, M);
      if (!structural(&q, M, tmp)) { u32 id = internTrunc(q.t, q.c0, M); for (unsigned i = 0; i < M; i++) tmp[i] = (words[id].base + i) << 1; }
      for (unsigned i = done; i < M; i++) o[i] = tmp[i];
      done = M; } }
  bool digits(const Poly *p, unsigned k, Lit *o) {
    u64 m = maskn(k), occ = p->c0 & m;
    for (auto &x : p->t) { const PAtom &a = atoms[(u32)x.key]; u64 c = x.c & m; if (!c) continue; if (a.kind == PA_SEC || (a.kind != PA_BIT && (c & (c - 1)))) return false; u64 r = a.kind == PA_BIT ? c : (maskn(a.nb) << __builtin_ctzll(c)) & m; if (occ & r) return false; occ |= r; }
    for (unsigned i = 0; i < k; i++) o[i] = (p->c0 >> i) & 1;
    for (auto &x : p->t) { const PAtom &a = atoms[(u32)x.key]; u64 c = x.c & m; if (!c) continue; if (a.kind == PA_BIT) { for (; c; c &= c - 1) o[__builtin_ctzll(c)] = a.x << 1; continue; } unsigned s = __builtin_ctzll(c); for (unsigned i = 0; i < a.nb && s + i < k; i++) o[s + i] = lpool[a.x + i]; }
    return true; }
  bool structural(Poly *p, unsigned k, Lit *o) {
    u64 m = maskn(k);
    if (p->t.empty()) { for (unsigned i = 0; i < k; i++) o[i] = (p->c0 >> i) & 1; return true; }
    if (!p->quad && p->t.size() <= 64) {
      if (digits(p, k, o)) return true; // (1) disjoint digits
      // (1b) one-bit atoms acting on separate windows
      { bool ob = p->t.size() <= 64; for (auto &x : p->t) if (atoms[(u32)x.key].kind != PA_BIT) { ob = false; break; }
        if (ob) { struct W1 { u32 node; u64 c; }; std::vector<W1> a; for (auto &x : p->t) { u64 c = x.c & m; if (c) a.push_back({atoms[(u32)x.key].x, c}); } std::sort(a.begin(), a.end(), [](const W1 &x, const W1 &y) { unsigned i = __builtin_ctzll(x.c), j = __builtin_ctzll(y.c); return i != j ? i < j : x.node < y.node; });
          u64 c0 = p->c0 & m; bool good = true; Lit tmp[64]; unsigned pos = 0; for (size_t i = 0; i <= a.size() && good; i++) { unsigned nx = i < a.size() ? __builtin_ctzll(a[i].c) : k; if (i == 0) { for (; pos < nx; pos++) tmp[pos] = (c0 >> pos) & 1; continue; }
            if (nx <= pos && i < a.size()) { good = false; break; } u64 v0 = c0, v1 = (c0 + a[i - 1].c) & m; for (; pos < nx; pos++) { unsigned b0 = (v0 >> pos) & 1, b1 = (v1 >> pos) & 1; tmp[pos] = b0 == b1 ? b0 : ((a[i - 1].node << 1) | b0); } if (nx < k && (v0 >> nx) != (v1 >> nx)) good = false; }
          if (good) { memcpy(o, tmp, k * sizeof(Lit)); return true; } } }
      // (2) one word +- constant: ripple
      if (p->t.size() == 1) { const PAtom &a = atoms[(u32)p->t[0].key]; u64 c = p->t[0].c & m; u64 c0 = p->c0 & m;
        if (a.kind == PA_BV) {
          u64 nc = (0 - c) & m; Lit x[64]; for (unsigned i = 0; i < k; i++) x[i] = L0;
          if (!(c & (c - 1)) && (c0 == m || !(c0 & (c0 - 1)))) { unsigned s = __builtin_ctzll(c); for (unsigned i = 0; i < a.nb && s + i < k; i++) x[s + i] = lpool[a.x + i];
            if (c0 == m) { Lit any = L0; std::vector<Lit> acc; for (unsigned i = 0; i < k; i++) { o[i] = BS.Xor(x[i], any ^ 1); acc.push_back(x[i]); any = BS.orAll(acc); } return true; }
            unsigned q = c0 ? __builtin_ctzll(c0) : 64; Lit cy = L0; for (unsigned i = 0; i < k; i++) { if (i == q) cy = L1; o[i] = BS.Xor(x[i], cy); cy = BS.And(x[i], cy); } return true; }
          if (!(nc & (nc - 1)) && (c0 == 0)) { unsigned s = __builtin_ctzll(nc); for (unsigned i = 0; i < a.nb && s + i < k; i++) x[s + i] = lpool[a.x + i];
            Lit any = L0; std::vector<Lit> acc; for (unsigned i = 0; i < k; i++) { o[i] = BS.Xor(x[i], any); acc.push_back(x[i]); any = BS.orAll(acc); } return true; }
          if (!(nc & (nc - 1)) && (c0 == m) && nc == 1) { for (unsigned i = 0; i < k; i++) o[i] = L1; for (unsigned i = 0; i < a.nb && i < k; i++) o[i] = lpool[a.x + i] ^ 1; return true; } } }
      // (2b) generator analyses: any short sum by ripple carry
      if (BS.exactOr && p->t.size() <= 9) { bool ok = true; for (auto &x : p->t) { u64 c = x.c & m, nc = (0 - c) & m; if (atoms[(u32)x.key].kind == PA_SEC || (__builtin_popcountll(c) > 2 && __builtin_popcountll(nc) > 1)) ok = false; }
        if (ok) { Lit acc[64]; for (unsigned i = 0; i < k; i++) acc[i] = (p->c0 >> i) & 1;
          auto addIn = [&](const PAtom &a, unsigned s, bool neg) { Lit cy = neg ? L1 : L0; for (unsigned i = 0; i < k; i++) { Lit y = i >= s && i - s < a.nb ? (a.kind == PA_BIT ? (a.x << 1) : lpool[a.x + i - s]) : L0; if (neg) y ^= 1; Lit xy = BS.Xor(acc[i], y), nc = BS.Xor(BS.And(acc[i], y), BS.And(xy, cy)); acc[i] = BS.Xor(xy, cy); cy = nc; } };
          for (auto &x : p->t) { const PAtom a = atoms[(u32)x.key]; u64 c = x.c & m, nc = (0 - c) & m; if (__builtin_popcountll(c) <= 2) { for (unsigned s = 0; s < k; s++) if (c >> s & 1) addIn(a, s, false); } else addIn(a, __builtin_ctzll(nc), true); }
          memcpy(o, acc, k * sizeof(Lit)); return true; } }
      // (3) few underlying bits: exact table
      std::vector<u32> vars; bool small = true; std::vector<std::pair<u32, u64>> lt;
      auto addv = [&](u32 node, u64 c) { if (std::find(vars.begin(), vars.end(), node) == vars.end()) vars.push_back(node); lt.push_back({node, c}); };
      for (auto &x : p->t) { const PAtom &a = atoms[(u32)x.key]; if (a.kind == PA_BIT) addv(a.x, x.c); else if (a.kind == PA_SEC) { for (auto &d : secDef[a.x]) addv(atoms[(u32)d.key].x, x.c * d.c); } else { small = false; break; } if (vars.size() > 6) { small = false; break; } }
      if (small) { size_t n = vars.size(); std::vector<u64> val(1u << n); for (size_t j = 0; j < val.size(); j++) { u64 v = p->c0; for (auto &q : lt) { size_t ix = std::find(vars.begin(), vars.end(), q.first) - vars.begin(); if (j >> ix & 1) v += q.second; } val[j] = v & m; }
        std::vector<Lit> vl; for (u32 v : vars) vl.push_back(v << 1); std::vector<u8> tt(val.size());
        for (unsigned i = 0; i < k; i++) { for (size_t j = 0; j < val.size(); j++) tt[j] = (val[j] >> i) & 1; o[i] = BS.fromTable(vl, tt); }
        return true; } }
    return false; }
};
extern PolyStore PS;
