static Params getParams() { Params P; P.L = argi("L", 3); P.MU = argi("mu", 8); P.ET = argi("et", 4); P.EP = argi("ep", 10); P.EQ = argi("eq", 13); P.u = argi("usaber", 0); P.s90 = argi("s90", 0); P.m0 = argi("m0", 0); PS.smallFns = P.m0; P.lanes = argi("lanes", 1); PS.setClasses(P.EP, P.EQ); if (P.u) PS.secU = true; else PS.secMU = P.MU; return P; }
struct Draws { std::vector<Bits> d; std::vector<std::string> where; };

// One API operation, analysed for every input; returns the names of static objects it writes.
static std::set<std::string> kemOnce(const Params &P, const std::string &op, const std::set<std::string> &hist, bool final) {
  Interp I(*MOD); I.histGlobals = hist; I.maxInst = (u64)argi("maxinst", 600) * 1000000ull; installPrims(I);
  static std::map<std::string, Bits> inputs; auto input = [&](const std::string &n, size_t b, u64 l) { auto it = inputs.find(n); if (it != inputs.end()) return it->second; return inputs[n] = mkInput(n, b, l); };
  Draws D; I.hooks["randombytes"] = [&](Interp &I, const CallBase *cb, std::vector<V> &a) -> V { if (a[1].kind != V_C) throw AnalysisAbort{"data-dependent random request length"}; size_t n = a[1].c, k = D.d.size(); if (k >= 24) throw AnalysisAbort{"too many random draws"}; unsigned lane = op == "keypair" ? (unsigned)k / 3 : (unsigned)k; Bits b = input("draw" + std::to_string(k), n, (LB_R0 << k) | (P.lanes > 1 && lane < 4 ? LB_LANE0 << lane : 0)); if (b.size() != 8 * n) throw AnalysisAbort{"random draw size varies"}; D.d.push_back(b); D.where.push_back(I.where(cb)); I.writeBits(a[0], b); if (cb->getType()->isVoidTy()) return V(); return mkC(0, cb->getType()->getIntegerBitWidth()); };
  const Function *f = MOD->getFunction("crypto_kem_" + op); if (!f || f->isDeclaration()) throw AnalysisAbort{"entry point crypto_kem_" + op + " not found"};
  unsigned n = P.lanes; u64 spk = constGlobal("vf_pk"), ssk = constGlobal("vf_sk"), sct = constGlobal("vf_ct"), sss = constGlobal("vf_ss");
  auto mk = [&](u8 kind, u64 size, const char *nm) { u32 o = I.newObj(kind, size, 1, nm, false); if (kind == O_OUT) I.meta[o].histLabel = LB_OLD; return o; };
  auto lane = [&](unsigned i) -> u64 { return n > 1 ? LB_LANE0 << i : 0; };
  auto nmL = [&](const char *s, unsigned i) { return n > 1 ? std::string(s) + "_lane" + std::to_string(i) : std::string(s); };
  bool sizesOk = spk == (u64)P.pkb() * n && ssk == (u64)P.skb() * n && sct == (u64)P.ctb() * n && sss == 32ull * n; RP.extra["sizes_match"] = sizesOk ? "true" : "false";
  RP.extra["sizes"] = "{\"pk\":" + std::to_string(spk) + ",\"sk\":" + std::to_string(ssk) + ",\"ct\":" + std::to_string(sct) + ",\"ss\":" + std::to_string(sss) + ",\"want_pk\":" + std::to_string(P.pkb() * n) + ",\"want_sk\":" + std::to_string(P.skb() * n) + ",\"want_ct\":" + std::to_string(P.ctb() * n) + "}";
  std::vector<std::pair<std::string, std::pair<u32, u64>>> outs; V r; std::map<u32, Bits> ins;
  auto putIn = [&](u32 o, const Bits &b) { I.initBits(o, 0, b); ins[o] = b; };
  if (op == "keypair") { u32 pk = mk(O_OUT, spk, "pk"), sk = mk(O_OUT, ssk, "sk"); r = I.call(f, {mkPtr(pk, 0, I.pw), mkPtr(sk, 0, I.pw)}); outs = {{"pk", {pk, spk}}, {"sk", {sk, ssk}}}; }
  else if (op == "enc") { u32 ct = mk(O_OUT, sct, "ct"), ss = mk(O_OUT, sss, "ss"), pk = mk(O_IN, spk, "pk"); Bits b; for (unsigned i = 0; i < n; i++) b = cat({b, input(nmL("pk", i), spk / n, LB_PK | lane(i))}); putIn(pk, b); r = I.call(f, {mkPtr(ct, 0, I.pw), mkPtr(ss, 0, I.pw), mkPtr(pk, 0, I.pw)}); outs = {{"ct", {ct, sct}}, {"ss", {ss, sss}}}; }
  else { u32 ss = mk(O_OUT, sss, "ss"), ct = mk(O_IN, sct, "ct"), sk = mk(O_IN, ssk, "sk"); Bits bc, bs; for (unsigned i = 0; i < n; i++) { bc = cat({bc, input(nmL("ct", i), sct / n, LB_CT | lane(i))}); size_t per = ssk / n, o1 = std::min<size_t>(P.L * P.EQ * 32, per), o2 = std::min<size_t>(o1 + P.pkb() + 32, per); bs = cat({bs, input(nmL("sk.s", i), o1, LB_SKS | lane(i)), input(nmL("sk.pk+hpk", i), o2 - o1, LB_SKP | lane(i)), input(nmL("sk.z", i), per - o2, LB_Z | lane(i))}); } putIn(ct, bc); putIn(sk, bs); r = I.call(f, {mkPtr(ss, 0, I.pw), mkPtr(ct, 0, I.pw), mkPtr(sk, 0, I.pw)}); outs = {{"ss", {ss, sss}}}; }
  if (!final) return I.writtenGlobals;
  harvest(I, ""); retZero(r, ("crypto_kem_" + op).c_str());
  for (auto &x : ins) { Bits now = I.objBits(x.first, 0, I.meta[x.first].size); if (now != x.second) RP.notes.push_back(js("input '" + I.meta[x.first].name + "' modified")); }
  // draws
  std::string ds = "["; for (size_t k = 0; k < D.d.size(); k++) ds += (k ? "," : "") + std::string("{\"bytes\":") + std::to_string(D.d[k].size() / 8) + ",\"where\":" + js(D.where[k]) + "}"; RP.extra["draws"] = ds + "]";
  std::map<std::string, Bits> outB; for (auto &o : outs) outB[o.first] = I.objBits(o.second.first, 0, o.second.second);
  // use of every random bit
  { Reach R; for (auto &o : outB) for (Lit l : o.second) R.go(l); std::string us = "["; for (size_t k = 0; k < D.d.size(); k++) { size_t used = 0; long first = -1; for (size_t i = 0; i < D.d[k].size(); i++) { if (R.ins.count(D.d[k][i] >> 1)) used++; else if (first < 0) first = i; } us += (k ? "," : "") + std::string("{\"used_bits\":") + std::to_string(used) + ",\"bits\":" + std::to_string(D.d[k].size()) + ",\"first_unused\":" + std::to_string(first) + "}"; } RP.extra["draw_use"] = us + "]"; }
  // regions per lane
  auto part = [&](const Bits &b, u64 tot, unsigned i) { return sub(b, tot / n * i, tot / n); };
  for (unsigned i = 0; i < n; i++) { if (op == "keypair") { Bits pk = part(outB["pk"], spk, i), sk = part(outB["sk"], ssk, i); region(nmL("pk", i), pk, P, "pk"); size_t o1 = std::min<size_t>(P.L * P.EQ * 32, sk.size() / 8), o2 = std::min<size_t>(o1 + P.pkb() + 32, sk.size() / 8); region(nmL("sk.s", i), sub(sk, 0, o1), P, "sks"); region(nmL("sk.pk+hpk", i), sub(sk, o1, o2 - o1), P, "skp"); region(nmL("sk.z", i), sub(sk, o2, sk.size() / 8 - o2), P, "z"); }
    else if (op == "enc") { Bits ct = part(outB["ct"], sct, i); size_t ob = std::min<size_t>(P.L * P.EP * 32, ct.size() / 8); region(nmL("ct.b", i), sub(ct, 0, ob), P, "ct"); region(nmL("ct.cm", i), sub(ct, ob, ct.size() / 8 - ob), P, "ct"); region(nmL("ss", i), part(outB["ss"], sss, i), P, "ss"); } else region(nmL("ss", i), part(outB["ss"], sss, i), P, "ss"); }
  // specification
  size_t need = op == "keypair" ? 3 : op == "enc" ? 1 : 0; bool drawsOk = D.d.size() == need * n; for (auto &d : D.d) if (d.size() != 256) drawsOk = false; RP.extra["draws_ok"] = drawsOk ? "true" : "false";
  if (!sizesOk) { RP.extra["spec"] = js("sizes differ from the specified layout"); return I.writtenGlobals; }
  if (!drawsOk) { RP.extra["spec"] = js("unexpected number or size of random draws"); return I.writtenGlobals; }
  for (unsigned i = 0; i < n; i++) {
    if (op == "keypair") { Bits pk, sk; specKeypair(P, D.d[3 * i], D.d[3 * i + 1], D.d[3 * i + 2], pk, sk); Bits gp = part(outB["pk"], spk, i), gs = part(outB["sk"], ssk, i); compare(nmL("pk", i), gp, pk); compare(nmL("sk", i), gs, sk); }
    else if (op == "enc") { Bits ct, ss; specEnc(P, input(nmL("pk", i), spk / n, 0), D.d[i], ct, ss); compare(nmL("ct", i), part(outB["ct"], sct, i), ct); compare(nmL("ss", i), part(outB["ss"], sss, i), ss); }
    else { Bits ss, fl; specDec(P, input(nmL("ct", i), 0, 0), cat({input(nmL("sk.s", i), 0, 0), input(nmL("sk.pk+hpk", i), 0, 0), input(nmL("sk.z", i), 0, 0)}), ss, &fl); compare(nmL("ss", i), part(outB["ss"], sss, i), ss); } }
  return I.writtenGlobals; }
static void modeKem() { Params P = getParams(); std::string op = arg("op"); std::set<std::string> hist;
  // static objects written by the operation hold arbitrary earlier contents on entry: repeat until the set is stable
  for (int it = 0; it < 4; it++) { RP = Report(); allEvents.clear(); evAll.clear(); totInst = totLoads = totStores = totCalls = 0; auto w = kemOnce(P, op, hist, true); bool grow = false; for (auto &g : w) if (hist.insert(g).second) grow = true; if (!grow) break; if (it == 3) throw AnalysisAbort{"set of written static objects does not stabilise"}; }
  std::vector<std::string> h; for (auto &x : hist) h.push_back(js(x)); RP.extra["hist_globals"] = jlist(h); RP.extra["notes"] = jlist(RP.notes); }
#include "units.h"
static void runMode(const std::string &m) { if (m == "kem") modeKem(); else if (m == "perm") modePerm(); else if (m == "sponge") modeSponge(); else if (m == "sha2") modeSha2(); else if (m == "aes") modeAes(); else if (m == "rng") modeRng(); else if (m == "hwrng") modeHwRng(); else if (m == "pack") modePack(); else if (m == "cbd") modeCbd(); else if (m == "mul") modeMul(); else throw AnalysisAbort{"unknown mode " + m}; RP.extra["missing"] = jlist(unitMissing); RP.extra["routines"] = jlist(unitDone); RP.extra["unit_notes"] = jlist(unitNotes); }
