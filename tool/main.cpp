// Analysis driver: runs the abstract interpreter on one entry point and prints a JSON report.
#include "spec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/Constants.h>
#include <llvm/Support/Path.h>
#include <chrono>
using namespace llvm;
static std::map<std::string, std::string> ARG;
static std::string arg(const char *k, const char *d = "") { auto it = ARG.find(k); return it == ARG.end() ? d : it->second; }
static int argi(const char *k, int d) { auto it = ARG.find(k); return it == ARG.end() ? d : atoi(it->second.c_str()); }
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o + "\""; }
static std::string labs(u64 l) { static const char *n[] = {"UNINIT", "HIST", "ENV", "OPQ", "ASM", "SKS", "SKP", "Z", "PK", "CT", "MSG", "AUX", "OLD", "STATE"}; std::string o = "["; auto add = [&](const std::string &s) { if (o.size() > 1) o += ","; o += js(s); }; for (int i = 0; i < 14; i++) if (l >> i & 1) add(n[i]); for (int i = 0; i < 24; i++) if (l >> (16 + i) & 1) add("R" + std::to_string(i)); for (int i = 0; i < 4; i++) if (l >> (44 + i) & 1) add("LANE" + std::to_string(i)); return o + "]"; }

struct Report { std::vector<std::string> mism, regions, notes, unwritten, uninit; std::string status = "ok", why; size_t bitsCompared = 0, bitsMismatch = 0, caseCount = 0; std::map<std::string, std::string> extra; } RP;
static Module *MOD; static std::vector<Event> allEvents; static std::map<std::string, size_t> evAll; static u64 totInst = 0, totLoads = 0, totStores = 0, totCalls = 0; static std::set<std::string> fnsAnalysed; static std::set<const void *> branchesSeen, instSites;
static std::set<std::string> globW;
static void harvest(Interp &I, const std::string &ctx) { for (auto &e : I.events) { std::string k = e.type + "|" + e.where + "|" + e.detail; auto it = evAll.find(k); if (it != evAll.end()) { allEvents[it->second].count += e.count; allEvents[it->second].label |= e.label; continue; } evAll[k] = allEvents.size(); Event x = e; x.fn = (ctx.empty() ? "" : ctx + ": ") + x.fn; allEvents.push_back(x); } totInst += I.nInst; totLoads += I.nLoads; totStores += I.nStores; totCalls += I.nCalls; for (auto *f : I.analysed) fnsAnalysed.insert(f->getName().str()); for (auto *b : I.condBranches) branchesSeen.insert(b); for (auto &g : I.writtenGlobals) globW.insert(g); }

static std::string litStr(Lit l, int depth = 2);
static std::string nodeStr(u32 n, int depth) { const Node &x = BS.nodes[n]; switch (x.kind) { case N_CONST: return "0"; case N_IN: return (x.x < BS.inNames.size() ? BS.inNames[x.x] : std::string("in")) + "[" + std::to_string(x.y / 8) + "]." + std::to_string(x.y % 8); case N_UNINIT: return "uninit" + std::to_string(x.x); case N_WB: { auto &w = PS.words[x.x]; return "bit" + std::to_string(x.y) + "(poly#" + std::to_string(x.x) + " mod 2^" + std::to_string(w.M) + ", " + std::to_string(w.t.size()) + " terms, const " + std::to_string(w.c0) + ")"; } case N_PRIM: { static const char *pn[] = {"?", "Keccak-f", "AES256", "SHA256", "SHA512", "SHA256blk", "SHA512blk"}; u32 k = PR.keys[x.x][0]; return std::string(k < 7 ? pn[k] : "?") + "#" + std::to_string(x.x) + "." + std::to_string(x.y); } case N_OPQ: return "unknown"; case N_OR: return "or-set"; case N_AND: return "and"; case N_DEF: return "def"; case N_SUM: { if (!depth) return "sum"; std::string s; u32 c = 0; for (u32 i = 0; i < x.y && c < 6; i++, c++) { const u32 *p; u32 k = BS.monoNodes(BS.pool[x.x + i], p); std::vector<u32> pp(p, p + k); std::string m; for (u32 j = 0; j < k && j < 4; j++) m += (j ? "&" : "") + nodeStr(pp[j], depth - 1); s += (i ? " ^ " : "") + m; } if (x.y > 6) s += " ^ ...(" + std::to_string(x.y) + " monomials)"; return s; } } return "?"; }
static std::string litStr(Lit l, int depth) { if (l < 2) return l ? "1" : "0"; return std::string((l & 1) ? "~(" : "") + nodeStr(l >> 1, depth) + ((l & 1) ? ")" : ""); }

// atoms a literal is built from directly (not through one-way primitives)
static void directAtoms(Lit l, std::set<u32> &out, std::set<u32> &seen) { std::vector<u32> st{l >> 1}; while (!st.empty()) { u32 n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; const Node &x = BS.nodes[n]; switch (x.kind) { case N_CONST: break; case N_SUM: for (u32 i = 0; i < x.y; i++) { const u32 *p; u32 k = BS.monoNodes(BS.pool[x.x + i], p); for (u32 j = 0; j < k; j++) st.push_back(p[j]); } break; case N_OR: { auto *it = BS.orItems(n << 1); if (it) for (Lit q : *it) st.push_back(q >> 1); break; } case N_AND: st.push_back(x.x >> 1); st.push_back(x.y >> 1); break; default: out.insert(n); } } }
// all input bits an output depends on, through everything
struct Reach { std::set<u32> ins; std::vector<char> seenN, seenW, seenP; void go(Lit l0) { std::vector<u32> st{l0 >> 1}; auto push = [&](u32 n) { st.push_back(n); }; while (!st.empty()) { u32 n = st.back(); st.pop_back(); if (seenN.size() <= n) seenN.resize(BS.nodes.size() + 1); if (seenN[n]) continue; seenN[n] = 1; const Node x = BS.nodes[n]; switch (x.kind) { case N_IN: ins.insert(n); break; case N_SUM: for (u32 i = 0; i < x.y; i++) { const u32 *p; u32 k = BS.monoNodes(BS.pool[x.x + i], p); for (u32 j = 0; j < k; j++) push(p[j]); } break; case N_OR: { auto *it = BS.orItems(n << 1); if (it) for (Lit q : *it) push(q >> 1); break; } case N_AND: push(x.x >> 1); push(x.y >> 1); break;
  case N_PRIM: { if (seenP.size() <= x.x) seenP.resize(PR.keys.size() + 1); if (!seenP[x.x]) { seenP[x.x] = 1; auto &k = PR.keys[x.x]; for (size_t i = 2; i < k.size(); i++) push(k[i] >> 1); } break; }
  case N_WB: { if (seenW.size() <= x.x) seenW.resize(PS.words.size() + 1); if (!seenW[x.x]) { seenW[x.x] = 1; for (auto &t : PS.words[x.x].t) for (u32 a : {(u32)t.key, (u32)(t.key >> 32)}) if (a) atom(a, st); } break; } default: break; } } }
  std::set<u32> seenA; void atom(u32 a, std::vector<u32> &st) { if (!seenA.insert(a).second) return; const PAtom &p = PS.atoms[a]; if (p.kind == PA_BIT) st.push_back(p.x); else if (p.kind == PA_BV) for (unsigned i = 0; i < p.nb; i++) st.push_back(PS.lpool[p.x + i] >> 1); else for (auto &t : PS.secDef[p.x]) atom((u32)t.key, st); } };

static Bits mkInput(const std::string &name, size_t bytes, u64 label) { u32 id = (u32)BS.inNames.size(); BS.inNames.push_back(name); u32 b = BS.block(N_IN, id, (u32)(8 * bytes), label); Bits o(8 * bytes); for (size_t i = 0; i < o.size(); i++) o[i] = (Lit)((b + i) << 1); return o; }

static void compare(const std::string &name, const Bits &got, const Bits &want, size_t maxRep = 3) { size_t rep = 0, mm = 0; if (got.size() != want.size()) { RP.mism.push_back("{\"region\":" + js(name) + ",\"byte\":0,\"bit\":0,\"n\":1,\"got\":\"length\",\"want\":\"length\",\"labels\":[]}"); RP.bitsMismatch++; return; }
  for (size_t i = 0; i < got.size(); i++) { RP.bitsCompared++; if (got[i] == want[i]) continue; mm++; RP.bitsMismatch++; if (rep++ < maxRep) RP.mism.push_back("{\"region\":" + js(name) + ",\"byte\":" + std::to_string(i / 8) + ",\"bit\":" + std::to_string(i % 8) + ",\"got\":" + js(litStr(got[i])) + ",\"want\":" + js(litStr(want[i])) + ",\"labels\":" + labs(BS.label(got[i])) + "}"); }
  if (mm > maxRep) RP.mism.push_back("{\"region\":" + js(name) + ",\"more\":" + std::to_string(mm - maxRep) + "}"); }

// region summary: labels, completeness, direct carriers
static void region(const std::string &name, const Bits &b, const Params &P, const std::string &kind) {
  u64 lab = 0; size_t old = 0, un = 0, hist = 0, env = 0, opq = 0; long firstOld = -1, firstUn = -1, firstHist = -1;
  for (size_t i = 0; i < b.size(); i++) { u64 l = BS.label(b[i]); lab |= l; if (l & LB_OLD) { old++; if (firstOld < 0) firstOld = i / 8; } if (l & LB_UNINIT) { un++; if (firstUn < 0) firstUn = i / 8; } if (l & LB_HIST) { hist++; if (firstHist < 0) firstHist = i / 8; } if (l & (LB_ENV | LB_ASM)) env++; if (l & LB_OPQ) opq++; }
  // direct carriers
  std::set<u32> at; std::set<u32> seen; std::map<std::string, std::pair<size_t, std::string>> carr; u64 dlab = 0;
  for (size_t i = 0; i < b.size(); i++) { at.clear(); seen.clear(); directAtoms(b[i], at, seen); for (u32 n : at) { const Node &x = BS.nodes[n]; std::string k; if (x.kind == N_IN) { k = "input:" + BS.inNames[x.x]; dlab |= x.label; } else if (x.kind == N_PRIM) k = "prim"; else if (x.kind == N_WB) { auto &w = PS.words[x.x]; bool q = false; for (auto &t : w.t) if (t.key >> 32) { q = true; break; } bool msgIn = false; for (auto &t : w.t) if (!(t.key >> 32)) msgIn = true; (void)msgIn; k = std::string(q ? "product" : "word") + ":mod" + std::to_string(w.M) + ":bit" + std::to_string(x.y); if (!q) dlab |= x.label; } else { k = x.kind == N_UNINIT ? "uninit" : "unknown"; dlab |= x.label; } auto &c = carr[k]; if (!c.first++) c.second = std::to_string(i / 8); } }
  std::string cs = "{"; for (auto &c : carr) cs += (cs.size() > 1 ? "," : "") + js(c.first) + ":{\"n\":" + std::to_string(c.second.first) + ",\"byte\":" + c.second.second + "}"; cs += "}";
  RP.regions.push_back("{\"name\":" + js(name) + ",\"bytes\":" + std::to_string(b.size() / 8) + ",\"labels\":" + labs(lab) + ",\"direct\":" + labs(dlab) + ",\"old\":" + std::to_string(old) + ",\"firstOld\":" + std::to_string(firstOld) + ",\"uninit\":" + std::to_string(un) + ",\"firstUninit\":" + std::to_string(firstUn) + ",\"hist\":" + std::to_string(hist) + ",\"firstHist\":" + std::to_string(firstHist) + ",\"env\":" + std::to_string(env) + ",\"opq\":" + std::to_string(opq) + ",\"carriers\":" + cs + "}"); }

// A primitive that was renamed is found by its file and parameters; P07-P09 decide the routine found, whatever its name.
static const Function *primFn(const std::string &n) {
  static std::map<std::string, const Function *> memo; auto it = memo.find(n); if (it != memo.end()) return it->second;
  const Function *f = MOD->getFunction(n);
  static const struct { const char *name, *file, *kinds; } K[] = {{"KeccakF1600_StatePermute", "fips202.c", "p"}, {"KeccakP1600times4_PermuteAll_24rounds", "KeccakP-1600-times4-SIMD256.c", "p"}, {"sha256", "sha256.c", "ppi"}, {"sha512", "sha512.c", "ppi"}, {"saber_aes256ctr_prf", "symmetric-aes.c", "pip"}};
  if (!f) for (auto &k : K) if (n == k.name) { size_t best = 0;
    for (auto &g : *MOD) { if (g.isDeclaration() || !g.getSubprogram() || g.arg_size() != strlen(k.kinds)) continue; if (sys::path::filename(g.getSubprogram()->getFilename()) != k.file) continue; bool ok = true; for (unsigned i = 0; ok && k.kinds[i]; i++) ok = g.getArg(i)->getType()->isPointerTy() == (k.kinds[i] == 'p'); if (!ok) continue;
      std::set<const Function *> seen; std::vector<const Function *> st{&g}; size_t size = 0; while (!st.empty()) { auto *h = st.back(); st.pop_back(); if (!seen.insert(h).second) continue; for (auto &bb : *h) for (auto &in : bb) { size++; if (auto *c = dyn_cast<CallBase>(&in)) if (c->getCalledFunction() && !c->getCalledFunction()->isDeclaration()) st.push_back(c->getCalledFunction()); } }
      bool callee = false; for (auto *u : g.users()) if (auto *c = dyn_cast<CallBase>(u)) callee |= c->getFunction()->arg_size() == 1 && strlen(k.kinds) == 1 && c->getFunction() != &g && c->getFunction()->getSubprogram() && c->getFunction()->getSubprogram()->getFilename() == g.getSubprogram()->getFilename(); if (callee) size /= 64; // a helper of the permutation, not the permutation
      if (size > best) { best = size; f = &g; } } }
  return memo[n] = f; }

// ---- summaries of primitives ------------------------------------------------
static bool useSum(Interp &I, const char *n) { return !I.noIntercept.count(n); }
static void installPrims(Interp &I) {
  I.primHook = [](Interp &I, const CallBase *cb, const Function *f, std::vector<V> &a, V &ret) -> bool {
    std::string nm = f->getName().str(); auto is = [&](const char *k) { return f == primFn(k) && useSum(I, k); };
    auto L = [&](const V &v) -> size_t { if (v.kind != V_C) throw AnalysisAbort{"data-dependent length passed to " + nm}; return (size_t)v.c; };
    if (is("KeccakF1600_StatePermute")) { Bits s = I.readBits(a[0], 200); I.writeBits(a[0], PR.apply(PR_KECCAK, s, 1600)); return true; }
    if (is("KeccakP1600times4_PermuteAll_24rounds")) { Bits s = I.readBits(a[0], 800); Bits o(6400); for (int l = 0; l < 4; l++) { Bits x(1600); for (int w = 0; w < 25; w++) for (int b = 0; b < 64; b++) x[64 * w + b] = s[(4 * w + l) * 64 + b]; Bits y = PR.apply(PR_KECCAK, x, 1600); for (int w = 0; w < 25; w++) for (int b = 0; b < 64; b++) o[(4 * w + l) * 64 + b] = y[64 * w + b]; } I.writeBits(a[0], o); return true; }
    if (is("sha256") && a.size() == 3) { size_t n = L(a[2]); Bits m = I.readBits(a[1], n); I.writeBits(a[0], PR.apply(PR_SHA256, m, 256)); if (!cb->getType()->isVoidTy()) ret = mkC(0, cb->getType()->getIntegerBitWidth()); return true; }
    if (is("sha512") && a.size() == 3) { size_t n = L(a[2]); Bits m = I.readBits(a[1], n); I.writeBits(a[0], PR.apply(PR_SHA512, m, 512)); if (!cb->getType()->isVoidTy()) ret = mkC(0, cb->getType()->getIntegerBitWidth()); return true; }
    if (nm == "SHA256" || nm == "SHA512") { size_t n = L(a[1]); Bits m = I.readBits(a[0], n); I.writeBits(a[2], PR.apply(nm == "SHA256" ? PR_SHA256 : PR_SHA512, m, nm == "SHA256" ? 256 : 512)); ret = a[2]; return true; }
    if (is("saber_aes256ctr_prf")) { size_t n = L(a[1]); Bits k = I.readBits(a[2], 32); I.writeBits(a[0], aesCtr(k, 0, 0, n)); if (!cb->getType()->isVoidTy()) ret = mkC(0, cb->getType()->getIntegerBitWidth()); return true; }
    return false; };
  auto env = [](Interp &I, const CallBase *cb, std::vector<V> &) -> V { if (cb->getType()->isVoidTy()) return V(); unsigned w = cb->getType()->getIntegerBitWidth(); u32 b = BS.block(N_OPQ, 99, w, LB_ENV); Lit l[64]; for (unsigned i = 0; i < w; i++) l[i] = (b + i) << 1; return mkBits(l, w); };
  for (auto n : {"cpucycles", "clock", "time", "rdtsc"}) I.hooks[n] = env;
}
static u64 constGlobal(const char *n) { auto *g = MOD->getGlobalVariable(n, true); if (!g || !g->hasInitializer()) throw AnalysisAbort{std::string("missing size constant ") + n}; return cast<ConstantInt>(g->getInitializer())->getZExtValue(); }

static void retZero(const V &r, const char *op) { if (!(r.kind == V_C && r.c == 0)) RP.extra["ret"] = js(std::string(op) + (r.kind == V_C ? " returns " + std::to_string((i64)Ops::sx(r)) : " does not return a constant 0")); }
static std::string jlist(const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }

#include "modes.h"

int main(int argc, char **argv) {
  for (int i = 2; i < argc; i++) { std::string s = argv[i]; auto p = s.find('='); if (p != std::string::npos) ARG[s.substr(0, p)] = s.substr(p + 1); }
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C); if (!M) { fprintf(stderr, "cannot read %s\n", argv[1]); return 2; } MOD = M.get();
  auto t0 = std::chrono::steady_clock::now();
  try { runMode(arg("mode")); } catch (AnalysisAbort &a) { RP.status = "abort"; RP.why = a.why; } catch (std::bad_alloc &) { RP.status = "abort"; RP.why = "out of memory"; }
  double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  printf("{\"status\":%s,\"why\":%s,\"mode\":%s,\"seconds\":%.1f,\n", js(RP.status).c_str(), js(RP.why).c_str(), js(arg("mode")).c_str(), sec);
  printf("\"bits_compared\":%zu,\"bits_mismatch\":%zu,\"cases\":%zu,\"mismatches\":%s,\n", RP.bitsCompared, RP.bitsMismatch, RP.caseCount, jlist(RP.mism).c_str());
  printf("\"regions\":%s,\n", jlist(RP.regions).c_str());
  std::vector<std::string> ev; for (auto &e : allEvents) ev.push_back("{\"type\":" + js(e.type) + ",\"where\":" + js(e.where) + ",\"fn\":" + js(e.fn) + ",\"detail\":" + js(e.detail) + ",\"labels\":" + labs(e.label) + ",\"count\":" + std::to_string(e.count) + ",\"cond\":" + (e.cond ? "true" : "false") + "}");
  printf("\"events\":%s,\n", jlist(ev).c_str());
  std::vector<std::string> fs; for (auto &f : fnsAnalysed) fs.push_back(js(f)); std::vector<std::string> gw; for (auto &f : globW) gw.push_back(js(f));
  std::string ow = "{"; for (auto &k : OP.opqWhy) ow += (ow.size() > 1 ? "," : "") + js(k.first) + ":" + std::to_string(k.second); ow += "}";
  printf("\"stats\":{\"functions\":%s,\"written_globals\":%s,\"instructions\":%llu,\"loads\":%llu,\"stores\":%llu,\"calls\":%llu,\"branch_sites\":%zu,\"terms\":%zu,\"poly_words\":%zu,\"opaque\":%s},\n", jlist(fs).c_str(), jlist(gw).c_str(), (unsigned long long)totInst, (unsigned long long)totLoads, (unsigned long long)totStores, (unsigned long long)totCalls, branchesSeen.size(), BS.nodes.size(), PS.words.size(), ow.c_str());
  std::string ex = "{"; for (auto &k : RP.extra) ex += (ex.size() > 1 ? "," : "") + js(k.first) + ":" + k.second; printf("\"extra\":%s}\n", (ex + "}").c_str());
  fflush(stdout); _Exit(0); }
