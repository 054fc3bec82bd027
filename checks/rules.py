"""The rules: for every property, which analyses are run and how their findings are judged."""
from common import *

ASSUME = ["clang 18 at -O0 translates C to LLVM IR faithfully; the analyser's transfer functions model LLVM IR and the x86 vector intrinsics used",
          "randombytes returns independent bytes and is the only source of randomness",
          "in the KEM analysis Keccak-f[1600], SHA-256, SHA-512 and AES-256-CTR are uninterpreted functions; P07, P08 and P09 decide the code behind them",
          "API buffers do not overlap each other"]
SECRET = {"SKS", "Z", "MSG"} | {"R%d" % i for i in range(24)}
DATA = SECRET | {"PK", "CT", "SKP", "AUX", "STATE"}
CALLER_KINDS = {2, 3, 4}


class Ctx:
    def __init__(self, ws, tier):
        self.ws, self.tier = ws, tier
        self.violations, self.broken = [], []
        self.runs = []
        self.keys = set()

    def violate(self, rule, conf, where, what, detail=None):
        key = "%s|%s|%s|%s" % (rule, conf, where, what)
        if key in self.keys:
            return
        self.keys.add(key)
        self.violations.append(dict(rule=rule, conf=conf, where=where, what=what, key=key, detail=detail))

    def analyse(self, tasks):
        """tasks: list of (conf, args, tag); returns list of (conf, tag, report)"""
        confs, seen = [], set()
        for c, a, t in tasks:
            if c.id not in seen:
                seen.add(c.id)
                confs.append(c)
        self.ws.prepare(confs)
        out = []
        for (c, a, t), r in zip(tasks, self.ws.run_all([(c, a) for c, a, t in tasks])):
            if r["status"] != "ok":
                self.broken.append("%s %s: %s" % (c.id, t, r.get("why")))
            self.runs.append((c, t, r))
            out.append((c, t, r))
        return out

    def coverage(self, rule):
        fn, sites = set(), 0
        tot = dict(instructions=0, loads=0, stores=0, calls=0, bits_compared=0, analyses=0)
        per = {}
        for c, t, r in self.runs:
            s = r.get("stats") or {}
            tot["analyses"] += 1
            tot["bits_compared"] += r.get("bits_compared", 0)
            for k in ("instructions", "loads", "stores", "calls"):
                tot[k] += s.get(k, 0)
            for f in s.get("functions", []):
                fn.add(c.src + ":" + f)
            per.setdefault(c.id, []).append("%s: %d instructions, %d bits compared, %d cases" % (t, s.get("instructions", 0), r.get("bits_compared", 0), r.get("cases", 0)))
        cov = dict(explanation="%s; %d abstract-interpretation runs over %d configurations, %d functions, %d abstract instructions, %d loads, %d stores, %d calls, %d output bits compared with the specification" % (
            rule.text, tot["analyses"], len(per), len(fn), tot["instructions"], tot["loads"], tot["stores"], tot["calls"], tot["bits_compared"]),
            rule=rule.text, counts=tot, configurations=per, functions_analysed=sorted(fn))
        cov.update(getattr(self, "extra_cov", {}))
        return cov


ORDER = {"m0": 0, "x4": 1, "avx": 2, "uavx": 3, "uref": 4, "ref": 5}
HOST = {"ref", "avx", "uref", "uavx", "x4"}


def kem_tasks(ops, pred=None):
    cs = [c for c in CONFS.values() if pred is None or pred(c)]
    t = [(c, ["mode=kem", "op=" + op], op) for c in cs for op in ops]
    t.sort(key=lambda x: (ORDER.get(x[0].impl, 9), {"dec": 0, "enc": 1, "keypair": 2}[x[2]], -x[0].L))
    return t


def kem(ctx, ops=("keypair", "enc", "dec"), pred=None):
    rs = ctx.analyse(kem_tasks(ops, pred))
    for c, op, r in rs:
        if r["status"] == "ok" and not r["stats"].get("functions"):
            ctx.broken.append("%s %s: nothing analysed" % (c.id, op))
    return rs


def rel(c, where):
    return c.src + "/" + where.lstrip("./") if where and where != "?" else c.src


def mismatches(ctx, rule, rs, need=True):
    for c, tag, r in rs:
        if r["status"] != "ok":
            continue
        ex = r["extra"]
        if ex.get("spec"):
            ctx.violate(rule, c.id, c.src, "%s: %s" % (tag, ex["spec"]))
            continue
        if need and r["bits_compared"] == 0 and ex.get("routines", True):
            ctx.broken.append("%s %s: no output bit was compared" % (c.id, tag))
        for m in r["mismatches"]:
            if "more" in m:
                continue
            ctx.violate(rule, c.id, c.src, "%s: output '%s' byte %s bit %s is %s, specified %s" % (tag, m["region"], m["byte"], m["bit"], m["got"], m["want"]), m)


class Rule:
    text = ""

    def __init__(self, text, f):
        self.text, self.f = text, f

    def decide(self, ctx):
        self.f(ctx)


def functional(op):
    def f(ctx):
        rs = kem(ctx, (op,))
        mismatches(ctx, "value-number-differs-from-spec", rs)
        for c, tag, r in rs:
            if r["status"] == "ok" and r["extra"].get("ret"):
                ctx.violate("return-value", c.id, c.src + "/kem.c", r["extra"]["ret"])
    return f


def events(ctx, rs, types, pred, rule):
    for c, tag, r in rs:
        for e in r["events"]:
            if e["type"] in types and pred(c, tag, e):
                ctx.violate(rule, c.id, rel(c, e["where"]), "%s in %s: %s%s" % (e["type"], e["fn"], e["detail"], " depends on " + ",".join(e["labels"]) if e["labels"] else ""), e)


def public_draw(c, tag):
    """labels of random draws that only ever determine the public matrix seed"""
    return {"R%d" % (3 * i) for i in range(c.lanes)} if tag == "keypair" else set()


CT_TYPES = {"branch", "addr", "index", "len", "memcmp", "div", "icall", "io"}


def p12(ctx):
    rs = kem(ctx)
    events(ctx, rs, CT_TYPES, lambda c, t, e: bool((set(e["labels"]) & SECRET) - public_draw(c, t)), "secret-dependent-control-or-address")
    for c, tag, r in rs:
        if r["status"] == "ok" and r["stats"]["branch_sites"] == 0:
            ctx.broken.append("%s %s: no branch site seen" % (c.id, tag))


def p13(ctx):
    rs = kem(ctx)
    events(ctx, rs, {"oob", "dead"}, lambda c, t, e: True, "access-outside-object")


def p14(ctx):
    rs = kem(ctx, pred=lambda c: c.impl in HOST)
    events(ctx, rs, {"align"}, lambda c, t, e: bool(re.search(r"kind (2|3|4)\)", e["detail"])), "alignment-of-caller-memory")


def p15(ctx):
    rs = kem(ctx)
    for c, tag, r in rs:
        if r["status"] == "ok" and not r["regions"]:
            ctx.broken.append("%s %s: no output region" % (c.id, tag))
        for g in r["regions"]:
            for k, what in (("old", "not written: previous buffer content remains"), ("uninit", "depends on uninitialised memory"), ("hist", "depends on earlier calls through static storage"), ("env", "depends on the environment")):
                if g[k]:
                    at = {"old": g["firstOld"], "uninit": g["firstUninit"], "hist": g["firstHist"]}.get(k, "?")
                    ctx.violate("output-completeness", c.id, c.src + "/kem.c", "%s: output '%s' %s (%d bits, from byte %s)" % (tag, g["name"], what, g[k], at))


def p16(ctx):
    rs = kem(ctx, pred=lambda c: c.impl in HOST)
    events(ctx, rs, {"globwrite"}, lambda c, t, e: bool(set(e["labels"]) & DATA), "input-dependent-store-to-static-object")


def p17(ctx):
    rs = kem(ctx)
    for c, tag, r in rs:
        if r["status"] != "ok":
            continue
        ex = r["extra"]
        w = c.src + "/kem.c"
        per = {"keypair": 3, "enc": 1, "dec": 0}[tag]
        if len(ex["draws"]) != per * c.lanes:
            ctx.violate("number-of-draws", c.id, w, "%s draws %d times, expected %d" % (tag, len(ex["draws"]), per * c.lanes), ex["draws"])
            continue
        for k, (d, u) in enumerate(zip(ex["draws"], ex["draw_use"])):
            if d["bytes"] != 32:
                ctx.violate("draw-size", c.id, rel(c, d["where"]), "%s: draw %d has %d bytes, expected 32" % (tag, k, d["bytes"]))
            if u["used_bits"] != u["bits"]:
                ctx.violate("draw-not-used", c.id, rel(c, d["where"]), "%s: draw %d: only %d of %d bits influence the outputs (first unused bit %d)" % (tag, k, u["used_bits"], u["bits"], u["first_unused"]))
        for g in r["regions"]:
            m = re.match(r"(.*?)(?:_lane(\d+))?$", g["name"])
            nm, lane = m.group(1), int(m.group(2) or 0)
            got = {x for x in g["labels"] if re.match(r"R\d+$", x)}
            if tag == "keypair":
                ok = {"pk": {0, 1}, "sk.s": {1}, "sk.pk+hpk": {0, 1}, "sk.z": {2}}[nm]
                ok = {"R%d" % (3 * lane + i) for i in ok}
            else:
                ok = {"R%d" % lane} if tag == "enc" else set()
            if got - ok:
                ctx.violate("draw-purpose", c.id, w, "%s: output '%s' depends on random draws %s, expected only %s" % (tag, g["name"], sorted(got), sorted(ok)))
            if nm in ("pk", "ct.b", "ct.cm"):
                raw = [k for k in g["carriers"] if k.startswith("input:draw")]
                if raw:
                    ctx.violate("raw-draw-in-public-output", c.id, w, "%s: output '%s' carries raw generator output %s from byte %d" % (tag, g["name"], raw, g["carriers"][raw[0]]["byte"]))


def p17all(ctx):
    p17(ctx)
    units(ctx, [("Cortex-M0/generator", ["mode=hwrng"], "hardware generator")], "generator-bits-not-fresh", [])


def p18(ctx):
    rs = kem(ctx)
    for c, tag, r in rs:
        if r["status"] != "ok":
            continue
        w = c.src + "/kem.c"
        eq, ep, et = (12 if c.u else 13), 10, PAR[c.L][1]
        for g in r["regions"]:
            nm = g["name"].split("_lane")[0]
            lab = set(g["labels"])
            bad = set(g["direct"]) & (SECRET | {"OPQ", "UNINIT", "OLD", "HIST", "ENV"})
            if nm in ("pk", "ct.b", "ct.cm", "ss") and bad:
                ctx.violate("direct-secret-bit", c.id, w, "%s: output '%s' directly carries data of %s (%s)" % (tag, g["name"], sorted(bad), sorted(k for k in g["carriers"] if k != "prim" and not k.startswith("product"))[:4]), g["carriers"])
            if nm in ("pk", "ct.b", "ct.cm"):
                low = ep - et if nm == "ct.cm" else eq - ep
                for k in g["carriers"]:
                    m = re.match(r"product:mod(\d+):bit(\d+)$", k)
                    if m and int(m.group(2)) < low:
                        ctx.violate("unrounded-product-bit", c.id, w, "%s: output '%s' carries bit %s of a product, below the rounding position %d (byte %d)" % (tag, g["name"], m.group(2), low, g["carriers"][k]["byte"]))
            if nm == "ss" and set(g["carriers"]) - {"prim"}:
                ctx.violate("shared-secret-not-hashed", c.id, w, "%s: shared secret carries %s, not only hash output" % (tag, sorted(set(g["carriers"]) - {"prim"})))
            if tag == "keypair":
                zl = {"R%d" % (3 * i + 2) for i in range(c.lanes)}
                if nm != "sk.z" and lab & zl:
                    ctx.violate("rejection-secret-flow", c.id, w, "keypair: output '%s' depends on the rejection secret" % g["name"])
                nl = {"R%d" % (3 * i + 1) for i in range(c.lanes)}
                if nm == "sk.z" and lab & nl:
                    ctx.violate("rejection-secret-flow", c.id, w, "keypair: the rejection secret depends on the noise seed")
        events(ctx, [(c, tag, r)], {"io"}, lambda c, t, e: bool(set(e["labels"]) & SECRET), "secret-printed")


def p19(ctx):
    rs = kem(ctx, pred=lambda c: c.lanes > 1)
    mismatches(ctx, "lane-differs-from-single-KEM", rs)
    for c, tag, r in rs:
        for g in r["regions"]:
            lane = g["name"].rsplit("_lane", 1)[-1]
            other = {x for x in g["labels"] if x.startswith("LANE")} - {"LANE" + lane}
            if other:
                ctx.violate("lane-dependence", c.id, c.src + "/kem.c", "%s: output '%s' depends on data of %s" % (tag, g["name"], sorted(other)))


def p20(ctx):
    rs = kem(ctx)
    events(ctx, rs, {"constwrite"}, lambda c, t, e: True, "store-to-input-or-constant")
    for c, tag, r in rs:
        if r["status"] != "ok":
            continue
        for n in r["extra"].get("notes", []):
            ctx.violate("input-modified", c.id, c.src + "/kem.c", "%s: %s" % (tag, n))
        if r["extra"].get("ret"):
            ctx.violate("return-value", c.id, c.src + "/kem.c", r["extra"]["ret"])


def p21(ctx):
    rs = kem(ctx)
    for c, tag, r in rs:
        s = r["extra"].get("sizes")
        if not s:
            continue
        for k in ("pk", "sk", "ct"):
            if s[k] != s["want_" + k]:
                ctx.violate("advertised-size", c.id, c.src + "/api.h", "size of %s is %d, the layout needs %d" % (k, s[k], s["want_" + k]))
        if s["ss"] != 32 * c.lanes:
            ctx.violate("advertised-size", c.id, c.src + "/api.h", "size of ss is %d, the layout needs %d" % (s["ss"], 32 * c.lanes))
        for g in r["regions"]:
            if g["old"]:
                ctx.violate("size-not-filled", c.id, c.src + "/kem.c", "%s: output '%s' not filled from byte %d" % (tag, g["name"], g["firstOld"]))
        events(ctx, [(c, tag, r)], {"oob"}, lambda c, t, e: bool(re.search(r"object '(pk|sk|ct|ss)'", e["detail"])), "access-beyond-advertised-size")


def units(ctx, tasks, rule, req, fallback=False):
    """single-routine analyses; with fallback, an implementation in which a routine no longer exists under its
    name is decided by the analysis of the whole operations instead"""
    rs = ctx.analyse([(ALL[PRIMARY.get(i, i)], a + (["thorough=1"] if ctx.tier == "thorough" else []), t) for i, a, t in tasks])
    mismatches(ctx, rule, rs)
    events(ctx, rs, {"oob", "dead", "constwrite"}, lambda c, t, e: True, "access-outside-object")
    done = {}
    whole = []
    for c, t, r in rs:
        if fallback and r["extra"].get("missing") and c not in whole:
            whole.append(c)
        for m in [] if fallback else r["extra"].get("missing", []):
            ctx.broken.append("%s: routine %s not found" % (c.id, m))
        done.setdefault(c.id, set()).update(r["extra"].get("routines", []))
    ctx.extra_cov = dict(routines={k: sorted(v) for k, v in done.items()}, cases=sum(r.get("cases", 0) for _, _, r in rs))
    if whole:
        k = ctx.analyse([(c, ["mode=kem", "op=" + op], op) for c in whole for op in ("keypair", "enc", "dec")])
        mismatches(ctx, rule, k)
        ctx.extra_cov["decided_by_whole_operations"] = sorted(c.id for c in whole)
    for n in req:
        if not any(n in v for v in done.values()):
            ctx.broken.append("routine %s analysed in no implementation" % n)
    return rs


def p05(ctx):
    units(ctx, [(c, ["mode=pack"], "pack") for c in CONFS], "packing-differs-from-format", [], True)


def p06(ctx):
    units(ctx, [(c, ["mode=cbd"], "sampling") for c in CONFS], "sampling-differs-from-distribution", [], True)


def p04(ctx):
    t = []
    for c in CONFS.values():
        if c.s90 and not (c.impl == "uavx" and c.L == 3):
            continue
        if c.impl in ("ref", "uref", "m0"):
            t.append((c.id, ["mode=mul", "what=acc"], "product"))
        if c.impl == "m0":
            continue
        t += [(c.id, ["mode=mul", "what=" + w], n) for w, n in (("mat0", "matrix product"), ("mat1", "transposed matrix product"), ("inner", "inner product"))]
    t.sort(key=lambda x: (-CONFS[x[0]].L, ORDER[CONFS[x[0]].impl], "mat" not in x[1][1]))
    units(ctx, t, "product-differs-from-ring-product", [], True)


def p08(ctx):
    units(ctx, [(i, ["mode=perm"], "perm") for i in ("x4", "ref", "avx", "uref", "uavx")], "permutation-differs-from-keccak-f", ["KeccakF1600_StatePermute", "KeccakP1600times4_PermuteAll_24rounds"])


def p07(ctx):
    t = [("x4", ["mode=sponge", "what=" + w], "sponge " + w) for w in ("shake128x4", "shake256x4", "sha3_256x4", "sha3_512x4", "shake128", "shake256", "cshake128_simple", "sha3_256", "sha3_512", "shake128x4_squeezeblocks", "blockwise")]
    t += [(i, ["mode=sponge"], "sponge") for i in ("ref", "avx", "uref", "uavx", "m0")]
    units(ctx, t, "sponge-differs-from-fips202", ["sha3_256", "sha3_512", "shake128"], True)


def p09(ctx):
    t = [("uavx", ["mode=aes", "what=prf", "wide=1"], "aes prf"), ("uavx", ["mode=aes", "what=stream"], "aes stream")]
    t += [("uref", ["mode=aes", "what=prf"], "aes prf"), ("uref", ["mode=aes", "what=nonce"], "aes nonce"), ("uref", ["mode=aes", "what=blocks"], "aes blocks")]
    t += [("uref", ["mode=sha2", "w=%d" % w, "zero=1"], "sha2 %d long" % w) for w in (32, 64)]
    t += [("uref", ["mode=sha2", "w=64", "parts=4", "part=%d" % k], "sha512 %d/4" % k) for k in range(4)]
    t += [("uref", ["mode=sha2", "w=32", "parts=2", "part=%d" % k], "sha256 %d/2" % k) for k in range(2)]
    rs = units(ctx, t, "differs-from-fips180-or-fips197", ["sha256", "sha512", "saber_aes256ctr_prf"])
    ctx.extra_cov["notes"] = sorted({n for _, _, r in rs for n in r["extra"].get("unit_notes", [])})


def notes(ctx, rs):
    ctx.extra_cov["notes"] = sorted({n for _, _, r in rs for n in r["extra"].get("unit_notes", [])})


def p10(ctx):
    t = [("x4", ["mode=rng", "what=drbg", "gen=randombytes" + g], "drbg randombytes" + g) for g in ("", "0", "1", "2", "3")]
    t += [(i, ["mode=rng", "what=drbg"], "drbg") for i in ("ref", "avx", "uref", "uavx")]
    notes(ctx, units(ctx, t, "differs-from-ctr-drbg", ["randombytes", "randombytes_init"]))


def p11(ctx):
    t = [(i, ["mode=rng", "what=xof"], "seed expander") for i in ("x4", "ref", "avx", "uref", "uavx")]
    notes(ctx, units(ctx, t, "differs-from-seed-expander", ["seedexpander_init", "seedexpander"]))


VN = "abstract interpretation over LLVM IR in a value-number domain (bits in algebraic normal form, words as polynomials mod 2^k), loops with constant bounds unfolded, both sides of data-dependent branches joined; "
RULES = {
    "P01": Rule(VN + "every shared-secret bit of crypto_kem_dec has the value number of the implicit-rejection specification", functional("dec")),
    "P02": Rule(VN + "every ciphertext and shared-secret bit of crypto_kem_enc has the value number of the specification", functional("enc")),
    "P03": Rule(VN + "every key bit of crypto_kem_keypair has the value number of the specification", functional("keypair")),
    "P04": Rule(VN + "every bit below the modulus of every product of polynomials has the value number of the sum of coefficient products with the signs of x^256 = -1, all operand coefficients being arbitrary 16-bit words", p04),
    "P05": Rule(VN + "every output bit of every packing and unpacking routine has the value number of the specified input bit; every output bit is written, nothing outside the buffers is accessed", p05),
    "P06": Rule(VN + "every coefficient modulo q has the value number of the sum of the first half of its own bits minus the sum of the second half", p06),
    "P07": Rule(VN + "every output bit of every hash/XOF routine, for every input length and output length up to several blocks and selected larger ones, has the value number of the FIPS 202 sponge over the uninterpreted permutation; nothing outside the buffers is accessed", p07),
    "P08": Rule(VN + "every bit of the permuted state has the value number of the 24-round Keccak-f[1600] circuit", p08),
    "P09": Rule(VN + "every output bit of SHA-256 and SHA-512, for every message length up to several blocks and selected larger ones, has the value number of FIPS 180-4; every output bit of AES-256-CTR, for every output length up to 17 blocks and at every counter carry boundary, that of FIPS 197 in counter mode", p09),
    "P10": Rule(VN + "OpenSSL AES-256-ECB as an uninterpreted function, 128-bit counter carries as polynomials: every output bit and every bit of the next key and counter, from initialisation and from an arbitrary state, for every request length up to 80 and selected larger ones, has the value number of the CTR-DRBG rules", p10),
    "P11": Rule(VN + "OpenSSL AES-256-ECB as an uninterpreted function: every return code, output bit, refusal and remaining budget of the seed expander has the specified value, for every buffer position, an arbitrary 32-bit counter and request lengths over several blocks", p11),
    "P12": Rule("dependency analysis over LLVM IR: no branch, address, index, length, comparison call, division or indirect call carries a label of a secret", p12),
    "P13": Rule("interval/points-to analysis over LLVM IR: every access lies inside its object, API buffers having exactly the advertised sizes", p13),
    "P14": Rule("alignment analysis over LLVM IR: no access to caller memory requires alignment above 1", p14),
    "P15": Rule("definite-initialisation and dependency analysis over LLVM IR: no output bit depends on old buffer contents, uninitialised memory, static storage written by earlier calls, or the environment", p15),
    "P16": Rule("effect analysis over LLVM IR: no store into a global or static object carries a label of an input or random draw, in its value or its guards", p16),
    "P17": Rule("effect and dependency analysis over LLVM IR: number and size of random draws, reachability of every drawn bit to an output, purposes and raw occurrences; every byte delivered by the hardware generator driver is a distinct byte of a register read", p17all),
    "P18": Rule("information-flow analysis over LLVM IR: carriers of every output bit (hash output, rounded product bit, direct input) against the flow policy", p18),
    "P19": Rule(VN + "and lane labels: each lane's outputs carry only that lane's labels and the value numbers of the single-instance specification", p19),
    "P20": Rule("effect analysis over LLVM IR: no store to an input object; value numbers of the inputs unchanged; constant return value 0", p20),
    "P21": Rule("advertised size constants against the layout; outputs filled; no access beyond the advertised sizes", p21),
}
