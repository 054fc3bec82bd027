"""Configurations of the repository, translation of its sources to LLVM IR, and running the analyser."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "saberai")
JOBS = os.cpu_count() or 4
CACHE = os.path.join(BUILD, "cache")
CFLAGS = ("-O0 -Xclang -disable-O0-optnone -g -emit-llvm -c -fcommon -fgnu89-inline -w "
          "-fno-builtin-printf -ffile-compilation-dir=.").split()
X86 = "-mavx2 -mbmi2 -maes -mpclmul -mssse3 -mpopcnt".split()
ARM = "--target=arm-none-eabi -mthumb -isystem /usr/lib/arm-none-eabi/include -Wno-implicit-function-declaration".split()
LEVELS = {"LightSaber": 2, "Saber": 3, "FireSaber": 4}
PAR = {2: (10, 3), 3: (8, 4), 4: (6, 6)}


class Broken(Exception):
    """The analysis could not be carried out (never counts as a pass nor as a violation)."""


def choose(text, macro, value):
    found = 0

    def line(m):
        nonlocal found
        on = m.group(2) == value
        found += on
        return ("" if on else "// ") + "#define " + macro + " " + m.group(2) + m.group(3)
    text = re.sub(r"^[ \t]*(//[ \t]*)?#define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, line, text, flags=re.M)
    if found != 1:
        raise Broken("expected one '#define %s %s' line, found %d" % (macro, value, found))
    return text


def switch(text, macro, on):
    text, n = re.subn(r"^[ \t]*(?://[ \t]*)?#define[ \t]+%s[ \t]*$" % macro,
                      ("" if on else "// ") + "#define " + macro, text, flags=re.M)
    if n != 1:
        raise Broken("expected one '#define %s' line, found %d" % (macro, n))
    return text


class Conf:
    def __init__(self, ident, impl, src, edits, files, L, u=False, s90=False, lanes=1, flags=X86, extra=()):
        self.id, self.impl, self.src, self.edits, self.files = ident, impl, src, edits, files
        self.L, self.u, self.s90, self.lanes, self.flags, self.extra = L, u, s90, lanes, list(flags), list(extra)

    def args(self):
        mu, et = PAR[self.L]
        return ["L=%d" % self.L, "mu=%d" % mu, "et=%d" % et, "ep=10", "eq=%d" % (12 if self.u else 13),
                "usaber=%d" % self.u, "s90=%d" % self.s90, "lanes=%d" % self.lanes] + self.extra


BASE = ["pack_unpack.c", "fips202.c", "verify.c", "cbd.c", "SABER_indcpa.c", "kem.c"]


def configurations():
    out = []
    for name, k in LEVELS.items():
        out.append(Conf("Reference/" + name, "ref", "Reference_Implementation_KEM",
                        {"SABER_params.h": [(choose, "SABER_L", str(k))]}, BASE + ["poly.c", "rng.c"], k))
        out.append(Conf("AVX/" + name, "avx", "AVX_Implementation_KEM",
                        {"api.h": [(choose, "SABER_TYPE", name)]}, BASE + ["rng.c"], k))
        for s90 in (False, True):
            out.append(Conf("uSaber-90s-avx2/" + name + ("-90s" if s90 else ""), "uavx", "Variants/uSaber-90s/avx2",
                            {"api.h": [(choose, "SABER_TYPE", name)], "SABER_params.h": [(switch, "Saber90s", s90)]},
                            BASE + ["symmetric-aes.c", "crypto_stream_aes256ctr.c", "rng.c"], k, s90=s90))
            for u in (False, True):
                out.append(Conf("uSaber-90s-ref/" + ("u" if u else "") + name + ("-90s" if s90 else ""), "uref",
                                "Variants/uSaber-90s/ref",
                                {"SABER_params.h": [(choose, "SABER_L", str(k)), (switch, "uSaber", u), (switch, "Saber90s", s90)]},
                                BASE + ["poly.c", "sha256.c", "sha512.c", "aes256ctr.c", "symmetric-aes.c", "rng.c"], k, u=u, s90=s90))
    out.append(Conf("SaberX4-avx2/Saber", "x4", "Variants/SaberX4_avx2", {},
                    BASE + ["fips202x4.c", "keccak4x/KeccakP-1600-times4-SIMD256.c", "rng.c"], 3, lanes=4))
    out.append(Conf("Cortex-M0/Saber", "m0", "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem", {},
                    ["src/" + f for f in BASE + ["poly.c", "poly_mul.c", "encode.c"]], 3, flags=ARM + ["-mcpu=cortex-m0", "-Iinclude"], extra=["m0=1"]))
    out.append(Conf("Cortex-M0/generator", "m0rng", "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem", {}, ["src/prng.c"], 3, flags=ARM + ["-mcpu=cortex-m0", "-Iinclude"], extra=["m0=1"]))
    return out


ALL = {c.id: c for c in configurations()}
CONFS = {k: c for k, c in ALL.items() if c.impl != "m0rng"}
PRIMARY = {"ref": "Reference/Saber", "avx": "AVX/Saber", "uref": "uSaber-90s-ref/uSaber-90s", "uavx": "uSaber-90s-avx2/Saber-90s", "x4": "SaberX4-avx2/Saber", "m0": "Cortex-M0/Saber"}


def sh(cmd, cwd=None, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(["make", "-s", "-C", os.path.join(VERIF, "tool")], timeout=900)
    if rc or not os.path.exists(TOOL):
        raise Broken("the analyser does not build:\n" + out[-2000:])


def tool_hash():
    h = hashlib.sha256()
    d = os.path.join(VERIF, "tool")
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as fh:
            h.update(f.encode() + fh.read())
    return h.hexdigest()


SIZES = ('#include "api.h"\n#include "SABER_params.h"\nconst unsigned long vf_pk=CRYPTO_PUBLICKEYBYTES, '
         'vf_sk=CRYPTO_SECRETKEYBYTES, vf_ct=CRYPTO_CIPHERTEXTBYTES, vf_ss=CRYPTO_BYTES;\n')


class Workspace:
    """Scratch copies of the implementation directories with the parameter switches set, and their IR."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="saberverif.")
        self.built = {}
        self.thash = tool_hash()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prepare(self, confs):
        confs = [c for c in confs if c.id not in self.built]
        with ThreadPoolExecutor(JOBS) as ex:
            for c, r in zip(confs, ex.map(self._compile, confs)):
                self.built[c.id] = r
        return [c.id for c in confs]

    def copy(self, c):
        root = os.path.join(REPO, c.src)
        dst = os.path.join(self.dir, c.id.replace("/", "_"))
        if not os.path.isdir(root):
            raise Broken("missing directory " + c.src)
        shutil.copytree(root, dst, ignore=shutil.ignore_patterns("*.o", "*.a", "*.d", "*.elf", "*.req", "*.rsp", "._*", "obj"), symlinks=False, ignore_dangling_symlinks=True)
        for name, edits in c.edits.items():
            p = os.path.join(dst, name)
            if not os.path.exists(p):
                raise Broken("%s/%s is missing" % (c.src, name))
            text = open(p, errors="surrogateescape").read()
            for f, *a in edits:
                text = f(text, *a)
            open(p, "w", errors="surrogateescape").write(text)
        return dst

    def sources(self, c, d):
        """The usual files, plus whatever else the implementation's Makefile compiles into the library."""
        mk = os.path.join(d, "Makefile")
        if c.impl in ("m0", "m0rng") or not os.path.exists(mk):
            return c.files
        named = []
        for t in re.findall(r"(?<![\w./-])((?:[\w-]+/)*[\w-]+)\.[co]\b", open(mk, errors="replace").read()):
            f = t + ".c"
            if not t.startswith("test/") and f not in named and os.path.exists(os.path.join(d, f)):
                named.append(f)
        texts = []
        for root, _, names in os.walk(d):
            texts += [open(os.path.join(root, n), errors="replace").read() for n in names if n.endswith((".c", ".h")) and "test" not in os.path.relpath(root, d).split("/")]
        included = {os.path.basename(m) for t in texts for m in re.findall(r'^[ \t]*#[ \t]*include[ \t]*"([^"]+\.c)"', t, re.M)}
        extra = [f for f in named if f not in c.files and f != "cpucycles.c" and os.path.basename(f) not in included]
        return [f for f in c.files if os.path.exists(os.path.join(d, f)) or f in named] + extra

    def _compile(self, c):
        d = self.copy(c)
        ir = os.path.join(d, "_vf.bc")
        open(os.path.join(d, "_vf_sizes.c"), "w").write(SIZES)
        objs = []
        for f in self.sources(c, d) + ["_vf_sizes.c"]:
            o = "_vf_" + f.replace("/", "_") + ".bc"
            if not os.path.exists(os.path.join(d, f)):
                raise Broken("%s/%s is missing" % (c.src, f))
            rc, out = sh(["clang"] + CFLAGS + c.flags + ["-I.", f, "-o", o], cwd=d)
            if rc:
                raise Broken("%s/%s does not compile: %s" % (c.src, f, out[-1500:]))
            objs.append(o)
        rc, out = sh(["llvm-link"] + objs + ["-o", "_vf_l.bc"], cwd=d)
        if rc:
            raise Broken("%s: link: %s" % (c.id, out[-1500:]))
        rc, out = sh(["opt", "-passes=mem2reg", "_vf_l.bc", "-o", ir], cwd=d)
        if rc:
            raise Broken("%s: opt: %s" % (c.id, out[-1500:]))
        return ir

    def run(self, conf, args, timeout=700):
        ir = self.built[conf.id]
        full = args + conf.args()
        key = hashlib.sha256(open(ir, "rb").read() + repr((self.thash, full)).encode()).hexdigest()
        cf = os.path.join(CACHE, key + ".json")
        if os.environ.get("VERIF_CACHE") and os.path.exists(cf):
            return json.load(open(cf))
        try:
            r = subprocess.run(["prlimit", "--as=%d" % (24 << 30), TOOL, ir] + full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"status": "abort", "why": "analysis time limit", "events": [], "mismatches": [], "regions": [], "extra": {}, "stats": {}, "bits_compared": 0, "bits_mismatch": 0}
        try:
            j = json.loads(r.stdout.decode(errors="replace"))
        except ValueError:
            return {"status": "abort", "why": "analyser failed (%d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:]), "events": [], "mismatches": [], "regions": [], "extra": {}, "stats": {}, "bits_compared": 0, "bits_mismatch": 0}
        if os.environ.get("VERIF_CACHE"):
            os.makedirs(CACHE, exist_ok=True)
            tmp = cf + ".%d" % os.getpid()
            json.dump(j, open(tmp, "w"))
            os.rename(tmp, cf)
        return j

    def run_all(self, tasks):
        """tasks: list of (conf, args); expensive ones first is the caller's business."""
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda t: self.run(*t), tasks))
