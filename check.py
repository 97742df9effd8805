#!/usr/bin/env python3
"""check.py <ID>: build what the monitors of property <ID> need from /repo's working tree, run them, judge.

exit 0  the property held on everything observed
exit 1  violated: prints "VIOLATION property=<ID> replay=<path>"
exit 2  inconclusive (a build or tool failed, a run timed out, too little was observed)
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
T0 = time.time()
STABLE = dict(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


class Inconclusive(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.update(CARGO_TARGET_DIR=TGT, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "")
    e.update(STABLE)
    e.update(kw)
    return e


def run(cmd, timeout, cwd=VERIF, e=None, **kw):
    """Run a command; returns (rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, s = p.communicate(timeout=timeout)
        return p.returncode, o, s
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, s = p.communicate()
        return None, o, s


# ---------------------------------------------------------------- builds
SAN = "x86_64-unknown-linux-gnu"
NIGHTLY = dict(RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu")
CONFIGS = {
    # name: (profile, features, description, extra environment, extra cargo arguments)
    "nostd": ("release", "", "release build, no default features (no std, 32-bit-limb field)", {}, []),
    "std64": ("release", "std64", "release build, default features", {}, []),
    "full": ("release", "full", "release build, all features", {}, []),
    "checked": ("checked", "full", "optimised build with debug assertions and overflow checks, all features", {}, []),
    "checked_nostd": ("checked", "", "optimised build with debug assertions and overflow checks, no default features", {}, []),
    "tsan": ("release", "full", "ThreadSanitizer build, standard library included, all features",
             dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=thread"), ["-Zbuild-std", "--target", SAN]),
    "asan": ("checked", "full", "AddressSanitizer build with debug assertions and overflow checks, all features",
             dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=address"), ["--target", SAN]),
    "asan_nostd": ("checked", "", "AddressSanitizer build with debug assertions and overflow checks, no default features",
                   dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=address"), ["--target", SAN]),
    "asan_rel": ("release", "full", "AddressSanitizer build without debug assertions or overflow checks, all features",
                 dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=address"), ["--target", SAN]),
    # only for the workload program
    "alloc": ("release", "alloc", "release build, only the alloc feature", {}, []),
    "std": ("release", "std", "release build, only the std feature (32-bit-limb field)", {}, []),
    "ark32": ("release", "hash64,u32", "release build, default features of the hash crate alone, and the u32_backend feature", {}, []),
    "circuits": ("release", "std64,circuits", "release build, default features and the circuit feature", {}, []),
    "debug": ("dev", "std64", "debug build without optimisation, default features", {}, []),
    "debug_nostd": ("dev", "", "debug build without optimisation, no default features", {}, []),
    "free64": ("free", "free", "program without std, libc or operating system (x86_64-unknown-none)",
               dict(NIGHTLY, RUSTFLAGS="-Clinker=rust-lld -Clinker-flavor=ld.lld -Crelocation-model=static"),
               ["--target", "x86_64-unknown-none", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem"]),
    "free32": ("free", "free", "32-bit program without std, libc or operating system (i686)",
               dict(NIGHTLY, RUSTFLAGS="-Clinker=rust-lld -Clinker-flavor=ld.lld -Crelocation-model=static"),
               ["--target", "i686-unknown-linux-gnu", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem"]),
    "msan": ("checked", "std64", "MemorySanitizer build, standard library included, default features",
             dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=memory"), ["-Zbuild-std", "--target", SAN]),
    "msan_nostd": ("checked", "", "MemorySanitizer build, standard library included, no default features",
                   dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=memory"), ["-Zbuild-std", "--target", SAN]),
}
# every binary the checks use: configuration:part, where part names the monitors compiled in
BINARIES = ["full", "full:hist", "full:gen", "full:mat", "full:gadgets", "full:conc", "checked", "checked:gen", "checked:mat", "checked:gadgets",
            "checked_nostd", "checked_nostd:gen", "checked_nostd:mat", "nostd", "nostd:mat", "nostd:gen", "std64", "std64:mat", "tsan:conc", "asan:gadgets"]
WL = dict(wlrun=["std64", "nostd", "alloc", "std", "ark32", "circuits", "full", "checked", "checked_nostd", "debug", "debug_nostd"],
          wlsec=["std64", "nostd", "debug"], wlfree=["free64", "free32"],
          wlub=["checked", "checked_nostd", "asan", "asan_nostd", "asan_rel", "msan", "msan_nostd"])
# "plain": as shipped, without the debug assertions and overflow checks that would stop an operation before it becomes undefined
MIRI_TARGETS = dict(host=SAN, big="s390x-unknown-linux-gnu", plain=SAN)
_built = {}
_few = set()
_lock = threading.Lock()
_cfg_locks = {}


def desc(name):
    return CONFIGS[name.split(":")[0]][2] if name.split(":")[0] in CONFIGS else name


def cargo(crate, args, timeout=800, e=None, sub="build"):
    return run(["cargo", sub, "--offline", "--locked"] + args, timeout, cwd=os.path.join(VERIF, crate), e=e)


class BuildFailed(Inconclusive):
    def __init__(self, name, rc, err):
        Inconclusive.__init__(self, "build of %s failed (rc %s): %s" % (name, rc, first_errors(err)))
        self.err = err


_digest = []


def source_digest():
    """Of everything in /repo that can reach a build; cargo itself only looks at modification times."""
    if not _digest:
        h = hashlib.sha256()
        for crate in ("", "poseidon377", "poseidon-permutation", "poseidon-parameters", "poseidon-paramgen"):
            top = os.path.join(REPO, crate)
            for d, ds, fs in (os.walk(top) if crate else [(REPO, [], ["Cargo.toml", "rust-toolchain", "rust-toolchain.toml"])]):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                for f in sorted(fs):
                    try:
                        data = open(os.path.join(d, f), "rb").read()
                    except OSError:
                        continue
                    h.update(("%s\0%d\0" % (os.path.join(d, f), len(data))).encode() + data)
        _digest.append(h.hexdigest())
    return _digest[0]


_fresh = set()


def freshen(tgt):
    """Make cargo rebuild the crates of /repo in this target directory if their content is not what was built there last."""
    with _lock:
        if tgt in _fresh:
            return
        _fresh.add(tgt)
    mark = os.path.join(tgt, "source-digest")
    try:
        if open(mark).read() == source_digest():
            return
    except OSError:
        pass
    for d, ds, fs in os.walk(tgt):
        if os.path.basename(d) == ".fingerprint":
            for x in list(ds):
                if x.startswith(("poseidon", "genold")):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            ds[:] = []
        elif d.count(os.sep) - tgt.count(os.sep) > 3 or os.path.basename(d) in ("deps", "build", "incremental"):
            ds[:] = []
    os.makedirs(tgt, exist_ok=True)
    with open(mark, "w") as f:
        f.write(source_digest())


def changed_fields(err):
    """Whether a build of /verif's crates failed because types of the code under test have other fields than at the pinned commit."""
    return bool(re.search(r"^error(\[E0(063|423|451|560|532|61|061|308|599|609|616)\]|: cannot construct .* private field)", err, re.M)) and not repo_error(err)


def build_bin(crate, cfg, name, bin, feats_extra="", dst=None):
    """Build one binary of a crate of /verif in a configuration; returns the path of a copy that later builds leave alone."""
    with _lock:
        lk = _cfg_locks.setdefault(cfg, threading.Lock())
    with lk:
        if name in _built:
            return _built[name]
        prof, feats, _, ee, extra = CONFIGS[cfg]
        f = ",".join(x for x in (feats, feats_extra) if x)
        tgt = os.path.join(TGT, cfg)
        freshen(tgt)
        t = time.time()
        for f in (f, f + ",few" if f else "few"):
            rc, o, s = cargo(crate, ["--profile", prof, "--bin", bin] + (["--features", f] if f else []) + extra, e=env(CARGO_TARGET_DIR=tgt, **ee))
            if rc == 0 or crate not in ("harness", "wl") or not changed_fields(s):
                break
            log("%s: the types have changed, built without naming their fields" % name)
        if rc != 0:
            raise BuildFailed(name, rc, s)
        target = extra[extra.index("--target") + 1] if "--target" in extra else ""
        src = os.path.join(tgt, target, "debug" if prof == "dev" else prof, bin)
        dst = os.path.join(tgt, dst or bin + "-bin")
        shutil.copy2(src, dst + ".new")
        os.replace(dst + ".new", dst)
        log("built %s in %.1f s" % (name, time.time() - t))
        _built[name] = dst
        return dst


def build(name):
    """Build a binary: "<configuration>:<part>" of the harness, or "<configuration>/<program>" of the workload crate."""
    if "/" in name:
        cfg, _, bin = name.partition("/")
        return build_bin("wl", cfg, name, bin)
    cfg, _, part = name.partition(":")
    return build_bin("harness", cfg, name, "mon", part, "mon-" + (part or "hash"))


def repo_error(err):
    """Whether a failed build failed on the code under test rather than on the tools."""
    return bool(re.search(r"^error(\[E\d+\])?:.*\n\s*--> /repo/", err, re.M))


def prebuild(*names):
    """Build several binaries at once; failures show up when the binary is used."""
    def one(n):
        try:
            build(n)
        except Inconclusive as x:
            log(str(x))
    ts = [threading.Thread(target=one, args=(n,)) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]


def first_errors(s):
    ls = s.splitlines()
    out = []
    for i, l in enumerate(ls):
        if l.startswith("error"):
            out.append(" / ".join(x.strip() for x in ls[i:i + 3]))
        if len(out) >= 3:
            break
    return "; ".join(out) or s[-400:]


def log(*a):
    print("[check %6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- the parameter generator
GEN_SKIP = {"v1", "v2", "mds", "appendix_g", "poseidon_build"}     # do not compile at the pinned commit, with any matrix types


def pg():
    """Build the generator's monitors from the modules of /repo/poseidon-paramgen that compile on their own."""
    with _lock:
        lk = _cfg_locks.setdefault("pg", threading.Lock())
    with lk:
        if "pg" in _built:
            return _built["pg"]
        src, dst = os.path.join(REPO, "poseidon-paramgen", "src"), os.path.join(VERIF, "pg", "gen", "src")
        files = {}
        text = open(os.path.join(src, "lib.rs")).read()
        text = re.sub(r"#!\[(deny|forbid|warn)\([^\]]*\)\]", "", text)

        def decl(m):
            return "" if m.group(3) in GEN_SKIP else "%s\npub mod %s;" % (m.group(1), m.group(3))

        text = re.sub(r"((?:^[ \t]*(?:///[^\n]*|#\[[^\n]*\])\n)*)^[ \t]*(pub(?:\([^)]*\))?[ \t]+)?mod[ \t]+(\w+)[ \t]*;", decl, text, flags=re.M)
        files["lib.rs"] = text
        for d, _, fs in os.walk(src):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), src)
                if f.endswith(".rs") and rel != "lib.rs" and rel.split(os.sep)[0].split(".")[0] not in GEN_SKIP:
                    files[rel] = open(os.path.join(d, f)).read()
        old = {os.path.relpath(os.path.join(d, f), dst) for d, _, fs in os.walk(dst) for f in fs}
        for f in old - set(files):
            os.remove(os.path.join(dst, f))
        for f, x in files.items():
            p = os.path.join(dst, f)
            if f not in old or open(p).read() != x:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as h:
                    h.write(x)
        tgt = os.path.join(TGT, "pg")
        freshen(tgt)
        t = time.time()
        rc, o, s = cargo("pg", ["--profile", "release", "--bins"], e=env(CARGO_TARGET_DIR=tgt))
        if rc != 0:
            raise BuildFailed("pg", rc, s)
        log("built pg in %.1f s" % (time.time() - t))
        _built["pg"] = os.path.join(tgt, "release", "pg")
        return _built["pg"]


# ---------------------------------------------------------------- input dictionary
def dictionary():
    """Constants occurring in the code under test, offered to the input generators (never used for a verdict)."""
    path = os.path.join(TGT, "dict.txt")
    os.makedirs(TGT, exist_ok=True)
    seen, out = set(), []

    def add(kind, v):
        if (kind, v) not in seen and v.bit_length() <= 256:
            seen.add((kind, v))
            out.append("%s 0x%x" % (kind, v))

    for crate in ("poseidon377", "poseidon-permutation", "poseidon-parameters"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, crate, "src"))):
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(d, f)
                big = "/params/" in p
                try:
                    src = open(p, errors="replace").read()
                except OSError:
                    continue
                if big:
                    continue
                nums = []
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b", src):
                    s = m.group(1).replace("_", "")
                    try:
                        v = int(s, 0) if s[:2] in ("0x", "0b", "0o") else int(s)
                    except ValueError:
                        continue
                    nums.append(v)
                    if v > 18:
                        for k in (v, v + 1, v - 1):
                            add("i", k)
                        add("m", v)
                        if v < 256:
                            add("i", 1 << v)
                for i in range(len(nums) - 3):
                    q = nums[i:i + 4]
                    if any(x >= 1 << 32 for x in q) and all(x < 1 << 64 for x in q):
                        v = sum(x << (64 * k) for k, x in enumerate(q))
                        add("i", v)
                        add("m", v)
                for i in range(len(nums) - 7):
                    q = nums[i:i + 8]
                    if sum(x >= 1 << 16 for x in q) >= 6 and all(x < 1 << 32 for x in q):
                        add("m", sum(x << (32 * k) for k, x in enumerate(q)))
                        add("i", sum(x << (32 * k) for k, x in enumerate(q)))
                for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', src):
                    b = m.group(1).encode()[:31]
                    if b and b.isdigit():
                        add("i", int(m.group(1)))
                    elif b and len(b) >= 3:
                        add("i", int.from_bytes(b, "little"))
                for i in range(len(nums) - 31):
                    q = nums[i:i + 32]
                    if all(x < 256 for x in q) and sum(x > 18 for x in q) > 16:
                        add("i", int.from_bytes(bytes(q), "little"))
    out = out[:4000]
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return path, len(out)


# ---------------------------------------------------------------- running monitors
class Result:
    def __init__(self):
        self.evals = 0
        self.distinct = 0
        self.counts = {}
        self.samples = []
        self.runs = []
        self.viol = []      # dicts: what, case, repro
        self.notes = []
        self.assumptions = []

    def add_run(self, name, j, extra=None):
        self.evals += j["evaluations"]
        self.distinct += j["distinct"]
        self.counts[name] = j["counts"]
        self.samples += ["%s: %s" % (name, s) for s in j["samples"][:3]]
        self.notes += j["notes"]
        r = dict(run=name, evaluations=j["evaluations"], distinct=j["distinct"], wall_s=j["wall_s"])
        if extra:
            r.update(extra)
        self.runs.append(r)


SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


def monitor(res, pid, config, check=None, budget=20.0, thorough=None, extra=(), must=True, timeout=None, label=None,
            min_evals=1, binary=None, e=None):
    """Run one monitor of the harness and add its observations to res."""
    try:
        exe = binary or build(config)
    except BuildFailed as x:
        if must:
            raise
        res.notes.append(str(x))
        return None
    check = check or pid
    b = thorough if (TIER == "thorough" and thorough is not None) else budget
    out = os.path.join(TGT, "out-%s-%s-%d.json" % (pid, re.sub(r"\W", "-", label or config), os.getpid()))
    d, nd = dictionary()
    cmd = [exe, check, "--seed", str(SEED), "--tier", TIER, "--budget-ms", str(int(b * 1000)), "--threads", "8",
           "--dict", d, "--out", out] + [str(x) for x in extra]
    label = label or config
    if os.path.exists(out):
        os.remove(out)
    rc, o, s = run(cmd, timeout or b * 4 + 240, e=e)
    repro = dict(config=config, build=desc(config), command=cmd, seed=SEED)
    if rc is None:
        if must:
            raise Inconclusive("run %s timed out" % label)
        log("run %s timed out" % label)
        return None
    if rc == 77 and UB_TEXT.search(s):
        i = max(0, UB_TEXT.search(s).start() - 100)
        res.viol.append(dict(what=s[UB_TEXT.search(s).start():].splitlines()[0][:300], case=s[i:i + 2500], repro=repro))
        return None
    if rc < 0 and -rc in SIGNALS or rc == 134:
        res.viol.append(dict(what="the process was killed by signal %s" % (-rc), case=s[-2000:], repro=repro))
        return None
    if rc != 0 or not os.path.exists(out):
        if must:
            raise Inconclusive("run %s failed with %s: %s" % (label, rc, s[-600:]))
        log("run %s failed with %s: %s" % (label, rc, s[-300:]))
        return None
    j = json.load(open(out))
    os.remove(out)
    for v in j["violations"]:
        r = dict(repro)
        r["chunk"] = v["chunk"]
        r["command"] = cmd + ["--chunk", str(v["chunk"])]
        res.viol.append(dict(what=v["what"], case=v["case"], repro=r))
    res.add_run(label, j)
    log("%s: %d evaluations, %d distinct, %d violations in %.1f s" % (label, j["evaluations"], j["distinct"], len(j["violations"]), j["wall_s"]))
    if must and not j["violations"] and j["evaluations"] < min_evals:
        raise Inconclusive("run %s observed only %d evaluations" % (label, j["evaluations"]))
    return j


# ---------------------------------------------------------------- properties
RULES = {}
CHECKS = {}


def prop(pid, rule):
    def deco(f):
        CHECKS[pid] = f
        RULES[pid] = rule
        return f
    return deco


STATE_RULE = ("states are drawn from a seeded mixture (uniform words; hostile words: 0, +-small, powers of two, limb and Montgomery "
              "extremes, roots of unity, constants occurring in the source; structured tuples; siblings of the previous case; earlier "
              "outputs; internal states with zeros or extremes at a random round pulled back to the input); distinct = distinct "
              "non-zero input states, counted by 64-bit key")


@prop("C01", "each evaluation is one hash_n call compared with the independent reference; " + STATE_RULE)
def c01(res):
    prebuild("full", "checked_nostd")
    monitor(res, "C01", "full", budget=20, thorough=900, min_evals=20000)
    monitor(res, "C01", "checked_nostd", budget=8, thorough=200, min_evals=2000, must=False)


@prop("C02", "each evaluation is one state put through both paths of a parameter set outside the shipped ones (widths 2-40, several round "
             "splits, S-boxes, matrix and constant families), compared word for word with the textbook permutation; " + STATE_RULE)
def c02(res):
    prebuild("full:gen", "checked_nostd:gen")
    monitor(res, "C02", "full:gen", budget=20, thorough=900, min_evals=10000)
    monitor(res, "C02", "checked_nostd:gen", budget=8, thorough=200, min_evals=1000, must=False)


@prop("C03", "each evaluation hashes one state on both paths and compares the element and all output words; " + STATE_RULE)
def c03(res):
    prebuild("full", "checked_nostd")
    monitor(res, "C03", "full", budget=18, thorough=700, min_evals=10000)
    monitor(res, "C03", "checked_nostd", budget=6, thorough=200, min_evals=1000, must=False)


@prop("C04", "each evaluation either inverts an observed output state with the reference inverse permutation or hashes one member of a family "
             "of related inputs (all members must differ); distinct = distinct inputs by 64-bit key")
def c04(res):
    prebuild("full", "checked_nostd")
    monitor(res, "C04", "full", budget=18, thorough=600, min_evals=10000)
    monitor(res, "C04", "checked_nostd", budget=6, thorough=150, min_evals=1000, must=False)


@prop("C05", "each evaluation is one hash operation inside a random history (several live instances, parameter clones, one-shot hashes, "
             "both paths, fed-back outputs, repeated inputs, chains of 66,000 calls on one instance, refused operations and unwinding in between, a third of "
             "the histories with every environment variable set and the clocks wrong); distinct = distinct (history, position, input)")
def c05(res):
    prebuild("full:hist", "checked_nostd")
    monitor(res, "C05", "full:hist", budget=20, thorough=700, min_evals=10000)
    monitor(res, "C05", "checked_nostd", budget=6, thorough=150, min_evals=1000, must=False, extra=["--arg", "short"])


@prop("C06", "each evaluation is one hash operation by one of 2-16 threads on shared parameter sets (same case at once, shifted, one rate, a rate "
             "per thread, random; instances handed between threads, hashes at the very end of a thread), compared with the reference value; fresh processes repeat the very first "
             "concurrent use; a ThreadSanitizer build repeats the workload; distinct = distinct prepared cases")
def c06(res):
    prebuild("full:conc", "tsan:conc", "full")
    try:
        exe = build("full:conc")
    except BuildFailed as x:
        if re.search(r"cannot be (shared|sent) between threads|E0277", x.err):
            build("full")  # the tree as such builds
            res.viol.append(dict(what="parameter sets cannot be shared or instances cannot be sent between threads: " + first_errors(x.err),
                                 case=x.err[-3000:], repro=dict(command="cargo build --features full,conc in /verif/harness")))
            res.evals += 1
            return
        raise
    monitor(res, "C06", "full:conc", budget=16, thorough=600, min_evals=10000)
    # the first uses in a process, again and again
    n = 1200 if TIER == "thorough" else 150
    d, _ = dictionary()
    agg = dict(evaluations=0, distinct=0, wall_s=0.0, counts={}, samples=[], notes=[], violations=[])
    seen = set()

    def first(i):
        out = os.path.join(TGT, "out-C06-first-%d-%d.json" % (i, os.getpid()))
        rc, o, s = run([exe, "C06", "--arg", "first", "--seed", str(SEED * 100000 + i), "--dict", d, "--out", out], 120)
        try:
            return i, rc, json.load(open(out)), s
        except (OSError, ValueError):
            return i, rc, None, s
        finally:
            if os.path.exists(out):
                os.remove(out)
    from concurrent.futures import ThreadPoolExecutor
    t = time.time()
    with ThreadPoolExecutor(2) as ex:
        for i, rc, j, s in ex.map(first, range(n)):
            if j is None:
                if rc is not None and rc < 0 and -rc in SIGNALS:
                    agg["violations"].append(dict(what="a fresh process was killed by signal %d" % -rc, case=s[-1500:], chunk=i))
                    continue
                raise Inconclusive("fresh process %d failed with %s: %s" % (i, rc, s[-300:]))
            agg["evaluations"] += j["evaluations"]
            seen.add(json.dumps(j["samples"]))
            for v in j["violations"]:
                v["chunk"] = i
                agg["violations"].append(v)
            if agg["violations"]:
                break
    agg.update(wall_s=round(time.time() - t, 2), counts=dict(fresh_processes=n, operations=agg["evaluations"]))
    for v in agg["violations"]:
        res.viol.append(dict(what=v["what"], case=v["case"], repro=dict(command=[exe, "C06", "--arg", "first", "--seed", str(SEED * 100000 + v["chunk"])])))
    res.add_run("fresh processes", agg)
    log("fresh processes: %d operations in %.1f s" % (agg["evaluations"], agg["wall_s"]))
    # ThreadSanitizer
    logp = os.path.join(TGT, "tsan-log-%d" % os.getpid())
    j = monitor(res, "C06", "tsan:conc", budget=20, thorough=600, must=False, min_evals=1000,
                e=env(TSAN_OPTIONS="halt_on_error=0 exitcode=0 report_thread_leaks=0 history_size=4 log_path=" + logp))
    reports = []
    for f in sorted(os.listdir(TGT)):
        if f.startswith(os.path.basename(logp)):
            txt = open(os.path.join(TGT, f), errors="replace").read()
            os.remove(os.path.join(TGT, f))
            reports += [r for r in txt.split("==================") if "WARNING: ThreadSanitizer" in r]
    ours = [r for r in reports if re.search(r"poseidon|decaf377", r)]
    if j is not None:
        res.counts["tsan:conc"]["tsan_reports"] = len(reports)
    else:
        res.notes.append("the ThreadSanitizer run was not available")
    for r in ours[:3]:
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", r)
        res.viol.append(dict(what="ThreadSanitizer: " + m.group(1).strip(), case=r[:3000], repro=dict(config="tsan", seed=SEED)))


@prop("C07", "each evaluation is one gadget call inside a random program of 1-3 chained gadgets (inputs: constants, witnesses, public inputs, linear "
             "combinations, shared variables, earlier outputs) or one general permutation gadget (widths 2-9, exponents 1 to 2^32-1): value "
             "compared with the native hash, system checked for satisfaction; distinct = distinct (call position, values)")
def c07(res):
    prebuild("full:gadgets", "checked:gadgets")
    monitor(res, "C07", "full:gadgets", budget=18, thorough=600, min_evals=2000)
    monitor(res, "C07", "checked:gadgets", budget=8, thorough=150, min_evals=300, must=False)


@prop("C08", "each evaluation takes one recorded constraint system and one input assignment, propagates through the constraints and, where a variable "
             "stays undetermined, tries deviating values with branching: the output must be forced to the native hash; distinct = distinct (system, inputs)")
def c08(res):
    monitor(res, "C08", "full:gadgets", budget=25, thorough=800, min_evals=1000)


@prop("C09", "each evaluation synthesises one gadget with other values or in another mode and compares all matrices (or the counts) with the first "
             "synthesis of the same allocation pattern; distinct = distinct (rate, values)")
def c09(res):
    prebuild("full:gadgets", "checked:gadgets")
    monitor(res, "C09", "full:gadgets", budget=18, thorough=500, min_evals=1000)
    monitor(res, "C09", "checked:gadgets", budget=6, thorough=100, min_evals=200, must=False)


@prop("C10", "each evaluation is one Groth16 verification under the committed keys: an honest proof (must verify), one of 8 alterations of its public "
             "outputs or a proof made for false outputs (must not verify), or one statement synthesised only: its circuit must be the keys' circuit and its honest "
             "assignment must satisfy it, otherwise it is put to the proof; distinct = distinct (pre-images, alteration)")
def c10(res):
    monitor(res, "C10", "full:gadgets", budget=35, thorough=900, min_evals=100)


@prop("C11", "each evaluation compares one stored constant (or one property of a table: canonical form, square submatrix invertibility) with an "
             "independent derivation (own Merlin transcript, Cauchy matrix, round-number search); distinct = distinct constants by 64-bit key")
def c11(res):
    prebuild("full", "nostd")
    monitor(res, "C11", "full", budget=5, thorough=60, min_evals=1000)
    monitor(res, "C11", "nostd", budget=5, thorough=60, min_evals=1000, must=False)


@prop("C12", "each evaluation compares one stored optimised constant with its value computed from the same rate's MDS matrix and round constants, or "
             "checks one identity (products, inverses); distinct = distinct constants by 64-bit key")
def c12(res):
    prebuild("full", "nostd")
    monitor(res, "C12", "full", budget=5, thorough=60, min_evals=1000)
    monitor(res, "C12", "nostd", budget=5, thorough=60, min_evals=1000, must=False)


MAT_RULE = ("matrices are drawn from families (uniform, hostile entries, small, singular of every rank, triangular, permutation, sparse, rank one, "
            "Cauchy, Vandermonde, nearly singular, zero pivots); distinct = distinct operands by 64-bit key")


def mat_check(pid, rule, quick=14):
    @prop(pid, rule + MAT_RULE)
    def f(res):
        prebuild("full:mat", "checked_nostd:mat")
        monitor(res, pid, "full:mat", budget=quick, thorough=500, min_evals=5000)
        monitor(res, pid, "checked_nostd:mat", budget=6, thorough=150, min_evals=500, must=False)


mat_check("C13", "each evaluation inverts one matrix of size 1-8: the result times the original must be the identity on both sides, or the no-inverse error "
                 "is returned exactly for reference determinant 0; ")
mat_check("C14", "each evaluation compares determinant, minors or cofactor signs of one matrix of size 1-8 with reference elimination; ")
mat_check("C15", "each evaluation compares one product, transpose, element-wise or scalar operation on one pair of shapes with the entry-wise definition; ")
mat_check("C16", "each evaluation is one accessor or update in a history on one matrix or wrapper compared with a plain list, or one construction with a "
                 "wrong length (must panic); ")


@prop("C20", "each evaluation runs the round-number generator of Poseidon or Poseidon2 for one security level, width, field size (2-760 bits, hostile around "
             "powers of two) and S-box, and compares its choice with an exhaustive search over the specification's inequalities; distinct = distinct inputs")
def c20(res):
    monitor(res, "C20", "pg", binary=pg(), budget=25, thorough=400, min_evals=2000)


@prop("C21", "each evaluation chooses an S-box exponent for one of 149 prime fields (2-753 bits; for every set of small primes dividing p-1), with or without "
             "permission to use the inverse, compares it with a derivation from recomputed shortest addition chains and undoes the S-box on sample values; "
             "distinct = distinct (field, permission)")
def c21(res):
    monitor(res, "C21", "pg", binary=pg(), budget=10, thorough=10, min_evals=290)


@prop("C22", "each evaluation generates round constants (Poseidon or Poseidon2) over one of 35 fields for one choice of level, width, round numbers and exponent "
             "and compares all of them with an independent transcript, or optimises constants for an arbitrary invertible matrix and compares the two "
             "permutations on sample states; distinct = distinct inputs")
def c22(res):
    exe = pg()
    ths = [threading.Thread(target=quietly, args=(lambda k=k: port_prepare(k),)) for k in PORT_TARGETS]
    [t.start() for t in ths]
    monitor(res, "C22", "pg", binary=exe, budget=25, thorough=400, min_evals=500)
    [t.join() for t in ths]
    if not res.viol:
        ported(res, exe)


@prop("C23", "each evaluation compares one descriptor operation (encoding, conversion, equality, accessor, update history) with a plain model; all "
             "exponents below 2^16, boundary and random 32-bit exponents; distinct = distinct (operation, value)")
def c23(res):
    th = threading.Thread(target=quietly, args=(lambda: miri_prepare("big"),))
    th.start()
    prebuild("full", "checked_nostd", "std64/wlrun")
    monitor(res, "C23", "full", budget=4, thorough=30, min_evals=100000)
    monitor(res, "C23", "checked_nostd", budget=3, thorough=20, min_evals=10000, must=False)
    # the encoding does not depend on the byte order of the machine: the same descriptors on a big-endian one
    th.join()
    if not res.viol:
        try:
            big_endian(res, [(k, 6, 1, 3, 16, 3) for k in range(31, 43 if TIER == "thorough" else 33)], build("std64/wlrun"), set())
        except Inconclusive as x:
            res.notes.append(str(x))


# ---------------------------------------------------------------- the workload program: builds, targets, sanitizers, interpreters
# merlin, the transcript of the generator, refuses to be compiled for big-endian targets
PORT_TARGETS = {"i686-unknown-linux-gnu": "a 32-bit target"}


def port_env(t):
    return env(CARGO_TARGET_DIR=os.path.join(TGT, "miri-pg-" + t), MIRI_SYSROOT=os.path.join(TGT, "miri-sysroot-" + t), **NIGHTLY)


def port_cmd(t):
    return ["cargo", "miri", "run", "--quiet", "--offline", "--locked", "--target", t, "--bin", "port", "--"]


def port_prepare(t):
    """Sysroot and a first run of the generator on another target."""
    pg()
    e = port_env(t)
    with _lock:
        lk = _cfg_locks.setdefault(e["MIRI_SYSROOT"], threading.Lock())
    with lk:
        rc, o, s = run(["cargo", "miri", "setup", "--target", t], 600, cwd=os.path.join(VERIF, "pg"), e=e)
    if rc != 0:
        raise Inconclusive("miri setup failed: " + s[-300:])
    freshen(e["CARGO_TARGET_DIR"])
    rc, o, s = run(port_cmd(t) + ["0", "0"], 800, cwd=os.path.join(VERIF, "pg"), e=e)
    if rc != 0 or "done" not in o:
        raise BuildFailed("generator on " + t, rc, s)


def ported(res, exe):
    """The generator's constants and exponents on other targets (under Miri) against the host's, which are compared with the reference."""
    thorough = TIER == "thorough"
    exe = os.path.join(os.path.dirname(exe), "port")
    jobs = [(t, SEED * 4 % 64 + 4 * j, 4) for t in PORT_TARGETS for j in range(8 if thorough else 2)]

    def one(j):
        t, first, n = j
        return j, run(port_cmd(t) + [str(first), str(n)], 3000 if thorough else 400, cwd=os.path.join(VERIF, "pg"), e=port_env(t)), run([exe, str(first), str(n)], 60)
    n = 0
    for (t, first, count), (rc, o, s), (rc0, o0, s0) in pool_map(8, one, jobs):
        if rc is None or (rc != 0 and not re.search(r"panicked at|Undefined Behavior", s)) or rc0 != 0:
            res.notes.append("generator on %s gave no result (%s): %s" % (t, rc, s[-200:]))
            continue
        if rc != 0:
            res.viol.append(dict(what="the generator stopped on %s (%s) where the host did not" % (PORT_TARGETS[t], t), case=s[-2000:], repro=dict(miri=t, args=[first, count])))
            continue
        for a, b in zip(o.splitlines(), o0.splitlines()):
            res.evals += 1
            n += 1
            if a != b:
                res.viol.append(dict(what="the generated constants depend on the platform: %s differs from the host" % PORT_TARGETS[t], case="host: %s; %s: %s" % (b, t, a),
                                     repro=dict(miri=t, args=[first, count])))
    res.counts["generator on other targets"] = dict(lines_compared=n)


def quietly(f):
    try:
        return f()
    except Inconclusive as x:
        log(str(x))


def records(n, seed=None):
    """A file of hostile states and matrices for the workload program."""
    exe = build("full")
    out = os.path.join(TGT, "records-%d.bin" % os.getpid())
    d, _ = dictionary()
    rc, o, s = run([exe, "dump", "--n", str(n), "--seed", str(SEED if seed is None else seed), "--dict", d, "--out", out], 300)
    if rc != 0:
        raise Inconclusive("no records: %s" % s[-300:])
    data = open(out, "rb").read()
    os.remove(out)
    return data


def run_in(exe, args, data=b"", timeout=600, e=None, cwd=VERIF):
    """Run a program on bytes; returns (rc, text, stderr)."""
    p = subprocess.Popen([exe] + [str(a) for a in args] if isinstance(exe, str) else exe + [str(a) for a in args], cwd=cwd, env=e or env(),
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, s = p.communicate(data, timeout=timeout)
        return p.returncode, o.decode(errors="replace"), s.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, s = p.communicate()
        return None, o.decode(errors="replace"), s.decode(errors="replace")


def split_records(data, lo, hi):
    """Records lo..hi of a record file."""
    pos, k, a = 0, 0, None
    while pos < len(data):
        if k == lo:
            a = pos
        if k == hi:
            return data[a:pos]
        t = data[pos]
        pos += 1 + 32 * (t + 1 if t < 8 else 2 * (t - 16) ** 2)
        k += 1
    return data[a:pos] if a is not None else b""


def combo_names():
    txt = open(os.path.join(VERIF, "combo", "Cargo.toml")).read()
    return re.findall(r"^(\w+) = ", txt.split("# the combinations")[1].split("[profile")[0], re.M)


def combos():
    """Build and run every feature combination; returns {name: (built, stderr, exit status, output)}."""
    names = combo_names()
    out = {}

    def lane(k):
        tgt = os.path.join(TGT, "combo%d" % k)
        freshen(tgt)
        for n in names[k::COMBO_LANES]:
            rc, o, s = cargo("combo", ["--features", n], e=env(CARGO_TARGET_DIR=tgt))
            if rc != 0:
                out[n] = (False, s, None, "")
                continue
            rc, o, s = run_in([os.path.join(tgt, "debug", "combo")], [], timeout=300)
            out[n] = (True, s, rc, o)
    pool_map(COMBO_LANES, lane, range(COMBO_LANES))
    log("built and ran %d feature combinations" % len(names))
    return out


COMBO_LANES = 3
MIRI_FLAGS = "-Zmiri-symbolic-alignment-check -Zmiri-strict-provenance"


def miri_env(kind, **kw):
    t = MIRI_TARGETS[kind]
    if kind == "plain":
        kw.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false")
    return env(CARGO_TARGET_DIR=os.path.join(TGT, "miri-" + kind), MIRI_SYSROOT=os.path.join(TGT, "miri-sysroot-" + t), MIRIFLAGS=MIRI_FLAGS, **NIGHTLY, **kw)


def miri_cmd(kind, feats, bin):
    feats = ",".join(x for x in (feats, "few" if kind in _few else "") if x)
    return ["cargo", "miri", "run", "--quiet", "--offline", "--locked", "--target", MIRI_TARGETS[kind], "--bin", bin] + (["--features", feats] if feats else []) + ["--"]


def miri_prepare(kind, feats=None, bin=None):
    """Sysroot and a first run, so that later runs only interpret."""
    e = miri_env(kind)
    feats, bin = (feats, bin) if bin else (("", "wlrun") if kind == "big" else ("std64", "wlub"))
    with _lock:
        lk = _cfg_locks.setdefault(e["MIRI_SYSROOT"], threading.Lock())
    with lk:
        rc, o, s = run(["cargo", "miri", "setup", "--target", MIRI_TARGETS[kind]], 600, cwd=os.path.join(VERIF, "wl"), e=e)
    if rc != 0:
        raise Inconclusive("miri setup failed: " + s[-300:])
    freshen(e["CARGO_TARGET_DIR"])
    if feats == "std64" and changed_fields(run(miri_cmd(kind, feats, bin) + ["1"] * 5 + ["0", "0"], 800, cwd=os.path.join(VERIF, "wl"), e=e)[2]):
        _few.add(kind)
    rc, o, s = run(miri_cmd(kind, feats, bin) + "1 1 1 2 16 1 0".split()[:7 if bin == "wlub" else 6], 800, cwd=os.path.join(VERIF, "wl"), e=e)
    if rc != 0 or "done" not in o:
        raise BuildFailed("miri " + kind, rc, s)


def pool_map(n, f, items):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))


PART_NAMES = {1: "hash", 2: "permutation", 4: "parameters", 8: "matrix", 16: "descriptors", 32: "general", 64: "small", 128: "wide", 256: "many"}


def digests(txt):
    """{(part, repetition): (digest, events, operations)} from a report."""
    out = {}
    for l in txt.splitlines():
        f = l.split()
        if len(f) == 5 and f[0] in PART_NAMES.values():
            out[(f[0], f[1])] = (f[2], int(f[3]), int(f[4]))
    return out


def big_endian(res, jobs, exe, blocks):
    """The workload under Miri for a big-endian 64-bit target, compared with a native run; returns the number of operations."""
    thorough = TIER == "thorough"

    def big(j):
        a = (SEED * 1000 + j[0],) + j[1:]
        t = time.time()
        r = run_in(miri_cmd("big", "", "wlrun"), a, timeout=3000 if thorough else 500, e=miri_env("big"), cwd=os.path.join(VERIF, "wl"))
        if time.time() - t > 30:
            log("big-endian workload %s took %.1f s" % (a, time.time() - t))
        return a, r, run_in(exe, a)
    n_big = 0
    for a, (rc, o, s), (rc0, o0, s0) in pool_map(8, big, jobs):
        if rc is None or (rc != 0 and not re.search(r"panicked at|Undefined Behavior", s)):
            res.notes.append("big-endian run %s gave no result (%s): %s" % (a, rc, s[-200:]))
            continue
        if rc != 0:
            res.viol.append(dict(what="the big-endian 64-bit target stopped where the default build did not", case=s[-2000:], repro=dict(miri=MIRI_TARGETS["big"], args=a)))
            continue
        x, y = digests(o), digests(o0)
        n_big += sum(v[2] for v in x.values())
        for k in x:
            res.evals += 1
            blocks.add((k, x[k][0]))
            if x[k] != y.get(k):
                res.viol.append(dict(what="results of part %s differ between the default build and the big-endian 64-bit target" % k[0], case="workload %s" % (a,),
                                     repro=dict(miri=MIRI_TARGETS["big"], args=a, default=y.get(k), other=x[k])))
    res.counts["s390x under Miri"] = dict(operations=n_big)
    return n_big


@prop("C17", "each evaluation is one result block (a part of the workload, or one record of hostile states and matrices) whose digest in one build, target or "
             "interpreter is compared with the digest of the default build; or one result line of a feature combination's program; distinct = distinct result blocks and lines")
def c17(res):
    builds = WL["wlrun"]
    combo_res = []
    ths = [threading.Thread(target=quietly, args=(f,)) for f in (lambda: miri_prepare("big"), lambda: build("full"), lambda: combo_res.append(combos()))]
    [t.start() for t in ths]
    got = {}

    def bld(n):
        try:
            got[n] = build(n)
        except BuildFailed as x:
            got[n] = x
    pool_map(6, bld, [b + "/wlrun" for b in builds] + ["free32/wlfree", "free64/wlfree"])
    [t.join() for t in ths]
    combo = combo_res[0]
    ok = [n for n in got if isinstance(got[n], str)]
    if "std64/wlrun" not in ok:
        raise got["std64/wlrun"]
    # every combination builds
    for n, (good, s, rc, o) in sorted(combo.items()):
        res.evals += 1
        if not good:
            if repo_error(s) or "error: failed to select" in s or "does not have" in s or "depends on" in s:
                res.viol.append(dict(what="feature combination %s does not build: %s" % (n, first_errors(s)), case=s[-3000:],
                                     repro=dict(command="cargo build --offline --locked --features %s in /verif/combo" % n)))
            else:
                res.notes.append("combination %s could not be checked: %s" % (n, first_errors(s)))
    for n, x in sorted(got.items()):
        if not isinstance(x, str):
            if repo_error(x.err):
                res.viol.append(dict(what="%s does not build: %s" % (desc(n.replace("/", ":")), first_errors(x.err)), case=x.err[-3000:], repro=dict(build=n)))
            else:
                res.notes.append(str(x))
    # and computes the same
    first, lines = {}, 0
    for n in sorted(combo, key=lambda n: (n != "hash_default", n)):
        good, s, rc, o = combo[n]
        if not good:
            continue
        where = "feature combination %s" % n
        for l in o.splitlines():
            k = tuple(l.split()[:2])
            lines += 1
            res.evals += 1
            m = first.setdefault(k, (n, l))
            if m[1] != l:
                res.viol.append(dict(what="result %s differs between the feature combinations %s and %s" % (" ".join(k), m[0], n), case="%s: %s\n%s: %s" % (m[0], m[1], n, l),
                                     repro=dict(command="cargo run --offline --locked --features %s in /verif/combo" % n)))
                break
        if rc != 0 or not o.endswith("done\n"):
            if rc in (-6, -11, -8, -4, 101, 134, 139) and any(x[2] == 0 for x in combo.values()):
                res.viol.append(dict(what="%s stopped with status %s" % (where, rc), case=o[-300:] + s[-1500:], repro=dict(command="cargo run --offline --locked --features %s in /verif/combo" % n)))
            else:
                res.notes.append("%s ended with %s" % (where, rc))
    res.distinct += len(first)
    res.counts["feature combinations"] = dict(listed=len(combo), built=sum(1 for x in combo.values() if x[0]), result_lines_compared=lines)
    # the same executions everywhere
    thorough = TIER == "thorough"
    reps, n = (400, 4) if thorough else (12, 3)
    args = [SEED, n, 7, 6, 447, reps]
    data = records(60000 if thorough else 2000)
    little = ["std64/wlrun"] + [x for x in ok if x != "std64/wlrun"]
    t = time.time()

    def one(job):
        name, kind = job
        exe = got[name]
        slow = name.startswith("debug")
        if kind == "report":
            return run_in(exe, args if not slow else [SEED, n, 7, 6, 191, max(1, reps // 12)], timeout=800)
        return run_in(exe, [], split_records(data, 0, 200 if not thorough else 4000) if slow else data, timeout=800)
    jobs = [(x, k) for x in little for k in ("report", "records")]
    outs = dict(zip(jobs, pool_map(8, one, jobs)))
    base = outs[("std64/wlrun", "report")], outs[("std64/wlrun", "records")]
    for rc, o, s in base:
        if rc != 0 or not o.endswith("done\n"):
            res.viol.append(dict(what="the default build stopped with status %s" % rc, case=(o[-300:] + s[-1500:]), repro=dict(build="std64", args=args))) if rc in (-6, -11, 101, 134) else None
            if not res.viol:
                raise Inconclusive("the default build failed with %s: %s" % (rc, s[-300:]))
            return
    want = digests(base[0][1])
    wrec = base[1][1].splitlines()
    blocks = set()

    def compare(name, what, rc, o, s, nrec=None):
        where = "%s (%s)" % (desc(name.replace("/", ":")), name)
        if rc is None:
            res.notes.append("%s timed out" % where)
            return
        if what == "records":
            mine = o.splitlines()
            for i, l in enumerate(mine):
                if l == "done":
                    break
                res.evals += 1
                if i < len(wrec) and l != wrec[i]:
                    res.viol.append(dict(what="results differ between the default build and %s" % where, case="record %d: %s" % (i, split_records(data, i, i + 1).hex()),
                                         repro=dict(program=[got[name]] if name in got else name, record=split_records(data, i, i + 1).hex(), default=wrec[i], other=l)))
                    return
        else:
            mine = digests(o)
            for k, v in mine.items():
                blocks.add((k, v[0]))
                res.evals += 1
                if k in want and want[k] != v:
                    res.viol.append(dict(what="results of part %s differ between the default build and %s" % (k[0], where), case=first_difference(got, name, args, k),
                                         repro=dict(program=name, args=args, part=k, default=want[k], other=v)))
                    return
        if rc != 0 or not o.endswith("done\n"):
            if rc in (-6, -11, -8, -4, 101, 96, 134, 139):
                res.viol.append(dict(what="%s stopped with status %s where the default build did not" % (where, rc), case=(o[-300:] + " " + s[-1500:]), repro=dict(program=name, args=args)))
            else:
                res.notes.append("%s failed with %s: %s" % (where, rc, s[-200:]))
    for (name, what), (rc, o, s) in outs.items():
        compare(name, what, rc, o, s)
        res.counts.setdefault(name, {})[what] = len(o.splitlines())
    wall = round(time.time() - t, 1)
    # a big-endian target, interpreted
    t = time.time()
    jobs = [(1, 1, 2, 3, 1, 1), (2, 1, 1, 3, 2, 1), (3, 1, 1, 3, 4, 1), (4, 1, 1, 3, 8, 1), (5, 1, 1, 3, 64, 1), (6, 2, 1, 3, 16, 2)]
    if thorough:
        jobs += [(11, 1, 7, 3, 1, 1), (12, 1, 5, 3, 2, 1), (13, 1, 4, 3, 4, 1), (14, 1, 1, 5, 8, 1), (15, 1, 1, 3, 32, 1), (16, 20, 1, 3, 16, 3)]
        jobs += [(100 + k, 1, 3, 4, b, 2) for k, b in enumerate([1, 2, 8, 1, 8, 2, 64])]
    n_big = big_endian(res, jobs, got["std64/wlrun"], blocks)
    log("big-endian: %d operations in %.1f s" % (n_big, time.time() - t))
    res.distinct += len(blocks) + len(set(wrec))
    res.runs.append(dict(run="digest comparison of %d builds" % len(little), evaluations=res.evals, distinct=res.distinct, wall_s=wall))
    res.samples.append("part and digest of the default build: %s" % sorted(want.items())[:3])
    res.samples.append("record digests of the default build: %s" % wrec[:3])
    if not res.viol and (n_big < 50 or len(ok) < len(got)):
        res.notes.append("some targets were not available: %s" % sorted(set(got) - set(ok)))
    if not res.viol and res.evals < 2000:
        raise Inconclusive("only %d comparisons" % res.evals)


def first_difference(got, name, args, key):
    a = [args[0] + 1000 * int(key[1])] + args[1:4] + [next(k for k, v in PART_NAMES.items() if v == key[0]), 1]
    if not name.endswith("wlrun"):
        return "workload %s, part %s, seed %d" % (name, key[0], a[0])
    x = run_in(got["std64/wlrun"], ["trace"] + a)[1].splitlines()
    y = run_in(got[name], ["trace"] + a)[1].splitlines()
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return "workload %s, event %d: default %s, other %s" % (a, i, p[:200], q[:200])
    return "workload %s: %d and %d events" % (a, len(x), len(y))


@prop("C18", "each evaluation is one operation (hash, permutation, matrix, parameter access) run with a counting allocator armed and, from before the first use, "
             "under strict seccomp, where any system call but read, write and exit is fatal; the same in programs linked without std, libc or startup code; "
             "distinct = distinct results")
def c18(res):
    got = {}

    def bld(n):
        try:
            got[n] = build(n)
        except BuildFailed as x:
            got[n] = x
    pool_map(8, bld, ["std64/wlsec", "nostd/wlsec", "debug/wlsec", "free64/wlfree", "free32/wlfree", "full"])
    for n in ("free64/wlfree", "free32/wlfree"):
        x = got[n]
        if not isinstance(x, str):
            if repo_error(x.err):
                res.viol.append(dict(what="the crates do not build without the standard library: %s" % first_errors(x.err), case=x.err[-3000:], repro=dict(build=n)))
            else:
                res.notes.append(str(x))
    if not isinstance(got["debug/wlsec"], str):
        res.notes.append(str(got["debug/wlsec"]))
    for n in ("std64/wlsec", "nostd/wlsec"):
        if not isinstance(got[n], str):
            if res.viol:
                return
            raise got[n]
    thorough = TIER == "thorough"
    # the monitors see what they claim to see
    rc, o, s = run_in(got["nostd/wlsec"], [1, 1, 1, 1, 1, 1, 1])
    if rc not in (-9, -31) or "strict\n" not in o:
        raise Inconclusive("self-test: a system call under the seccomp filter was not fatal (%s %s)" % (rc, o[:100]))
    rc, o, s = run_in(got["nostd/wlsec"], [1, 1, 1, 1, 1, 1, 3])
    if rc not in (-9, -31):
        raise Inconclusive("self-test: a message on standard error was not fatal (%s %s)" % (rc, o[:100]))
    rc, o, s = run_in(got["nostd/wlsec"], [1, 1, 1, 1, 1, 1, 4])
    if rc != 0 or "getenv first probe" not in o:
        raise Inconclusive("self-test: reading the environment was not counted (%s %s)" % (rc, o[:100]))
    rc, o, s = run_in(got["nostd/wlsec"], [1, 1, 1, 1, 1, 1, 2])
    if rc != 0 or "first probe" not in o:
        raise Inconclusive("self-test: an allocation was not counted (%s %s)" % (rc, o[:100]))
    data = records(40000 if thorough else 3000)
    runs = [(n, [SEED + 5 * i, 4, 7, 6, 447, (300 if thorough else 15) // (15 if n == "debug/wlsec" else 1)]) for i, n in enumerate(got) if n != "full" and isinstance(got[n], str)]
    runs += [(n, []) for n in got if n.endswith("wlsec") and isinstance(got[n], str)]
    # each part alone, so that its very first use in a process is under observation too
    runs += [(n, [SEED + 9, 1, 7, 6, b, 1]) for n in ("std64/wlsec", "nostd/wlsec") for b in PART_NAMES]

    def one(j):
        n, a = j
        return j, run_in(got[n], a, data if not a else b"", timeout=800)
    seen = set()
    for (n, a), (rc, o, s) in pool_map(8, one, runs):
        where = "%s, workload %s" % (desc(n.replace("/", ":")), a or "records")
        if rc is None:
            res.notes.append("%s timed out" % where)
            continue
        if "nostrict" in o:
            res.notes.append("%s: seccomp was not available" % where)
        for l in o.splitlines():
            if l.startswith("ALLOCATIONS"):
                f = l.split()
                res.viol.append(dict(what="%s allocated heap memory" % l.split(" first ")[1], case="%s: %s" % (where, l), repro=dict(program=n, args=a, line=l)))
                break
            if l.startswith("SERVICES"):
                f = l.split()
                res.viol.append(dict(what="%s used the C library's %s" % (l.split(" first ")[1], f[2]), case="%s: %s" % (where, l), repro=dict(program=n, args=a, line=l)))
                break
        if rc in (-9, -31):
            rc2, o2, s2 = run_in(got[n], a, data if not a else b"", timeout=800)
            if rc2 == rc and "done" not in o2:
                last = ([l for l in o2.splitlines()] or ["none"])[-1]
                res.viol.append(dict(what="the process was killed for a system call during native operations", case="%s; last output: %s" % (where, last), repro=dict(program=n, args=a)))
            continue
        if rc == 96 or rc == 101:
            res.notes.append("%s panicked: %s" % (where, o[-200:]))
        elif rc != 0 or not o.endswith("done\n"):
            res.notes.append("%s failed with %s" % (where, rc))
        ops = sum(v[2] for v in digests(o).values())
        m = re.search(r"records (\d+) ops (\d+)", o)
        if m:
            ops += int(m.group(2))
            seen |= {("record", i) for i in range(int(m.group(1)))}
        seen |= {v[0] for v in digests(o).values()}
        res.evals += ops
        c = res.counts.setdefault(n, dict(operations=0, processes=0))
        c["operations"] += ops
        c["processes"] += 1
    res.distinct = len(seen)
    res.runs.append(dict(run="counted and confined workloads", evaluations=res.evals, distinct=res.distinct, wall_s=round(time.time() - T0, 1)))
    res.samples.append("operations observed per program: %s" % {k: v["operations"] for k, v in res.counts.items()})
    if not res.viol and res.evals < 20000:
        raise Inconclusive("only %d operations were observed: %s" % (res.evals, res.notes[:3]))


UB_TEXT = re.compile(r"ERROR: AddressSanitizer|WARNING: MemorySanitizer|Undefined Behavior|unsafe precondition|misaligned pointer dereference|null pointer dereference|"
                     r"runtime error:|trying to construct an enum|attempt to (?:add|subtract|multiply|negate|divide|shift|calculate|compute)")


@prop("C19", "each evaluation is one operation (valid, or one that must be refused and is caught) executed in a sanitizer build (AddressSanitizer, "
             "MemorySanitizer), in an overflow- and precondition-checked build, or interpreted by Miri; only reports of undefined behaviour, memory errors and "
             "arithmetic overflow count; distinct = distinct workloads (seed, part, build)")
def c19(res):
    got = {}

    def bld(n):
        try:
            got[n] = build(n)
        except BuildFailed as x:
            got[n] = x
    ths = [threading.Thread(target=quietly, args=(lambda k=k: miri_prepare(k),)) for k in ("host", "plain")]
    [th.start() for th in ths]
    pool_map(8, bld, ["full"] + [c + "/wlub" for c in WL["wlub"]] + ["asan:gadgets"])
    [th.join() for th in ths]
    if not isinstance(got["full"], str):
        raise got["full"]
    if not any(isinstance(got[c + "/wlub"], str) for c in WL["wlub"]):
        raise got["checked/wlub"]
    thorough = TIER == "thorough"
    data = records(60000 if thorough else 3000)
    e = env(ASAN_OPTIONS="detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0:exitcode=77", MSAN_OPTIONS="exitcode=77")
    jobs = []
    for c in WL["wlub"]:
        n = c + "/wlub"
        if not isinstance(got[n], str):
            res.notes.append(str(got[n]))
            continue
        for k in range(8 if thorough else 1):
            jobs.append((n, [got[n]], [SEED + 50 * k, 3, 7, 6, 63, 40 if thorough else 4, 12], b"", e, VERIF))
        jobs.append((n, [got[n]], [], data, e, VERIF))
    mi = [(1, 1, 6, 1, 1, 1, 0), (2, 1, 3, 1, 2, 1, 0), (3, 1, 2, 1, 4, 1, 0), (4, 1, 1, 3, 8, 1, 0), (5, 1, 1, 1, 64, 1, 0), (7, 2, 1, 1, 16, 2, 0)]
    mi += [(20 + k, 1, 1, 1, 0, 1, 1, m) for k, m in enumerate((1, 2, 4, 8, 48))]
    if thorough:
        mi += [(11, 2, 7, 1, 1, 1, 0), (12, 1, 7, 1, 2, 1, 0), (13, 1, 7, 1, 4, 1, 0), (14, 2, 1, 5, 8, 1, 0), (15, 1, 1, 1, 32, 1, 0), (16, 1, 1, 4, 16, 1, 2), (17, 1, 1, 6, 8, 1, 0)]
    for a in mi:
        jobs.append(("miri", miri_cmd("host", "std64", "wlub"), (SEED * 100 + a[0],) + a[1:], b"", miri_env("host"), os.path.join(VERIF, "wl")))
    # without the assertions that would stop a wrong access before it happens
    mp = [(40 + k, 1, 1, 1, 0, 1, 1, m) for k, m in enumerate((1, 2, 4, 8, 48))] + [(46, 1, 1, 1, 1, 1, 0), (47, 1, 1, 2, 8, 1, 0)]
    if thorough:
        mp += [(51, 1, 7, 1, 1, 1, 0), (52, 1, 3, 1, 2, 1, 0), (53, 1, 2, 1, 4, 1, 0), (54, 1, 1, 4, 8, 1, 2), (55, 1, 1, 4, 0, 2, 3, 63)]
    for a in mp:
        jobs.append(("miri-plain", miri_cmd("plain", "std64", "wlub"), (SEED * 100 + a[0],) + a[1:], b"", miri_env("plain"), os.path.join(VERIF, "wl")))
    jobs.sort(key=lambda j: not j[0].startswith("miri"))

    def one(j):
        t = time.time()
        r = run_in(j[1], j[2], j[3], timeout=3000 if thorough else 400, e=j[4], cwd=j[5])
        return j, r, time.time() - t
    seen = set()
    for (n, exe, a, d, _, _), (rc, o, s), wall in pool_map(8, one, jobs):
        where = "%s, workload %s" % ({"miri": "Miri", "miri-plain": "Miri without debug assertions"}.get(n) or desc(n.replace("/", ":")), list(a) or "records")
        if wall > 30:
            log("%s took %.1f s" % (where, wall))
        both = o + "\n" + s
        m = UB_TEXT.search(both)
        if m:
            i = max(0, m.start() - 100)
            line = both[m.start():].splitlines()[0]
            res.viol.append(dict(what=line[:300], case="%s: %s" % (where, both[i:i + 2500]), repro=dict(program=exe, args=list(a), records=bool(d))))
        elif rc is not None and (rc < 0 and -rc in SIGNALS or rc in (77, 134, 139)):
            res.viol.append(dict(what="the process was killed (status %s)" % rc, case="%s: %s" % (where, both[-1500:]), repro=dict(program=exe, args=list(a))))
        elif rc is None:
            res.notes.append("%s timed out" % where)
            continue
        elif rc != 0:
            res.notes.append("%s ended with %s: %s" % (where, rc, s[-300:]))
        m = re.search(r"ops (\d+) panics (\d+)", o)
        if m and "done" in o:
            c = res.counts.setdefault(n, dict(operations=0, refused_operations=0, workloads=0))
            c["operations"] += int(m.group(1))
            c["refused_operations"] += int(m.group(2))
            c["workloads"] += 1
            res.evals += int(m.group(1)) + int(m.group(2))
            seen.add((n, tuple(a)))
    log("%d operations in sanitizer builds and Miri" % res.evals)
    # circuits under AddressSanitizer: only its reports (and overflows) count here
    if isinstance(got.get("asan:gadgets"), str):
        sub = Result()
        monitor(sub, "C07", "asan:gadgets", budget=8, thorough=200, must=False, min_evals=1, e=e, label="asan gadgets")
        for v in sub.viol:
            t = v["what"] + " " + str(v["case"])
            if UB_TEXT.search(t) or "killed by signal" in v["what"]:
                res.viol.append(v)
        res.evals += sub.evals
        res.counts["asan:gadgets"] = dict(gadget_calls=sub.evals)
        seen.add("asan:gadgets")
    else:
        res.notes.append(str(got.get("asan:gadgets")))
    res.distinct = len(seen)
    res.runs.append(dict(run="sanitizer builds, checked builds and Miri", evaluations=res.evals, distinct=res.distinct, wall_s=round(time.time() - T0, 1)))
    res.samples.append("operations observed per build: %s" % {k: v.get("operations", v.get("gadget_calls")) for k, v in res.counts.items()})
    if not res.viol and (res.evals < 10000 or res.distinct < 8):
        raise Inconclusive("only %d operations in %d workloads were observed: %s" % (res.evals, res.distinct, res.notes[:3]))


# ---------------------------------------------------------------- verdict
def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) sig=(.*?) \|\| (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        rc, o, s = run(["cargo", "--version"], 60)
        print("cargo: %s; %d checks; every check builds from /repo's working tree" % (o.strip(), len(CHECKS)))
        if rc == 0:
            cfgs = sorted({n.split(":")[0] for n in BINARIES})
            byc = {c: [n for n in BINARIES if n.split(":")[0] == c] for c in cfgs}
            for b, cs in WL.items():
                for c in cs:
                    byc.setdefault(c, []).append(c + "/" + b)
            ts = [threading.Thread(target=lambda ns=ns: [prebuild(n) for n in ns]) for ns in byc.values()]
            ts += [threading.Thread(target=quietly, args=(f,)) for f in (combos, pg, *[lambda k=k: miri_prepare(k) for k in MIRI_TARGETS], *[lambda k=k: port_prepare(k) for k in PORT_TARGETS])]
            [t.start() for t in ts]
            [t.join() for t in ts]
        return 0 if rc == 0 else 2
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py <property>; known: %s" % " ".join(sorted(CHECKS)))
        return 2
    pid = sys.argv[1]
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == pid), "exploration")
    fresh = not os.path.isdir(TGT)
    res = Result()
    inconclusive = None
    try:
        CHECKS[pid](res)
    except Inconclusive as x:
        inconclusive = str(x)
    viol = []
    for v in res.viol:
        k = [t for sig, t in known_findings(pid) if sig in v["what"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
        else:
            viol.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level,
              coverage=dict(evaluations=res.evals, distinct_nontrivial=res.distinct, rule=RULES[pid],
                            samples=(res.samples or ["none"])[:8], runs=res.runs, observed=res.counts),
              assumptions=res.assumptions, wall_s=round(time.time() - T0, 2), violations=len(viol))
    if res.notes:
        ev["coverage"]["notes"] = res.notes[:20]
    if inconclusive:
        ev["coverage"]["inconclusive"] = inconclusive
    ev["coverage"]["built_from_scratch"] = fresh
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d-%s.json" % (pid, SEED, hashlib.sha256(viol[0]["what"].encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, violations=viol, inconclusive=inconclusive), f, indent=1)
        print("%s: %s" % (pid, viol[0]["what"][:600]))
        print("  case: %s" % str(viol[0]["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s %s" % (pid, inconclusive))
        return 2
    print("HELD property=%s on %d evaluations (%d distinct) in %.1f s" % (pid, res.evals, res.distinct, time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
