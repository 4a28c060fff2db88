#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py ID [quick|thorough]     decide a property; the tier defaults to $VERIF_TIER or quick
  check.py replay FILE             rebuild and repeat the observation of a VIOLATION line

Exit 0: held on everything observed. Exit 1: violated ("VIOLATION property=ID replay=PATH").
Exit 2: no verdict (a build of the harness, a tool, memory or time failed); never a violation.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(V, "target")
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "MIRI", "RUSTDOC")) or k == "CARGO_HOME"}
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", LC_ALL="C")
ENV["XDG_CACHE_HOME"] = os.path.join(TARGET, "xdg")  # Miri keeps its sysroots here


class NoVerdict(Exception):
    pass


class BuildError(Exception):
    def __init__(self, name, log):
        self.name, self.log = name, log
        m = re.findall(r"could not compile `([^`]+)`", log)
        self.crate = m[0] if m else None


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None, pass_fds=(), stdin=None):
    """rc (None on a time limit), stdout, stderr; ends the whole process group on a time limit"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=stdin or subprocess.DEVNULL,
                         env=env or ENV, cwd=cwd, start_new_session=True, pass_fds=pass_fds)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")


# ------------------------------------------------------------------------------------------ builds
def cargo_build(name, crate, profile, features=None, no_default=False, rustflags="", toolchain=None, target=None, extra=(), env=None, binary=None, own=None):
    """Builds a crate of /verif against /repo as it is now; path of the program."""
    tdir = os.path.join(TARGET, name, own) if own else os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sub = {"dev": "debug", "o0": "o0"}.get(profile, profile)
        base = os.path.join(tdir, target, sub) if target else os.path.join(tdir, sub)
        # cargo goes by modification times; without its fingerprints the crate is always compiled
        for f in glob.glob(os.path.join(base, ".fingerprint", "crypto-pure-*")):
            shutil.rmtree(f, ignore_errors=True)
        cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--profile", profile, "--target-dir", tdir]
        if target:
            cmd += ["--target", target]
        if no_default:
            cmd += ["--no-default-features"]
        if features:
            cmd += ["--features", features]
        cmd += list(extra)
        e = dict(ENV, RUSTFLAGS=rustflags, **(env or {}))
        rc, o, err = run(cmd, 600, e, os.path.join(V, crate))
        if rc is None:
            raise NoVerdict(f"building {name} took too long")
        if rc != 0:
            raise BuildError(name, err)
        return os.path.join(base, binary)


HOOKS = "--cfg crypto_pure_verif"
STATE = "--cfg crypto_pure_verif_state"


def cpmon(variant):
    """Builds a variant of the monitored program; (path, whether with hooks)."""
    spec = {
        "rel": dict(profile="release", hooks=True),
        "chk": dict(profile="chk", hooks=True),
        "o0": dict(profile="o0"),
        "nostd": dict(profile="release", no_default=True),
        "asan": dict(profile="chk", hooks=True, rustflags="-Zsanitizer=address", toolchain="nightly", target=HOST),
        "tsan": dict(profile="release", rustflags="-Zsanitizer=thread", toolchain="nightly", target=HOST, extra=["-Zbuild-std"]),
    }[variant]
    hooks = spec.pop("hooks", False)
    rf = spec.pop("rustflags", "")
    if hooks:
        # internals may have been renamed, say: then what still builds of the hooks, or the public interface alone
        for feat, flags in (("hooks,state", f"{HOOKS} {STATE}"), ("hooks", HOOKS), ("state", STATE)):
            try:
                return cargo_build("cpmon-" + variant, "harness", features=feat, rustflags=(rf + " " + flags).strip(), binary="cpmon", **spec), feat
            except BuildError:
                pass
    return cargo_build("cpmon-" + variant, "harness", rustflags=rf, binary="cpmon", **spec), False


def parallel(jobs, workers=4):
    """{name: result or exception} of {name: callable}"""
    out = {}
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = {ex.submit(f): n for n, f in jobs.items()}
        for f in cf.as_completed(fs):
            try:
                out[fs[f]] = f.result()
            except Exception as e:
                out[fs[f]] = e
    return out


# ---------------------------------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol, self.machinery, self.notes = [], [], []
        self.samples, self.variants = [], {}
        self.evals, self.distinct, self.rule = 0, 0, ""
        self.assume = []

    def violation(self, msg, replay, desc=""):
        self.viol.append(dict(property=self.prop, message=msg, description=desc, **replay))

    def finish(self):
        known = []
        try:
            for l in open(os.path.join(V, "KNOWN_FINDINGS")):
                m = re.match(r"finding: property=(\S+) match=(.+)", l)
                if m and m[1] == self.prop:
                    known.append(m[2].strip())
        except FileNotFoundError:
            pass
        new = [v for v in self.viol if not any(k in v["message"] or k in v["description"] for k in known)]
        for k in known:
            if any(k in v["message"] or k in v["description"] for v in self.viol):
                say(f"KNOWN-FINDING: property={self.prop} {k}")
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        for f in glob.glob(os.path.join(V, "replays", self.prop + "-*.json")):
            os.unlink(f)
        for i, v in enumerate(new[:10]):
            path = os.path.join(V, "replays", f"{self.prop}-{i}.json")
            v = dict(v, seed=v.get("seed", self.seed), tier=self.tier)
            json.dump(v, open(path, "w"), indent=1)
            say(f"  {v['message'][:600]}")
            if v["description"]:
                say(f"    case: {v['description'][:900]}")
            say(f"VIOLATION property={self.prop} replay={path}")
        for m in self.machinery:
            say(f"NO VERDICT FROM: {m[:1500]}")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=self.rule, samples=self.samples[:24] or ["none"],
                                variants=self.variants, notes=self.notes, no_verdict_from=self.machinery),
                  assumptions=self.assume, wall_s=round(time.time() - T0, 2), violations=len(new))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        tmp = os.path.join(V, "evidence", f".{self.prop}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(V, "evidence", self.prop + ".json"))
        say(f"{self.prop} {self.tier}: {self.evals} observations, {self.distinct} distinct non-trivial cases, {len(new)} violations, {round(time.time() - T0, 1)} s")
        if new:
            return 1
        if self.machinery:
            return 2
        if self.evals == 0 or self.distinct == 0:
            say("NO VERDICT: nothing was observed")
            return 2
        return 0


MODEL = "The reference model (refmodel/, written from the standards, checked against OpenSSL answers at the start of every run) is right."


# ------------------------------------------------------------------------------------ cpmon running
def scaled_seed(seed, variant):
    """variants draw different random cases"""
    return seed * 16 + ["rel", "chk", "o0", "nostd", "asan", "tsan"].index(variant)


def run_cpmon(rep, variant, path, hooks, prop=None, scale=1.0, timeout=600, only=None, env=None, main=False, tag=None):
    prop = prop or rep.prop
    seed = scaled_seed(rep.seed, variant)
    cmd = [path, "run", "--prop", prop, "--seed", str(seed), "--tier", rep.tier, "--variant", variant, "--scale", str(scale)]
    if only:
        cmd += ["--only", only]
    e = dict(ENV, ASAN_OPTIONS="exitcode=97:detect_leaks=0:allocator_may_return_null=1", TSAN_OPTIONS="exitcode=98:halt_on_error=1", **(env or {}))
    t = time.time()
    rc, o, err = run(cmd, timeout, e)
    name = tag or (variant if prop == rep.prop else f"{variant} {prop}")
    rp = dict(kind="cpmon", variant=variant, prop=prop, scale=scale, seed=rep.seed)
    if rc is None:
        rep.machinery.append(f"{name}: stopped after {timeout} s")
        return
    if rc in (97, 98):
        what = "AddressSanitizer" if rc == 97 else "ThreadSanitizer"
        m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer)[^\n]*", err)
        text = err[m.start():m.start() + 3000] if m else err[-3000:]
        if "out of memory" in text or "allocation-size-too-big" in text:
            rep.machinery.append(f"{name}: {text[:300]}")
        else:
            rep.violation(f"[{name}] {what}: {m[0] if m else 'report'}", dict(rp, report=text), text)
        return
    m = re.search(r"CRASH signal=(\d+) addr=(\d+) idx=(\d+) label=(.*)", err)
    if rc == 99 and m and not (m[1] == "6" and "memory allocation" in err):
        rep.violation(f"[{name}] the process received signal {m[1]} (address {int(m[2]):#x}) in '{m[4]}' case {m[3]}", dict(rp, label=m[4], idx=int(m[3])))
        return
    try:
        d = json.loads(o.strip().splitlines()[-1])
        assert rc in (0, 1)
    except Exception:
        rep.machinery.append(f"{name}: exit {rc}: {err[-800:]} {o[-200:]}")
        return
    for v in d["violations"]:
        rep.violation(f"[{name}] {v['label']} case {v['idx']}: {v['msg']}", dict(rp, label=v["label"], idx=v["idx"]), v["desc"])
    for x in d["machinery"]:
        rep.machinery.append(f"{name}: {x}")
    rep.evals += d["evaluations"]
    # other variants partly repeat the same enumerations: only the largest count is claimed
    rep.distinct = max(rep.distinct, d["distinct_nontrivial"])
    rep.samples += [dict(variant=name, **s) for s in d["samples"]][:8 if not main else 16]
    rep.notes += [f"{name}: {n}" for n in d["notes"]]
    rep.variants[name] = dict(observations=d["evaluations"], distinct=d["distinct_nontrivial"], hooks=hooks, wall_s=round(time.time() - t, 1), families=d["families"], counters=d["counters"])
    return d


def describe(rep):
    """repeats each violating case alone, to say what it was"""
    for v in rep.viol:
        if v.get("kind") != "cpmon" or "label" not in v or v["description"]:
            continue
        try:
            path = os.path.join(TARGET, "cpmon-" + v["variant"])
            p = [x for x in glob.glob(path + "/*/cpmon") + glob.glob(path + "/*/*/cpmon")]
            seed = scaled_seed(v["seed"], v["variant"])
            rc, o, err = run([p[0], "run", "--prop", v["prop"], "--seed", str(seed), "--tier", rep.tier, "--variant", v["variant"], "--scale", str(v["scale"]), "--only", f"{v['label']}:{v['idx']}"], 200)
            d = json.loads(o.strip().splitlines()[-1])
            v["description"] = d["violations"][0]["desc"] if d["violations"] else "not repeated when run alone"
        except Exception:
            pass


# property: [(variant, program workload, quick scale, thorough scale)]
PLAN = {p: [("rel", p, 1.0, 1.0), ("chk", p, 0.34, 0.34)] for p in
        ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C20"]}
# the cheap ones go further when there is time
for p, k in (("C20", 8), ("C16", 6), ("C05", 10), ("C03", 4)):
    PLAN[p] = [(v, w, q, t * k) for v, w, q, t in PLAN[p]]
PLAN["C21"] = [("rel", "C21", 1.0, 1.0), ("chk", "C21", 0.34, 0.34)]
PLAN["C15"] = [("chk", "C15", 1.0, 1.0), ("chk", "C15x", 0.3, 0.4), ("asan", "C15", 0.4, 0.5), ("asan", "C15x", 0.06, 0.2), ("o0", "C15", 0.1, 0.2), ("o0", "C15x", 0.03, 0.03)]
PLAN["C19"] = [("rel", "C19", 1.0, 1.0), ("tsan", "C19", 1.0, 1.0)]

RULES = {
    "default": "Cases are drawn by seeded generators or enumerated (see families); each runs the real library and compares every result with the reference model. A case counts as non-trivial when its inputs are not empty or all-default, and as distinct by a 64-bit hash of its inputs.",
}


def build_variants(rep, variants):
    res = parallel({v: (lambda v=v: cpmon(v)) for v in variants}, 3)
    ok = {}
    for v in variants:
        r = res[v]
        if isinstance(r, Exception):
            rep.machinery.append(f"variant {v} was not built: {(r.log if isinstance(r, BuildError) else str(r))[-1200:]}")
        else:
            ok[v] = r
            if r[1] != "hooks,state" and v in ("rel", "chk", "asan"):
                rep.notes.append(f"{v}: built with {r[1] or 'no'} verification hooks only, the other workloads on internals are left out")
    return ok


# inputs past 2^32 bytes: a process of its own beside the others
HUGE = {"C02", "C04", "C06", "C07", "C08", "C09", "C13", "C14", "C15"}


# ----------------------------------------------------------------------------------- guided search
GUIDED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C20"}


def guided_build(profile):
    return cargo_build("guided", "guided", profile, env=dict(RUSTC_WRAPPER=os.path.join(V, "guided", "wrap.sh")), binary="guided")


def guided(rep, built):
    """inputs steered by what the library, compiled with SanitizerCoverage, reports of its branches and comparisons"""
    profile = "chk" if rep.prop == "C15" else "release"
    path = built[0]
    if isinstance(path, Exception):
        rep.notes.append(f"the guided search was not built and is left out: {(path.log if isinstance(path, BuildError) else str(path))[-400:]}")
        return
    secs, t = 240 if rep.tier == "thorough" else 15, time.time()
    rc, o, e = run([path, "run", rep.prop, str(rep.seed), str(secs), "8"], secs * 4 + 200)
    rp = dict(kind="guided", profile=profile)
    try:
        d = json.loads(o.strip().splitlines()[-1])
        assert rc in (0, 1)
    except Exception:
        rep.notes.append(f"the guided search ended with {rc} and is left out: {e[-300:]}")
        return
    for v in d["violations"]:
        # C15 is about panics: wrong answers are for the other properties to report
        if rep.prop != "C15" or v["msg"].startswith("panic"):
            rep.violation(f"[guided] {v['msg']}", dict(rp, case=v["case"]), v["case"])
    if not d["riddle"]:
        rep.notes.append("the guided search did not solve its own riddle: its guidance is not to be relied on in this run")
    rep.evals += d["runs"]
    rep.samples += [dict(variant="guided", case=x[:300]) for x in d["samples"]][:2]
    rep.variants["guided"] = dict(observations=d["runs"], distinct_inputs=d["distinct"], inputs_kept_for_new_behaviour=d["kept"], features_seen=d["features"], comparisons_observed=d["comparisons"],
                                  edges_observed=d["edges"], riddle_solved_after=d["riddle_runs"] if d["riddle"] else None, wall_s=round(time.time() - t, 1))


def guided_start(rep):
    """builds beside the rest; what it returns runs the search"""
    if rep.prop not in GUIDED:
        return lambda: None
    box = []

    def go():
        try:
            box.append(guided_build("chk" if rep.prop == "C15" else "release"))
        except Exception as x:
            box.append(x)
    th = threading.Thread(target=go)
    th.start()

    def finish():
        th.join()
        guided(rep, box)
    return finish


def generic(rep, built=lambda ok: None):
    search = guided_start(rep)
    plan = PLAN[rep.prop]
    ok = build_variants(rep, list(dict.fromkeys(p[0] for p in plan)))
    built(ok)
    first = True
    th = None
    v = "chk" if rep.prop == "C15" else "rel"
    if rep.prop in HUGE and v in ok:
        th = threading.Thread(target=lambda: run_cpmon(rep, v, *ok[v], prop=rep.prop + "huge", timeout=7200 if rep.tier == "thorough" else 600, tag="4 GiB inputs"))
        th.start()
    for variant, prop, q, t in plan:
        if variant in ok:
            thorough = rep.tier == "thorough"
            run_cpmon(rep, variant, *ok[variant], prop=prop, scale=t if thorough else q, timeout=7200 if thorough else 400, main=first)
            first = False
    search()
    if th:
        th.join()


# ----------------------------------------------------------------------- transcripts: C17 (and C15)
def tr_build(name, **k):
    return cargo_build("tr-" + name, "transcript", binary="tr", **k)


def tr32_build(profile="release"):
    fs = os.path.join(TARGET, "fakestd-" + profile)
    os.makedirs(fs, exist_ok=True)
    lib = os.path.join(fs, "libstd.rlib")
    if not os.path.exists(lib):
        # the crate says `extern crate std` even without its std feature; this target has none
        src = os.path.join(fs, "std.rs")
        with open(src, "w") as f:
            f.write("#![feature(no_core)]\n#![no_core]\n")
        rc, o, e = run(["rustc", "+nightly", "--target", "i686-unknown-linux-gnu", "--crate-type", "rlib", "--crate-name", "std", src, "-o", lib + ".tmp"], 120, ENV)
        if rc != 0:
            raise NoVerdict("placeholder std for the 32-bit target: " + e[-500:])
        os.replace(lib + ".tmp", lib)
    rf = f"--extern noprelude:std={lib} -L {fs} -Zunstable-options -Clink-arg=-nostartfiles -Clink-arg=-nodefaultlibs -Clink-arg=-static -Crelocation-model=static -Ctarget-feature=+crt-static"
    return cargo_build("tr32-" + profile, "tr32", profile=profile, rustflags=rf, toolchain="nightly", target="i686-unknown-linux-gnu",
                       extra=["-Zbuild-std=core", "-Zbuild-std-features=compiler-builtins-mem"], binary="tr32")


def none64_build():
    """x86-64 as a machine without an operating system: no std, no libc, no SSE; run here all the same"""
    rf = "-Clink-arg=-static -Crelocation-model=static -Cpanic=abort"
    return cargo_build("none64", "tr32", profile="release", rustflags=rf, toolchain="nightly", target="x86_64-unknown-none",
                       extra=["-Zbuild-std=core", "-Zbuild-std-features=compiler-builtins-mem"], binary="tr32")


def families():
    src = open(os.path.join(V, "transcript/src/lib.rs")).read()
    fam = re.findall(r'^    \("([a-z0-9-]+)", (\d+), (true|false)\),$', src.split("pub const FAMILIES")[1].split("];")[0], re.M)
    gi = re.findall(r'^    \("([^"]+)", (true|false)\),$', src.split("pub const GIANT")[1].split("];")[0], re.M)
    return [(n, int(c), h == "true") for n, c, h in fam], [(n, q == "true") for n, q in gi]


def tr_lines(path, fam, start, count, each=False, timeout=600):
    rc, o, e = run([path, str(fam), str(start), str(count)] + (["each"] if each else []), timeout)
    if rc is None:
        raise NoVerdict(f"{path} family {fam}: stopped after {timeout} s")
    return rc, o, e


SMALL = 1 << 32


class Miri:
    def __init__(self, target, strict):
        self.target, self.strict = target, strict
        self.env = dict(ENV, MIRIFLAGS="-Zmiri-disable-isolation" + ("" if strict else " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"), RUSTFLAGS="")
        # strict runs keep overflow checks on
        self.profile = "chk" if strict else "release"
        self.dir = os.path.join(TARGET, "miri-" + target + ("-strict" if strict else ""))

    def cmd(self, *args):
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--profile", self.profile, "--target", self.target, "--target-dir", self.dir, "--bin", "tr", "--"] + [str(a) for a in args]

    def build(self):
        """prepares sysroot and program by running an empty range"""
        for f in glob.glob(os.path.join(self.dir, "**", ".fingerprint", "crypto-pure-*"), recursive=True):
            shutil.rmtree(f, ignore_errors=True)
        rc, o, e = run(self.cmd(0, 0, 0), 600, self.env, os.path.join(V, "transcript"))
        if rc is None:
            raise NoVerdict("Miri build took too long")
        if rc != 0:
            if "could not compile" in e:
                raise BuildError("miri " + self.target, e)
            raise NoVerdict("Miri: " + e[-800:])

    def run(self, fam, start, count, timeout):
        return run(self.cmd(fam, start, count, "each"), timeout, self.env, os.path.join(V, "transcript"))


# cases per family for interpreters: seconds per case measured on an idle core
MIRI_COST = {"sha2-histories": .5, "sha2-lengths": .5, "hmac": 1, "hkdf": 2, "aes": 2, "aes-gcm": 6, "chacha20-stream": .6, "chacha20-poly1305": 1, "x25519": 10,
             "ed25519-sign": 5, "ed25519-verify": 15, "compare": .05, "generic-gcm": 1.5}


def miri_jobs(budget, seed, slow=1.0):
    """(family, first index, count) pieces of about equal cost whose total is `budget` core-seconds"""
    fams, _ = families()
    jobs = []
    light = [f for f, (n, c, h) in enumerate(fams) if not h]
    share = budget / len(light)
    for f in light:
        cost = MIRI_COST.get(fams[f][0], 2) * slow
        n = max(2, min(400, int(share / cost)))
        start = SMALL + (seed % 1000) * 10000
        piece = max(1, int(12 / cost))
        for s in range(0, n, piece):
            jobs.append((cost * min(piece, n - s), f, start + s, min(piece, n - s)))
    jobs.sort(reverse=True)
    return [j[1:] for j in jobs]


def parse(o):
    """{(family, first): (fingerprint, results, panics)}"""
    d = {}
    for l in o.splitlines():
        f = l.split()
        if len(f) == 5:
            d[(f[0], int(f[1]))] = (f[2], int(f[3]), int(f[4]))
    return d


BARE = ["thumbv7m-none-eabi", "aarch64-unknown-none", "powerpc-unknown-linux-gnu"]
BARE_MORE = ["riscv32imac-unknown-none-elf", "mips-unknown-linux-gnu", "x86_64-unknown-none"]


def c17(rep):
    thorough = rep.tier == "thorough"
    fams, giants = families()
    builds = {
        "rel": lambda: tr_build("rel", profile="release"),
        "chk": lambda: tr_build("chk", profile="chk"),
        "o0": lambda: tr_build("o0", profile="o0"),
        "os": lambda: tr_build("os", profile="os"),
        "no-std": lambda: tr_build("nostd", profile="release", no_default=True),
        "no-std-chk": lambda: tr_build("nostdchk", profile="chk", no_default=True),
        "native-cpu": lambda: tr_build("cpu", profile="release", rustflags="-Ctarget-cpu=native"),
        "nightly": lambda: tr_build("nightly", profile="release", toolchain="nightly"),
        "i686": lambda: tr32_build(),
        "i686-chk": lambda: tr32_build("chk"),
        "bare x86-64": none64_build,
    }
    for t in BARE + (BARE_MORE if thorough else []):
        # nothing is run: what is observed is that the library builds where only core exists
        builds["no standard library, " + t] = (lambda t=t: cargo_build("bare", "transcript", profile="o0", no_default=True, toolchain="nightly", target=t, extra=["--lib", "-Zbuild-std=core"], binary="libtranscript.rlib", own=t))
    miris = {"s390x (Miri)": Miri("s390x-unknown-linux-gnu", False)}
    if thorough:
        miris["i686 (Miri)"] = Miri("i686-unknown-linux-gnu", False)
        miris["x86_64 (Miri)"] = Miri(HOST, False)
        miris["powerpc (Miri)"] = Miri("powerpc-unknown-linux-gnu", False)
        miris["aarch64 (Miri)"] = Miri("aarch64-unknown-linux-gnu", False)
    for n, m in miris.items():
        builds[n] = m.build
    res = parallel(builds, 6)
    base = res["rel"]
    if isinstance(base, Exception):
        rep.machinery.append("the default build failed: " + str(getattr(base, "log", base))[-1500:])
        return
    ok = {}
    bad32 = [n for n in ("i686", "i686-chk") if isinstance(res[n], BuildError) and res[n].crate == "crypto-pure"]
    if bad32:
        # the freestanding target has only core; whether the library builds for 32 bits is decided where a std exists
        name = "i686 (Miri)"
        if name not in miris:
            miris[name] = Miri("i686-unknown-linux-gnu", False)
            res.update(parallel({name: miris[name].build}, 1))
        if not isinstance(res[name], Exception):
            for n in bad32:
                del res[n]
            rep.notes.append("does not build for the freestanding 32-bit target (only core available); 32-bit results taken from Miri")
    for n, r in res.items():
        if isinstance(r, BuildError) and r.crate == "crypto-pure":
            rep.violation(f"the library does not build in configuration {n} although it does in the default one", dict(kind="build", config=n, log=r.log[-4000:]), r.log[-1500:])
        elif isinstance(r, Exception):
            rep.machinery.append(f"{n}: {str(getattr(r, 'log', r))[-1200:]}")
        elif n.startswith("no standard library"):
            rep.notes.append("builds with " + n)
            rep.evals += 1
        else:
            ok[n] = r
    mult = 60 if thorough else 8
    lim = 3000 if thorough else 300
    offset = (rep.seed % 100000) * 1_000_000 % (SMALL - 50_000_000)
    plan = []
    for f, (n, c, heavy) in enumerate(fams):
        if c:
            total = c * mult if not heavy else c * (mult // 4 or 1)
            plan.append((f, offset, total))
    want = {}
    native = [n for n in ok if n not in miris]

    def native_job(n, f, s, c):
        return tr_lines(ok[n], f, s, c, timeout=lim)
    jobs = {}
    slow = {"o0": 8, "i686-chk": 2, "chk": 2}
    for f, s, c in plan:
        for n in native:
            # unoptimised builds do a prefix of the cases
            cc = max(32, c // slow.get(n, 1) // 32 * 32) if n in ("o0",) else c
            jobs[(n, f)] = (lambda n=n, f=f, s=s, cc=cc: native_job(n, f, s, cc))
    t = time.time()
    got = parallel(jobs, 8)
    lines = {}
    for (n, f), r in got.items():
        if isinstance(r, Exception):
            rep.machinery.append(f"{n} family {f}: {r}")
            continue
        rc, o, e = r
        if rc != 0:
            if rc < 0 or rc in (6, 134, 139):
                rep.violation(f"{n}: the program for family {fams[f][0]} ended abnormally (status {rc})", dict(kind="transcript", config=n, family=f), (e + o)[-600:])
            else:
                rep.machinery.append(f"{n} family {f}: exit {rc} {e[-300:]}")
            continue
        lines.setdefault(n, {}).update(parse(o))
    ref = lines.get("rel", {})
    cmp_total = 0
    counts = {}

    def mismatch(n, key, a, b, single=False):
        f = int(key[0])
        name = fams[f][0]
        case = key[1]
        if not single and n in native:
            # find the case within the group
            try:
                d1 = parse(tr_lines(ok["rel"], f, key[1], 32, True)[1])
                d2 = parse(tr_lines(ok[n], f, key[1], 32, True)[1])
                bad = [k for k in d1 if d1[k] != d2.get(k)]
                if bad:
                    case, a, b = bad[0][1], d1[bad[0]], d2.get(bad[0])
            except NoVerdict:
                pass
        show = lambda x: "a panic" if x and x[0] == "panic" else (f"fingerprint {x[0]} of {x[1]} results" if x else "nothing")
        rep.violation(f"{name} case {case}: {n} gives {show(b)}, the default optimised 64-bit build gives {show(a)}", dict(kind="transcript", config=n, family=f, case=case))

    results = 0
    for n, d in lines.items():
        if n == "rel":
            results += sum(v[1] for v in d.values())
            continue
        bad = 0
        for k, v in d.items():
            if k not in ref:
                continue
            cmp_total += v[1]
            if v != ref[k] and bad < 3:
                bad += 1
                mismatch(n, k, ref[k], v)
        counts[n] = sum(v[1] for v in d.values())
    rep.notes.append(f"native transcripts: {round(time.time() - t, 1)} s")
    # Miri: a big-endian target
    t = time.time()
    mj = {}
    for n, m in miris.items():
        if n not in ok:
            continue
        for f, s, c in miri_jobs(6000 if thorough else 330, rep.seed):
            mj[(n, f, s)] = (lambda m=m, f=f, s=s, c=c: m.run(f, s, c, 5000 if thorough else 420))
    for (n, f, s), (rc, o, e) in parallel(mj, 8).items():
        if rc != 0:
            rep.machinery.append(f"{n} family {fams[f][0]}: exit {rc} {e[-400:]}")
            continue
        d = parse(o)
        r = parse(tr_lines(ok["rel"], f, s, len(d), True)[1])
        for k, v in d.items():
            cmp_total += v[1]
            counts[n] = counts.get(n, 0) + v[1]
            if v != r.get(k):
                mismatch(n, k, r.get(k), v, True)
    rep.notes.append(f"interpreted transcripts: {round(time.time() - t, 1)} s")
    # inputs so long that their bit count exceeds 32 bits
    t = time.time()
    gj = {}
    names = ["rel", "i686"] + (["chk", "i686-chk", "os", "no-std", "bare x86-64"] if thorough else [])
    for g, (name, quick) in enumerate(giants):
        if quick or thorough:
            for n in names:
                if n in ok:
                    gj[(n, g)] = (lambda n=n, g=g: run([ok[n], "giant", str(g)], 900 if thorough else 300))
    gr = {}
    for (n, g), (rc, o, e) in parallel(gj, 4).items():
        d = parse(o)
        if rc != 0 or len(d) != 1:
            rep.machinery.append(f"{n} {giants[g][0]}: exit {rc} {e[-300:]}")
        else:
            gr[(n, g)] = list(d.values())[0]
    for (n, g), v in gr.items():
        if n != "rel" and ("rel", g) in gr:
            cmp_total += v[1]
            counts[n + " giant inputs"] = counts.get(n + " giant inputs", 0) + 1
            if v != gr[("rel", g)]:
                rep.violation(f"{giants[g][0]}: {n} gives {v[0]}, the default build {gr[('rel', g)][0]}", dict(kind="giant", config=n, giant=g))
    rep.notes.append(f"giant inputs: {round(time.time() - t, 1)} s")
    rep.evals += cmp_total
    rep.distinct = sum(c for _, _, c in plan)
    rep.variants = {n: dict(results_compared=c) for n, c in counts.items()}
    rep.variants["rel (reference)"] = dict(results=results)
    rep.samples = [dict(family=fams[int(k[0])][0], first_case=k[1], fingerprint=v[0], results=v[1]) for k, v in list(ref.items())[:: max(1, len(ref) // 12)]]
    rep.rule = "Cases are numbered; a case's inputs are derived from (family, number) alone, and all results of the case are folded into a fingerprint which must agree between builds. Every case performs operations on non-empty inputs of its own number (distinct by construction); evaluations counts single results compared with the default build's."
    rep.assume = ["The C library, the kernel's 32-bit ABI and Miri's s390x semantics are right.", "Big-endian behaviour is observed in Miri's interpretation of the same MIR, not on hardware."]


def c15(rep):
    thorough = rep.tier == "thorough"
    m = Miri(HOST, True)
    box = {}

    def prep():
        try:
            m.build()
            box["ok"] = True
        except (BuildError, NoVerdict) as e:
            box["err"] = str(getattr(e, "log", e))[-800:]
    th = threading.Thread(target=prep)
    th.start()
    ths = []

    def built(ok):
        # the longest legal messages, with overflow checks, while other things go on
        if "chk" in ok:
            ths.append(threading.Thread(target=lambda: run_cpmon(rep, "chk", *ok["chk"], prop="C15long", timeout=7200 if thorough else 400, tag="longest messages")))
            ths[0].start()
    generic(rep, built)
    th.join()
    if "err" in box:
        rep.machinery.append("Miri: " + box["err"])
    else:
        fams, _ = families()
        t = time.time()
        n = 0
        res = 0
        jobs = {(f, s): (lambda f=f, s=s, c=c: m.run(f, s, c, 5000 if thorough else 420)) for f, s, c in miri_jobs(9000 if thorough else 320, rep.seed + 500, 2.0)}
        for (f, s), (rc, o, e) in parallel(jobs, 8).items():
            ub = re.search(r"error: (Undefined Behavior|abnormal termination|memory access|unsupported)[^\n]*", e)
            if rc != 0:
                if ub and "Undefined" in ub[0]:
                    rep.violation(f"[Miri] {fams[f][0]} cases from {s}: {ub[0]}", dict(kind="miri", family=f, case=s), e[ub.start():ub.start() + 2500])
                else:
                    rep.machinery.append(f"Miri {fams[f][0]}: exit {rc} {e[-400:]}")
                continue
            for k, v in parse(o).items():
                n += 1
                res += v[1]
                if v[0] == "panic":
                    rep.violation(f"[Miri] {fams[f][0]} case {k[1]}: panic within the documented preconditions", dict(kind="miri", family=f, case=k[1]))
        rep.evals += n
        rep.variants["Miri x86_64, all checks"] = dict(cases=n, results=res, wall_s=round(time.time() - t, 1))
    for t in ths:
        t.join()
    rep.assume = ["Operations of other properties' workloads are within the documented preconditions (C16 watches the calls outside).",
                  "AddressSanitizer and Miri see the accesses they are documented to see."]


# ---------------------------------------------------------------------------------------------- C18
import random


def c18(rep):
    thorough = rep.tier == "thorough"
    try:
        ct = cargo_build("ct", "ct", profile="release", binary="ct")
    except BuildError as e:
        raise NoVerdict("ct: " + e.log[-1200:])
    progs = {"opt-level 3": ct}
    if thorough:
        for o in ("1", "2", "s"):
            try:
                progs["opt-level " + o] = cargo_build("ct-" + o, "ct", profile="release", binary="ct", env=dict(CARGO_PROFILE_RELEASE_OPT_LEVEL=o))
            except BuildError as e:
                rep.machinery.append(f"ct at opt-level {o}: {e.log[-800:]}")
    with cf.ThreadPoolExecutor(8) as ex:
        ft = []
        seeds = range(rep.seed, rep.seed + (6 if thorough else 2))
        for name, path in progs.items():
            for s in seeds:
                ft.append((name, s, ex.submit(ct_taint, path, s)))
        rng = random.Random(rep.seed)
        traces = ct_plan(ct, rng, 12 if thorough else 4, 6 if thorough else 2)
        tmp = tempfile.mkdtemp(prefix="ct-")
        try:
            ft2 = []
            for i, (op, a, b, group, label, blob) in enumerate(traces):
                f = os.path.join(tmp, f"{i:06d}")
                open(f, "wb").write(blob)
                ft2.append((op, a, b, group, label, blob, ex.submit(ct_trace, ct, op, a, b, f)))
            for name, s, f in ft:
                ct_judge_taint(rep, name, s, f.result())
            groups = {}
            for op, a, b, group, label, blob, f in ft2:
                groups.setdefault((op, a, b, group), []).append((label, blob, f.result()))
            ct_judge_traces(rep, ct, groups)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    rep.rule = ("Taint runs: each operation on secret inputs marked undefined, over many public lengths; memcheck judges every executed branch and address (evaluations counts operations run). "
                "Trace runs: whole instruction and data-address sequences, recorded for inputs that differ in secrets only, must be identical (each recorded sequence is one evaluation). "
                "Distinct non-trivial: operations with at least one secret byte, and recorded sequences of distinct secret contents.")
    rep.assume = ["valgrind's memcheck and lackey see every executed instruction, branch and access of the compiled program.",
                  "Observed on machine code compiled here for x86-64; other compilers and targets may differ.", "AEAD decryption may branch on the public verdict; traces with the same verdict are compared. Ed25519 verification handles only public data."]


def ct_taint(path, seed):
    with tempfile.TemporaryDirectory(prefix="ct-") as d:
        x = os.path.join(d, "vg.xml")
        rc, o, e = run(["valgrind", "-q", "--error-limit=no", "--expensive-definedness-checks=yes", "--num-callers=40", "--xml=yes", f"--xml-file={x}", path, "taint", str(seed)], 800)
        return rc, o, e, open(x, errors="replace").read() if os.path.exists(x) else ""


def ct_judge_taint(rep, name, seed, r):
    rc, o, e, xml = r
    name = f"taint {name} seed {seed}"
    if rc != 0:
        rep.machinery.append(f"{name}: exit {rc} {e[-500:]}")
        return
    errs = []
    for m in re.finditer(r"<error>(.*?)</error>", xml, re.S):
        kind = re.search(r"<kind>(.*?)</kind>", m[1])[1]
        what = re.search(r"<what>(.*?)</what>", m[1])
        stack = m[1].split("</stack>")[0]
        frames = []
        for fr in re.finditer(r"<frame>(.*?)</frame>", stack, re.S):
            g = lambda t: (re.search(f"<{t}>(.*?)</{t}>", fr[1]) or [0, ""])[1]
            frames.append((g("fn"), (g("dir") + "/" + g("file")), g("line")))
        errs.append((kind, what[1] if what else "", frames))
    ops = {}
    for l in o.splitlines():
        m = re.match(r"(.+) (\d+) (\d+)$", l)
        if m:
            ops[m[1]] = (int(m[2]), int(m[3]))
    inlib = lambda fr: "crypto_pure" in fr[0] or fr[1].startswith(REPO + "/src/")
    ctl = {("branch", "address")[k == "UninitValue"] for k, w, fr in errs if any("control_" in f[0] for f in fr)}
    if ctl != {"branch", "address"} or "control 1" not in o or len(ops) < 10:
        rep.machinery.append(f"{name}: the monitor did not report the deliberate leaks ({sorted(ctl)}) or did not finish; nothing is concluded from this run")
        return
    seen = set()
    for kind, what, fr in errs:
        if kind not in ("UninitCondition", "UninitValue") or any("control_" in f[0] for f in fr):
            continue
        lib = [f for f in fr if inlib(f)]
        if not lib:
            rep.machinery.append(f"{name}: {what} outside the library: {fr[:4]}")
            continue
        key = (kind, lib[0])
        if key in seen or len(seen) > 8:
            continue
        seen.add(key)
        msg = {"UninitCondition": "a branch depends on a secret", "UninitValue": "a memory address depends on a secret"}.get(kind, what)
        top = fr[0][0] if fr[0] != lib[0] else ""
        rep.violation(f"[{name}] {msg}: {lib[0][0]} ({lib[0][1].split('/')[-1]}:{lib[0][2]}){' in ' + top if top else ''}", dict(kind="taint", seed=seed), " < ".join(f"{f[0]} ({f[1].split('/')[-1]}:{f[2]})" for f in fr[:12]))
    n = sum(v[0] for v in ops.values())
    rep.evals += n
    if not any(v.startswith("taint") for v in rep.variants):
        rep.distinct += n  # later runs repeat the same public lengths
    rep.variants[name] = dict(operations={k: dict(runs=v[0], secret_bytes=v[1]) for k, v in ops.items() if not k.startswith("control")}, deliberate_leaks_reported=sorted(ctl))
    if len(rep.samples) < 6:
        rep.samples.append(dict(family=name, case=f"hash of secret messages of 0..300 bytes: {ops.get('hash')} (operations, secret bytes); reports outside the deliberate leaks: {len(seen)}"))


def ct_value(path, op, a, b, blob):
    with tempfile.NamedTemporaryFile(prefix="ct-") as f:
        f.write(blob)
        f.flush()
        rc, o, e = run([path, "value", op, str(a), str(b), f.name], 60)
        if rc != 0:
            raise NoVerdict(f"ct value {op}: exit {rc} {e[-300:]}")
        return bytes.fromhex(o.split("value")[1].strip())


def ct_plan(ct, rng, nsec, nlen):
    """(operation, a, b, group, label, file): files of a group must give identical traces"""
    out = []

    def secrets(n, k):
        s = [("zeros", bytes(n)), ("ones", b"\xff" * n)]
        while len(s) < k:
            if len(s) % 3 == 2:
                b = bytearray(n)
                p = rng.randrange(max(1, 8 * n))
                if n:
                    b[p // 8] = 1 << (p % 8)
                s.append((f"bit {p}", bytes(b)))
            else:
                s.append((f"random {len(s)}", rng.randbytes(n)))
        return s
    L = [0, 1, 15, 16, 17, 31, 32, 48, 63, 64, 65, 100, 111, 112, 127, 128, 130]

    # and one longer length each: past the eighth block, past 256, 512 or 1024 bytes
    LONG = [140, 257, 300, 520, 600, 1030] + ([2100, 4200] if nsec > 6 else [])

    def lens(k):
        return rng.sample(L, k) + [rng.choice(LONG)]
    for x in (1, 7):
        out.append(("control", 0, 0, "control", f"byte {x}", bytes([x, 3])))
    for op in ("sha224", "sha256", "sha384", "sha512"):
        for a in lens(nlen):
            a += 1
            for l, s in secrets(a, nsec):
                out.append((op, a, 0, "all", l, s))
    for op in ("hmac-sha256", "hmac-sha512", "hkdf-sha256", "hkdf-sha512"):
        for a, b in zip(lens(nlen), lens(nlen)):
            for l, s in secrets(a + b + 1, nsec):
                out.append((op, a, b + 1, "all", l, s))
    for op, tl in (("hmac-verify-sha256", 32), ("hmac-verify-sha512", 64)):
        for a, b in zip(lens(nlen), lens(nlen)):
            for l, s in secrets(a + b + 1, nsec):
                t = ct_value(ct, op[:4] + op[11:], a, b + 1, s)
                out.append((op, a, b + 1, "accepted", l, s + t))
                if l.startswith("random") or l == "zeros":
                    for k in [0, 1, tl // 2, tl - 1]:
                        x = bytearray(t)
                        x[k] ^= 1 << rng.randrange(8)
                        out.append((op, a, b + 1, "rejected", f"{l}, byte {k} differs", s + bytes(x)))
                    out.append((op, a, b + 1, "rejected", f"{l}, all differ", s + bytes(v ^ 0xff for v in t)))
    for op, k in (("aes128", 16), ("aes192", 24), ("aes256", 32)):
        for l, s in secrets(k + 16, nsec + 2):
            out.append((op, 0, 0, "all", l, s))
    nonce = rng.randbytes(12)
    for nm, k in (("gcm128", 16), ("gcm192", 24), ("gcm256", 32), ("chacha20poly1305", 32)):
        for a, b in zip(lens(nlen), lens(nlen)):
            b += 1
            for l, s in secrets(k + a + b, nsec):
                key, aad, text = s[:k], s[k:k + a], s[k + a:]
                blob = key + nonce + aad + text
                out.append((nm + "-encrypt", a, b, "all", l, blob))
                r = ct_value(ct, nm + "-encrypt", a, b, blob)
                c, t = r[:b], r[b:]
                pre = key + nonce + aad + c
                out.append((nm + "-decrypt", a, b, "accepted", l, pre + t))
                if l != "ones":
                    for p in (0, 7, 15):
                        x = bytearray(t)
                        x[p] ^= 1 << rng.randrange(8)
                        out.append((nm + "-decrypt", a, b, "rejected", f"{l}, tag byte {p} differs", pre + bytes(x)))
                    out.append((nm + "-decrypt", a, b, "rejected", f"{l}, all tag bytes differ", pre + bytes(v ^ 0xff for v in t)))
    for a, b in zip(lens(nlen), lens(nlen)):
        for l, s in secrets(32 + b + 1, nsec):
            out.append(("stream", a, b + 1, "all", l, s[:32] + nonce + s[32:]))
    for i in range(max(1, nlen // 2)):
        u = rng.randbytes(32)
        for l, s in secrets(32, nsec):
            out.append(("x25519-dh", i, 0, "all", l, u + s))
    for l, s in secrets(32, nsec):
        out.append(("x25519-gen_pk", 0, 0, "all", l, s))
        out.append(("ed25519-gen_pk", 0, 0, "all", l, s))
    for a in lens(max(1, nlen // 2)):
        m = rng.randbytes(a)
        for l, s in secrets(32, nsec):
            out.append(("ed25519-sign", a, 0, "all", l, s + m))
    x = rng.randbytes(16)
    for l, s in secrets(16, nsec + 2):
        out.append(("compare", 16, 0, "equal", l, s + s))
        for k in (0, 1, 7, 8, 14, 15):
            y = bytearray(s)
            y[k] ^= 1 << rng.randrange(8)
            out.append(("compare", 16, 0, "unequal", f"{l}, byte {k} differs", s + bytes(y)))
        out.append(("compare", 16, 0, "unequal", f"{l}, all differ", s + bytes(v ^ 0xff for v in s)))
    for n in (0, 1, 15, 17, 40):
        for l, s in secrets(16 + n, 3):
            out.append(("compare", n, 0, "length", l, s))
    return out


def ct_trace(ct, op, a, b, f):
    """the window of the recorded sequence, or a reason why there is none"""
    r, w = os.pipe()
    p = subprocess.Popen(["valgrind", "-q", "--tool=lackey", "--trace-mem=yes", "--basic-counts=no", f"--log-fd={w}", ct, "trace", op, str(a), str(b), f],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=ENV, pass_fds=[w], start_new_session=True)
    os.close(w)
    killer = threading.Timer(300, lambda: os.killpg(p.pid, signal.SIGKILL))
    killer.start()
    try:
        with os.fdopen(r, "rb") as fd:
            data = fd.read()
        o, e = p.communicate()
    finally:
        killer.cancel()
    if p.returncode != 0:
        return None, f"exit {p.returncode} {e.decode(errors='replace')[-300:]}"
    m = re.search(rb"marker ([0-9a-f]+)", o)
    if not m:
        return None, "no marker"
    mark = b"I  %08x," % int(m[1], 16)
    i, j = data.find(mark), data.rfind(mark)
    if i < 0 or j <= i:
        return None, "markers not found in the trace"
    win = data[i:j]
    import hashlib, zlib
    return (hashlib.sha256(win).hexdigest(), win.count(b"\n"), zlib.compress(win, 1)), None


def ct_judge_traces(rep, ct, groups):
    import zlib
    control = False
    n = lines = pairs = 0
    bygroup = {}
    done = set()
    for (op, a, b, group), runs in groups.items():
        good = []
        for label, blob, (res, why) in runs:
            if res is None:
                rep.machinery.append(f"trace {op} {a} {b} {label}: {why}")
            else:
                good.append((label, blob, res))
                n += 1
                lines += res[1]
        if op == "control":
            control = len(good) == 2 and good[0][2][0] != good[1][2][0]
            continue
        bygroup[f"{op} {group}"] = bygroup.get(f"{op} {group}", 0) + len(good)
        for label, blob, res in good[1:]:
            pairs += 1
            if res[0] != good[0][2][0] and (op, group) not in done:
                done.add((op, group))
                w1, w2 = zlib.decompress(good[0][2][2]).split(b"\n"), zlib.decompress(res[2]).split(b"\n")
                k = next((i for i in range(min(len(w1), len(w2))) if w1[i] != w2[i]), min(len(w1), len(w2)) - 1)
                where = ct_where(ct, w1, k)
                rep.violation(f"[trace] {op} (lengths {a}, {b}; {group}): the executed sequence differs between secrets '{good[0][0]}' and '{label}' at event {k} of {len(w1)}/{len(w2)}: {w1[k].decode().strip()} / {w2[k].decode().strip()} after {where}",
                              dict(kind="trace", op=op, a=a, b=b, group=group, x=good[0][1].hex(), y=blob.hex()), f"inputs {good[0][1].hex()} and {blob.hex()}")
    if not control:
        rep.machinery.append("trace: two inputs of the deliberately leaking function gave the same sequence; nothing is concluded from traces")
    rep.evals += n
    rep.distinct += len({(k[0], k[1], k[2], r[1]) for k, rs in groups.items() for r in rs if r[1]})
    rep.variants["traces"] = dict(sequences=n, events_recorded=lines, pairs_compared=pairs, per_group=bygroup, deliberate_leak_seen=control)
    big = sorted(groups.items(), key=lambda x: -len(x[1]))[:4]
    for (op, a, b, g), rs in big:
        rep.samples.append(dict(family="trace " + op, case=f"lengths {a}, {b}, {g}: " + ", ".join(r[0] for r in rs[:8]) + f"; {rs[0][2][0][1] if rs[0][2][0] else 0} events each"))


def ct_where(ct, w, k):
    """symbol of the last instruction before event k"""
    base = None
    while k > 0 and not w[k].startswith(b"I"):
        k -= 1
    try:
        addr = int(w[k].split()[1].split(b",")[0], 16)
        rc, o, e = run(["nm", ct], 60)
        # valgrind loads position-independent programs at 0x108000 or 0x400000
        for base in (0x108000, 0x400000, 0x4000000):
            rc, o, e = run(["addr2line", "-Cfie", ct, hex(addr - base)], 60)
            if "??" not in o.splitlines()[0]:
                return " ".join(o.split()[:2])
    except Exception:
        pass
    return w[k].decode().strip()


# ---------------------------------------------------------------------------------------------- C21
def ct_cost(ct, op, n):
    rc, o, e = run(["valgrind", "--tool=lackey", "--basic-counts=yes", ct, "cost", op, str(n)], 600)
    m = re.search(r"guest instrs:\s+([\d,]+)", e)
    if rc != 0 or not m:
        raise NoVerdict(f"cost of {op} at {n}: exit {rc} {e[-300:]}")
    return int(m[1].replace(",", ""))


def c21(rep):
    thorough = rep.tier == "thorough"
    generic(rep)
    try:
        ct = cargo_build("ct", "ct", profile="release", binary="ct")
    except BuildError as e:
        raise NoVerdict("ct: " + e.log[-1200:])
    t = time.time()
    ops = run([ct, "costs"], 60)[1].split()
    pairs = [(1024, 2048), (5000, 10000), (32768, 65536)] + ([(100_000, 200_000), (500_000, 1_000_000)] if thorough else [])
    cases = 400 if thorough else 48
    jobs = {(op, n): (lambda op=op, n=n: ct_cost(ct, op, n)) for op in ("verify-case", "dh-case") for n in range(cases)}
    tags, contents = 4 * 22, 12 * 10
    jobs.update({("tag-case", n): (lambda n=n: ct_cost(ct, "tag-case", n)) for n in range(tags)})
    jobs.update({("content-case", n): (lambda n=n: ct_cost(ct, "content-case", n)) for n in range(contents)})
    jobs[("nothing", 0)] = lambda: ct_cost(ct, "nothing", 0)
    got, grown = {}, set()
    for a, b in pairs:
        # an operation whose work has been seen to grow too fast is not run on longer inputs
        for op in ops:
            if op not in grown and not (b > 70_000 and op.startswith("hkdf") and "okm" in op):
                for n in (a, b):
                    jobs[(op, n)] = (lambda op=op, n=n: ct_cost(ct, op, n))
        got.update(parallel(jobs, 8))
        jobs = {}
        for op in ops:
            slopes = [(got[op, y] - got[op, x]) / (y - x) for x, y in pairs if all(isinstance(got.get((op, n)), int) for n in (x, y))]
            if slopes and max(slopes) > 1.5 * max(slopes[0], 0) + 64:
                grown.add(op)
    for k, v in got.items():
        if isinstance(v, Exception):
            rep.machinery.append(f"{k}: {v}")
    got = {k: v for k, v in got.items() if not isinstance(v, Exception)}
    table = {}
    for op in ops:
        slope = [(a, b, (got[op, b] - got[op, a]) / (b - a)) for a, b in pairs if (op, a) in got and (op, b) in got]
        if not slope:
            continue
        table[op] = dict(instructions_per_byte={f"{a}..{b}": round(s, 1) for a, b, s in slope})
        first = max(slope[0][2], 0)
        for a, b, s in slope[1:]:
            if s > 1.5 * first + 64:
                rep.violation(f"{op}: {s:.0f} instructions for each further byte between {a} and {b} bytes, {first:.0f} between {slope[0][0]} and {slope[0][1]}: work grows faster than the input",
                              dict(kind="cost", op=op), json.dumps(table[op]))
                break
    for op in ("verify-case", "dh-case"):
        if ("nothing", 0) not in got or (op, 0) not in got:
            continue
        base = got[op, 0] - got["nothing", 0]
        worst = max(range(cases), key=lambda n: got.get((op, n), 0))
        w = got[op, worst] - got["nothing", 0]
        table[op] = dict(first_case=base, worst=w, worst_case=worst)
        if w > 2.5 * base:
            rep.violation(f"{op} {worst}: {w} instructions, an ordinary case takes {base}", dict(kind="cost", op=op, case=worst))
    # a check of a tag against the making of one; an operation on other contents against one on random bytes
    nothing = got.get(("nothing", 0))
    for n in range(tags + contents):
        op, i, of = ("tag-case", n, 4) if n < tags else ("content-case", n - tags, 12)
        base, case = got.get((op, i % of)), got.get((op, i))
        if i < of or None in (base, case, nothing):
            continue
        w = case - (base if op == "tag-case" else nothing)
        base -= nothing
        t1 = table.setdefault(f"{op} {i % of}", dict(ordinary=base, worst=0))
        if w > t1["worst"]:
            t1.update(worst=w, worst_case=i)
        if w > 2.5 * base + 2000:
            rep.violation(f"{op} {i}: {w} instructions, an ordinary case takes {base}", dict(kind="cost", op=op, case=i))
    if table.get("sha256", {}).get("instructions_per_byte", {}).get("1024..2048", 0) < 3:
        rep.machinery.append("instruction counts do not show the work of hashing")
    rep.evals += len(got)
    rep.distinct += len(got)
    rep.variants["instruction counts"] = dict(runs=len(got), operations=table, wall_s=round(time.time() - t, 1))
    rep.rule = ("Memory: each case runs operations on random lengths and contents and looks at the allocator's count and the stack they reached. "
                "Work: valgrind counts the instructions of whole runs that differ in the input's length only; one run is one evaluation, all distinct by (operation, length).")
    rep.assume = ["Stack and instruction counts are those of code compiled here for x86-64.", "Growth is judged by the cost of a further byte at up to 64 KiB (thorough: 1 MB)."]


# -------------------------------------------------------------------------------------------- main
def decide(prop, tier, seed):
    rep = Report(prop, tier, seed)
    rep.rule = RULES.get(prop, RULES["default"])
    rep.assume = [MODEL]
    try:
        {"C15": c15, "C17": c17, "C18": c18, "C21": c21}.get(prop, generic)(rep)
        describe(rep)
    except NoVerdict as e:
        rep.machinery.append(str(e))
    except Exception:
        import traceback
        rep.machinery.append(traceback.format_exc())
    return rep.finish()


def replay(path):
    r = json.load(open(path))
    print(json.dumps(r, indent=1)[:4000])
    if r["kind"] == "cpmon" and "label" in r:
        p, _ = cpmon(r["variant"])
        rc, o, e = run([p, "run", "--prop", r["prop"], "--seed", str(scaled_seed(r["seed"], r["variant"])), "--tier", r["tier"], "--variant", r["variant"],
                        "--scale", str(r["scale"]), "--only", f"{r['label']}:{r['idx']}"], 900)
        d = json.loads(o.strip().splitlines()[-1]) if rc in (0, 1) else dict(violations=[dict(msg=e[-500:], desc="")])
        for v in d["violations"]:
            say("repeated:", v["msg"], "\n ", v["desc"])
        return 1 if d["violations"] else 0
    if r["kind"] == "guided":
        rc, o, e = run([guided_build(r["profile"]), "case", r["case"]], 300)
        say(o.strip())
        return 1 if rc == 1 else 0
    if r["kind"] == "transcript" and "case" in r:
        if r["config"] not in ("i686", "chk", "o0", "os", "no-std"):
            return decide("C17", r["tier"], r["seed"])
        a = tr_build("rel", profile="release")
        b = tr32_build() if r["config"] == "i686" else tr_build(r["config"], profile="release" if r["config"] == "no-std" else r["config"], no_default=r["config"] == "no-std")
        x, y = (tr_lines(p, r["family"], r["case"], 1, True)[1] for p in (a, b))
        say(x, y)
        return 1 if x != y else 0
    return decide(r["property"], r["tier"], r["seed"])


def main():
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "setup":
        # every check builds what it needs; here only the toolchain's presence is looked at
        for c in (["cargo", "--version"], ["cargo", "+nightly", "miri", "--version"], ["valgrind", "--version"]):
            rc, o, e = run(c, 60)
            say(" ".join(c), "->", (o or e).strip())
            if rc != 0:
                sys.exit(2)
        sys.exit(0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(decide(prop, tier if tier in ("quick", "thorough") else "quick", seed))


if __name__ == "__main__":
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
