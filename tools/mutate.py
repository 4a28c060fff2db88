#!/usr/bin/env python3
"""Mutation campaign: small edits of the library that the repository's own tests do not notice, each run
against the monitored workloads. Works in scratch copies under /tmp/mut; /repo is only read.

  tools/mutate.py [--files=gcm,aes] [--sample=N] [--seed=N] [--workers=N] [--out=FILE]
"""
import os, random, re, shutil, subprocess, sys, threading, json, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT = dict(a.lstrip("-").split("=", 1) for a in sys.argv[1:])
W = "/tmp/mut"
PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C14", "C16", "C20", "C10", "C09"]
BYFILE = dict(gcm=["C06", "C16", "C09", "C10"], ghash=["C06"], hkdf=["C04", "C16"], hmac=["C02", "C03", "C04", "C16"], util=["C20", "C03", "C09", "C16"],
              chacha20=["C07", "C08", "C16"], poly1305=["C08", "C09", "C10", "C16"], sha2=["C01", "C16", "C02"], aes=["C05", "C06", "C16"], curve25519=["C11", "C12", "C13"],
              ed25519=["C13", "C14", "C16"], const_curve25519=["C13", "C14"])
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
         (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+= ", " -= "), (r" -= ", " += "), (r" \^= ", " |= "), (r" \|= ", " ^= "), (r" &= ", " |= "), (r" % ", " / "), (r" / ", " % "),
         (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.\.=", ".."),
         (r"\bu64\b", "u32"), (r"rotate_left", "rotate_right"), (r"rotate_right", "rotate_left"), (r"LittleEndian", "BigEndian"), (r"BigEndian", "LittleEndian"),
         (r"\bu32\b", "u16"), (r"\busize\b", "u32"), (r"\.min\(", ".max("), (r"\bi64\b", "i32"), (r"!", "")]


def body(path):
    """(index, line) of code lines outside tests and hooks"""
    lines = open(path).read().split("\n")
    out = []
    i = 0
    while i < len(lines):
        l = lines[i]
        if re.match(r"\s*#\[cfg\((test|crypto_pure_verif)\)\]", l):
            depth = 0
            i += 1
            while i < len(lines):
                depth += lines[i].count("{") - lines[i].count("}")
                i += 1
                if depth <= 0 and i and ("}" in lines[i - 1] or ";" in lines[i - 1]):
                    break
            continue
        s = l.strip()
        if s and not s.startswith("//") and not s.startswith("#") and not s.startswith("use "):
            out.append((i, l))
        i += 1
    return lines, out


def mutants(path):
    lines, code = body(path)
    for i, l in code:
        if re.match(r"^\s*(-?(0x)?[0-9a-fA-F_]+,\s*)+(-?(0x)?[0-9a-fA-F_]+)?$", l):
            yield i, re.sub(r"([0-9a-fA-F])(,?)$", lambda m: ("1" if m[1] != "1" else "2") + m[2], l.rstrip()), "table"
            continue
        for pat, new in SWAPS:
            for m in re.finditer(pat, l):
                if pat == "!" and re.match(r"!(\(|\[|=)", l[m.start():]) and re.search(r"\w$", l[:m.start()]):
                    continue
                if pat == "!" and l[m.start():m.start() + 2] == "!=":
                    continue
                yield i, l[:m.start()] + new + l[m.end():], f"{pat}->{new}"
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?!\w)", l):
            try:
                v = int(m[0].replace("_", ""), 0)
            except ValueError:
                continue
            for nv in {v + 1, max(v - 1, 0)} - {v}:
                yield i, l[:m.start()] + (hex(nv) if m[0].startswith("0x") else str(nv)) + l[m.end():], f"{m[0]}->{nv}"
        if re.match(r"^\s*(?!let |return|use |pub |fn |const |static |type |break|continue)[\w*(&.\[].*;$", l) and l.count("(") == l.count(")"):
            yield i, re.match(r"\s*", l)[0] + "();", "deleted"
        if re.match(r"^\s*(if|while) .*\{$", l) and " let " not in l:
            yield i, re.sub(r"(if|while) .*\{$", r"\1 false {", l), "never"
            if "while" not in l:
                yield i, re.sub(r"if .*\{$", "if true {", l), "always"


def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, CARGO_TERM_COLOR="never", **(env or {})), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, ""


LIMIT = []


def setup(k):
    d = f"{W}/w{k}"
    if not os.path.exists(d):
        os.makedirs(d + "/verif")
    shutil.rmtree(d + "/repo", ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    for c in ("harness", "refmodel"):
        shutil.rmtree(f"{d}/verif/{c}", ignore_errors=True)
        shutil.copytree(f"{V}/{c}", f"{d}/verif/{c}")
    p = d + "/verif/harness/Cargo.toml"
    s = open(p).read().replace('"/repo"', f'"{d}/repo"')
    open(p, "w").write(s)
    return d


def judge(d, rel, new_text):
    p = f"{d}/repo/src/{rel}"
    old = open(p).read()
    open(p, "w").write(new_text)
    try:
        rc, o = sh(["cargo", "test", "--offline", "--lib", "--no-run", "--target-dir", d + "/tt"], d + "/repo", 200, dict(RUSTFLAGS="-Awarnings"))
        if rc != 0:
            return "no-build", ""
        rc, o = sh(LIMIT + ["cargo", "test", "--offline", "--lib", "--target-dir", d + "/tt"], d + "/repo", 60, dict(RUSTFLAGS="-Awarnings"))
        if rc != 0:
            return "tests", ""
        rc, o = sh(["cargo", "build", "--offline", "--profile", "chk", "--features", "hooks", "--target-dir", d + "/t"], d + "/verif/harness", 400,
                   dict(RUSTFLAGS="--cfg crypto_pure_verif -Awarnings", CARGO_PROFILE_CHK_INCREMENTAL="true", CARGO_PROFILE_CHK_CODEGEN_UNITS="64"))
        if rc != 0:
            return "harness-build", o[-300:]
        own = BYFILE.get(rel[:-3], [])
        for prop, scale in [(p, "0.1") for p in own] + [(p, "1.0") for p in own] + [(p, "0.1") for p in PROPS if p not in own]:
            rc, o = sh(LIMIT + [d + "/t/chk/cpmon", "run", "--prop", prop, "--seed", "5", "--tier", "quick", "--variant", "chk", "--scale", scale, "--threads", "1"], d, 300)
            if rc is None:
                return "killed", prop + " timeout"
            if rc == 1:
                return "killed", prop + " " + scale
            if rc != 0:
                return "killed", f"{prop} rc={rc}"
        return "SURVIVED", ""
    finally:
        open(p, "w").write(old)


def main():
    files = OPT.get("files")
    allm = []
    for p in sorted(glob.glob("/repo/src/*.rs")):
        rel = os.path.basename(p)
        if files and rel[:-3] not in files.split(","):
            continue
        lines, _ = body(p)
        ms = list(mutants(p))
        rnd = random.Random(int(OPT.get("seed", 1)))
        n = int(OPT.get("sample", 10**9))
        if len(ms) > n:
            ms = rnd.sample(ms, n)
        for i, new, what in ms:
            if lines[i].rstrip() != new.rstrip():
                allm.append((rel, i, lines[i], new, what))
    random.Random(3).shuffle(allm)
    allm = allm[int(OPT.get("skip", 0)):]
    print(len(allm), "mutants", flush=True)
    out = open(OPT.get("out", "/tmp/mut/out.jsonl"), "a")
    lock = threading.Lock()
    it = iter(allm)
    tally = collections.Counter()

    def work(k):
        d = setup(k)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            rel, i, old, new, what = m
            lines = open(f"/tmp/mut/w{k}/repo/src/{rel}").read().split("\n")
            lines[i] = new
            r, by = judge(d, rel, "\n".join(lines))
            with lock:
                tally[rel, r] += 1
                if r not in ("no-build", "tests"):
                    out.write(json.dumps(dict(file=rel, line=i + 1, old=old.strip(), new=new.strip(), what=what, result=r, by=by)) + "\n")
                    out.flush()
                if sum(tally.values()) % 50 == 0:
                    print(sum(tally.values()), collections.Counter({r: sum(v for (a, b), v in tally.items() if b == r) for r in {b for a, b in tally}}), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(OPT.get("workers", 8)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k, v in sorted(tally.items()):
        print(k, v)


main()
