#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> <quick|thorough>

Builds the analyzer, compiles the observation harness together with /repo's current working tree
to LLVM IR (nothing is executed), lets the analyzer discharge the property's obligations on that
IR, writes evidence/<property>.json and reports violations the known-findings file does not list.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
TARGET = "x86_64-unknown-linux-gnu"


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


def analyzer():
    d = os.path.join(BUILD, "analyzer")
    rc, out = sh(["cargo", "build", "--release", "--offline", "-q"], {"CARGO_TARGET_DIR": d}, os.path.join(ROOT, "analyzer"))
    exe = os.path.join(d, "release", "bitflow")
    if rc != 0 or not os.path.exists(exe):
        print(out[-3000:])
        raise SystemExit("the analyzer does not build")
    return exe


# library features that change a property: harness feature that turns it on
FEATURE = {"C16": "real"}


def lower(opt, tmp, feature=None, harness=None, target=TARGET, sysroot=None):
    """Compile harness + /repo to IR at one optimisation level; returns (.ll files, error text)."""
    d = os.path.join(tmp, "O" + opt + (feature or "") + (target if sysroot else ""))
    env = {
        "CARGO_TARGET_DIR": d,
        "CARGO_PROFILE_DEV_OPT_LEVEL": opt,
        "RUSTFLAGS": ("--sysroot %s " % sysroot if sysroot else "") + "--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp --cap-lints allow",
    }
    rc, out = sh(["cargo", "build", "--offline", "--target", target] + (["--features", feature] if feature else []), env, harness or os.path.join(ROOT, "harness"))
    deps = os.path.join(d, target, "debug", "deps")
    if rc != 0:
        return None, out
    return sorted(os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".ll")), ""


def span(sp):
    """Where the code of an error was written (not the macro it went through)."""
    while sp.get("expansion") and "/harness/src/" in "/harness/" + sp["expansion"]["span"]["file_name"]:
        sp = sp["expansion"]["span"]
    return os.path.basename(sp["file_name"]), sp["line_start"]


def prune(lines, n, whole):
    """Drop the statement at line n (or the whole top-level item around it)."""
    first = next((i for i in range(n, -1, -1) if re.match(r"[a-z#]", lines[i])), 0)
    while first > 0 and lines[first - 1].startswith(("#[", "//")):
        first -= 1
    last = next((i for i in range(n, len(lines)) if re.match(r"[})]|[a-z].*(?:;|\})$", lines[i])), n)
    if not whole and lines[n].startswith(" "):
        depth, i = 0, n
        while i < last:
            depth += len(re.findall(r"[({\[]", lines[i])) - len(re.findall(r"[)}\]]", lines[i]))
            i += 1
            if depth <= 0:
                break
        if depth == 0:
            first, last = n, i - 1
    for i in range(first, last + 1):
        lines[i] = ""


def reduced(tmp, only=None):  # only: that module of the harness alone
    """The public interface changed under the harness: leave out what no longer compiles, so that the
    rest is still decided.  Returns (harness folder or None, errors)."""
    d = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(ROOT, "harness"), d, ignore=shutil.ignore_patterns("target"))
    if only:
        open(os.path.join(d, "src", "lib.rs"), "w").write("#![no_std]\npub mod %s;\n" % only)
    seen, errors = {}, []
    for _ in range(12):
        rc, out = sh(["cargo", "check", "--offline", "--message-format=json"], {"CARGO_TARGET_DIR": os.path.join(tmp, "hc")}, d)
        if rc == 0:
            return d, errors
        todo = {}
        for line in out.splitlines():
            try:
                m = json.loads(line).get("message")
            except ValueError:
                continue
            if not isinstance(m, dict) or m.get("level") != "error":
                continue
            for sp in m.get("spans", []):
                if sp["is_primary"]:
                    f, n = span(sp)
                    todo.setdefault((f, n), m["message"])
        if not todo:
            return None, errors
        for (f, n), msg in sorted(todo.items()):
            p = os.path.join(d, "src", f)
            if not os.path.exists(p):
                return None, errors
            lines = open(p).read().split("\n")
            if not lines[n - 1]:
                continue
            top = next((i for i in range(n - 1, -1, -1) if re.match(r"[a-z]", lines[i])), 0)
            errors.append((f, lines[n - 1].strip(), msg))
            seen[(f, top)] = seen.get((f, top), 0) + 1
            macro = "! {" in lines[top]
            prune(lines, n - 1, not macro and seen[(f, top)] > 12)
            open(p, "w").write("\n".join(lines))
    return None, errors


def analyse(exe, prop, lls, tmp, tier, only, total, cap=150, values=False):
    out = os.path.join(tmp, "result.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "check", "--prop", prop, "--spec", os.path.join(ROOT, "spec"), "--names", os.path.join(ROOT, "harness/src"),
           "--jobs", "8", "--cap", str(cap), "--total", str(total), "--out", out]
    if only:
        cmd += ["--roots", ",".join(only)]
    if values:  # everything known about these entry points, whichever property it belongs to
        cmd += ["--only", "root_"]
    rc, log = sh(cmd + lls, timeout=total + 60)
    if not os.path.exists(out):
        return None, log
    return json.load(open(out)), log


def known(prop):
    """Findings recorded (not repaired): {key: description}."""
    r = {}
    p = os.path.join(ROOT, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            r[m.group(2)] = m.group(3)
    return r


def key(o):
    return o["root"] + "::" + re.sub(r"\s+", "", o["path"])


def main():
    if sys.argv[1] == "--setup":
        analyzer()
        return
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ir-", dir=BUILD)
    try:
        code = check(prop, tier, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def replay_file(prop, text):
    p = os.path.join(ROOT, "evidence", prop + ".violation.txt")
    open(p, "w").write(text)
    return p


# What compiled code may leave to its environment on a machine without an operating system.
FREESTANDING = re.compile(r"^(mem(cpy|move|set|cmp)|bcmp|strlen|rust_eh_personality|_Unwind_Resume|_GLOBAL_OFFSET_TABLE_|__rust_\w*unstable\w*|f?(ma|mod|min|max|abs|dim)[fl]?|(floor|ceil|round|roundeven|trunc|rint|sqrt|pow|exp|exp2|log|log2|log10|sin|cos|fma|fmod|fmin|fmax|fabs|copysign|ldexp)[fl]?)$")


def symbols(archive):
    """(undefined, defined) symbols of all objects of an archive, read from its symbol tables."""
    rc, out = sh(["nm", archive])
    u, d = set(), set()
    for l in out.splitlines():
        m = re.match(r"^[0-9a-f ]*\b([A-Za-z]) (\S+)$", l)
        if m:
            (u if m.group(1) in "Uw" else d).add(m.group(2))
    return u - d, d


def where_std(text):
    """Places outside of test code where the library's own source names std or alloc."""
    res = []
    for base, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            src = open(os.path.join(base, f), errors="replace").read().split("#[cfg(test)]\nmod ")[0]
            lines = src.splitlines()
            for i, l in enumerate(lines):
                if re.match(r"^\s*//", l) or any("cfg(test)" in x for x in lines[max(0, i - 2):i]):
                    continue
                if re.search(r"\b(extern crate (std|alloc)|(std|alloc)::|asm!)|extern \"C\"", l):
                    res.append("src/%s:%d `%s`" % (os.path.relpath(os.path.join(base, f), os.path.join(REPO, "src")), i + 1, l.strip()[:80]))
    return res


def freestanding(prop, tier, tmp, t0):
    """The library, linked into a program that has neither std nor an allocator, leaves nothing to
    its environment but the memory routines the compiler itself emits."""
    vio, undec, obligations, samples, builds, nsym, fns = [], [], 0, [], [], 0, []
    rule = "the library builds into a program without std and without an allocator, and calls nothing outside of it"
    rc, out = sh(["cargo", "check", "--offline", "--lib"], {"CARGO_TARGET_DIR": os.path.join(tmp, "lib")}, REPO)
    if rc != 0:
        print("the library does not compile:\n" + out[-2000:])
        write_evidence(prop, tier, t0, None, [], [], ["library does not compile"], [])
        return 1
    for opt, feature in [("2", None), ("2", "real")] + ([("0", None), ("3", None), ("s", None), ("0", "real")] if tier == "thorough" else []):
        d = os.path.join(tmp, "bare%s%s" % (opt, feature or ""))
        env = {"CARGO_TARGET_DIR": d, "CARGO_PROFILE_DEV_OPT_LEVEL": opt, "RUSTFLAGS": "--emit=llvm-ir,link --cap-lints allow"}
        rc, out = sh(["cargo", "build", "--offline", "--target", TARGET] + (["--features", feature] if feature else []), env, os.path.join(ROOT, "bare"))
        name = "opt-level %s%s" % (opt, ", feature caps_ea_real_entry_size" if feature else "")
        obligations += 1
        if rc != 0:
            m = re.search(r"^error(?:\[\w+\])?: (no global memory allocator found.*|found duplicate lang item.*|.*requires `eh_personality`.*|language item required.*|unwinding panics are not supported.*)", out, re.M)
            if m:
                vio.append({"root": "bare", "path": "build", "rule": rule, "construct": "; ".join(where_std(out)[:5]) or "dependency graph of the library", "detail": "%s: %s" % (name, m.group(1)[:200])})
            else:
                e = re.search(r"^error.*(?:\n.*){0,6}", out, re.M)
                undec.append({"root": "bare", "path": "." if not feature else "feature", "rule": rule, "construct": "", "detail": "%s does not compile: %s" % (name, e.group(0) if e else out[-200:])})
            continue
        u, known_syms = symbols(os.path.join(d, TARGET, "debug", "libbare.a"))
        builds.append(name)
        nsym += len(known_syms) + len(u)
        obligations += 1
        samples.append({"build": name, "left to the environment": sorted(u), "symbols read": len(known_syms)})
        deps = os.path.join(d, TARGET, "debug", "deps")
        text = "".join(open(os.path.join(deps, f), errors="replace").read() for f in sorted(os.listdir(deps)) if re.match(r"(pcics|bare)-.*\.ll$", f))
        bodies = re.findall(r"^define [^\n]*@\"?([\w.$]+)\"?\([^\n]*\{\n(.*?)^\}", text, re.M | re.S)
        fns = fns or [b[0] for b in bodies]
        for s in sorted(u):
            if not FREESTANDING.match(s):
                by = [n for n, b in bodies if re.search(r"@\"?%s\b" % re.escape(s), b)]
                vio.append({"root": "bare", "path": s, "rule": rule, "construct": by[0] if by else "a dependency of the library", "detail": "%s: refers to `%s`, which only an operating system or a runtime provides" % (name, s)})
        for n, b in bodies:
            m = re.search(r"call [^\n]*\basm (?:\w+ )*\"([^\"]+)\"", b)
            if m:
                vio.append({"root": "bare", "path": n, "rule": rule, "construct": n, "detail": "%s: machine instructions `%s` outside of the language" % (name, m.group(1)[:60])})
    seen = set()
    vio = [o for o in vio if not (key(o) in seen or seen.add(key(o)))]
    res = {"roots": ["bare"], "obligations": obligations, "discharged": obligations - len(undec) - len(vio), "functions": fns, "instructions": nsym, "block_visits": 0, "bdd_nodes": 0, "samples": samples}
    return report(prop, tier, t0, res, vio, undec, builds)


LIFETIME = re.compile(r"lifetime|borrow|does not live long enough|cannot return (value|reference)|dropped while|outlive|cannot move out of|lives? (shorter|longer)")


def outlive(prop, tier, tmp, t0):
    """Compile-time witnesses: every line of harness/src/outlive.rs is a function that only the borrow
    checker has to accept; a line it rejects names what borrows from more than the data."""
    rule = "what is decoded borrows only from the data and header it was decoded from"
    src = open(os.path.join(ROOT, "harness", "src", "outlive.rs")).read()
    names = re.findall(r"^fn (\w+)", src, re.M)
    vio, undec = [], []
    d, errors = reduced(tmp, only="outlive")
    if errors or d is None:
        rc, out = sh(["cargo", "check", "--offline", "--lib"], {"CARGO_TARGET_DIR": os.path.join(tmp, "lib")}, REPO)
        if rc != 0:
            print("the library does not compile:\n" + out[-2000:])
            write_evidence(prop, tier, t0, None, [], [], ["library does not compile"], [])
            return 1
    for f, text, msg in errors:
        m = re.match(r"fn (\w+)", text)
        if m:
            o = {"root": "outlive", "path": m.group(1), "rule": rule, "construct": text[:200], "detail": msg}
            (vio if LIFETIME.search(msg) and "lifetime argument" not in msg else undec).append(o)
    if d is None:
        undec.append({"root": "outlive", "path": ".", "rule": rule, "construct": "", "detail": "the witnesses do not compile"})
    seen = set()
    vio = [o for o in vio if not (key(o) in seen or seen.add(key(o)))]
    res = {"roots": names, "obligations": len(names), "discharged": len(names) - len({o["path"] for o in vio + undec}), "functions": ["outlive::" + n for n in names], "instructions": 0, "block_visits": 0, "bdd_nodes": 0,
           "samples": [{"witness": l} for l in src.splitlines() if l.startswith("fn ")][::8]}
    return report(prop, tier, t0, res, vio, undec, ["type check and borrow check"])


# Machines unlike the one the tests run on.
MACHINES = {"quick": ["powerpc-unknown-linux-gnu"], "thorough": ["powerpc-unknown-linux-gnu", "i686-unknown-linux-gnu"]}
# Entry points the analysis of other machines leaves out: those of the feature build, those that order
# links by a cell of the harness read back in the order of x86-64, and three whose case split the
# 32-bit lowering no longer shows.
HOST_ONLY = re.compile(r"root_(k_|f_)|root_(ecap_0005|echain_0005|ecap_0008)$")


def sysroot(tmp, target):
    """The core library for another machine, from the sources the toolchain carries."""
    d = os.path.join(tmp, "sysroot")
    lib = os.path.join(d, "lib", "rustlib", target, "lib")
    os.makedirs(lib, exist_ok=True)
    rc, out = sh(["rustc", "--print", "sysroot"], cwd=os.path.join(ROOT, "harness"))
    core = os.path.join(out.strip(), "lib", "rustlib", "src", "rust", "library", "core", "src", "lib.rs")
    if rc != 0 or not os.path.exists(core):
        return None, "no sources of the core library"
    cb = os.path.join(tmp, "cb.rs")
    open(cb, "w").write("#![feature(compiler_builtins)]\n#![allow(internal_features)]\n#![compiler_builtins]\n#![no_std]\n")
    for name, src, more in (("core", core, ["-C", "overflow-checks=on", "-C", "embed-bitcode=no"]), ("compiler_builtins", cb, ["--sysroot", d])):
        rc, out = sh(["rustc", "--edition", "2024", "--crate-name", name, "--crate-type", "rlib", src, "--target", target, "-O", "-C", "panic=abort",
                      "-Z", "force-unstable-if-unmarked", "--cap-lints", "allow", "-o", os.path.join(lib, "lib%s.rlib" % name)] + more, {"RUSTC_BOOTSTRAP": "1"}, os.path.join(ROOT, "harness"))
        if rc != 0:
            return None, out
    return d, ""


def machines(prop, tier, tmp, t0):
    """Every entry point again, lowered for a machine of 32 bits whose bytes are the other way round."""
    exe = analyzer()
    nothing = {"roots": [], "obligations": 0, "discharged": 0, "functions": [], "instructions": 0, "block_visits": 0, "bdd_nodes": 0, "samples": []}
    rc, out = sh(["cargo", "check", "--offline", "--lib"], {"CARGO_TARGET_DIR": os.path.join(tmp, "lib")}, REPO)
    if rc != 0:
        print("the library does not compile:\n" + out[-2000:])
        write_evidence(prop, tier, t0, None, [], [], ["library does not compile"], [])
        return 1
    names = []
    for f in sorted(os.listdir(os.path.join(ROOT, "spec"))):
        names += re.findall(r"^root (\w+)", open(os.path.join(ROOT, "spec", f)).read(), re.M)
    only = [n for n in names if not HOST_ONLY.match(n)]
    vio, undec, levels, res, harness = [], [], [], None, None
    for target in MACHINES.get(tier, MACHINES["quick"]):
        on = lambda o: dict(o, root=o["root"] + "@" + target)
        d, err = sysroot(tmp, target)
        lls = None
        if d:
            lls, err = lower("2", tmp, None, harness, target, d)
            if lls is None and harness is None:
                harness, errors = reduced(tmp)
                for f, text, msg in errors[:20]:
                    print("left out: %s `%s`: %s" % (f, text[:80], msg[:160]))
                lls, err = lower("2", tmp, None, harness, target, d) if harness else (None, err)
        r = analyse(exe, prop, lls, tmp, tier, only, 420 if tier == "quick" else 1500, 60, True)[0] if lls else None
        if r is None:
            undec.append({"root": target, "path": ".", "rule": "analysis", "construct": "", "detail": "not analysed: " + err[-300:]})
            continue
        levels.append("2 for " + target)
        bad, open_ = r["bad"], r["undecided"]
        if bad:  # as for the host: a second lowering has to agree
            ll3, _ = lower("3", tmp, None, harness, target, d)
            r3 = analyse(exe, prop, ll3, tmp, tier, sorted({o["root"] for o in bad}), 200, 60, True)[0] if ll3 else None
            if r3:
                levels.append("3 for " + target)
                left = {key(o) for o in r3["bad"] + r3["undecided"]} | {o["root"] for o in r3["undecided"] if o["path"] == "."}
                bad = [o for o in bad if key(o) in left or o["root"] in left or o["root"] not in r3["roots"]]
        vio += [on(o) for o in bad]
        undec += [on(o) for o in open_]
        r["roots"] = [n + "@" + target for n in r["roots"]]
        if res:
            for k in ("roots", "obligations", "discharged", "instructions", "block_visits", "bdd_nodes"):
                res[k] += r[k]
        else:
            res = r
    return report(prop, tier, t0, res or nothing, vio, undec, levels)


def check(prop, tier, tmp, t0):
    if prop == "C33":
        return machines(prop, tier, tmp, t0)
    if prop == "C32":
        return outlive(prop, tier, tmp, t0)
    if prop == "C31":
        return freestanding(prop, tier, tmp, t0)
    exe = analyzer()
    vio, undec, res, levels, witness, harness = [], [], None, [], [], None
    lls, err = lower("2", tmp)
    if lls is None:
        # Is it the library itself that does not compile, or only its public interface that changed?
        rc, out = sh(["cargo", "check", "--offline", "--lib"], {"CARGO_TARGET_DIR": os.path.join(tmp, "lib")}, REPO)
        m = re.search(r"^error.*(?:\n.*){0,6}", err, re.M)
        if rc != 0:
            print("the library does not compile:\n" + out[-2000:])
            write_evidence(prop, tier, t0, None, [], [], ["library does not compile"], [])
            return 1
        harness, errors = reduced(tmp)
        for f, text, msg in errors[:20]:
            print("left out: %s `%s`: %s" % (f, text[:80], msg[:160]))
            w = re.match(r"plain::<(.*)>\(\);$", text)
            if w and prop == "C27":
                witness.append({"root": "witness", "path": w.group(1), "rule": "decoded values can be sent to and shared between threads and hold nothing that can change behind a shared reference", "construct": w.group(1), "detail": msg})
        lls, err = lower("2", tmp, harness=harness) if harness else (None, err)
    if lls is None:
        undec = [{"root": "all", "path": ".", "rule": "analysis", "construct": "", "detail": "the harness does not compile: " + (m.group(0) if m else err[-300:])}]
        res = {"roots": [], "obligations": 1, "discharged": 0, "functions": [], "instructions": 0, "block_visits": 0, "bdd_nodes": 0, "samples": []}
    else:
        levels.append("2")
        res, log = analyse(exe, prop, lls, tmp, tier, None, 420)
        if res is None:
            undec = [{"root": "all", "path": ".", "rule": "analysis", "construct": "", "detail": "the analysis did not finish: " + log[-300:]}]
            res = {"roots": [], "obligations": 0, "discharged": 0, "functions": [], "instructions": 0, "block_visits": 0, "bdd_nodes": 0, "samples": [], "bad": [], "undecided": []}
        else:
            vio, undec = res["bad"], res["undecided"]
        # A second lowering settles what the first left open, and confirms what it refuted.
        if res["roots"] and (vio or undec) or tier == "thorough":
            lls3, _ = lower("3", tmp, None, harness)
            if lls3:
                again = sorted({o["root"] for o in vio + undec})
                r3, _ = analyse(exe, prop, lls3, tmp, tier, None if tier == "thorough" else again, 200 if tier == "quick" else 1500)
                if r3:
                    levels.append("3")
                    open3 = {key(o) for o in r3["bad"] + r3["undecided"]}
                    bad3 = {key(o): o for o in r3["bad"]}
                    whole3 = {o["root"] for o in r3["undecided"] if o["path"] == "."}
                    settled = lambda o: key(o) not in open3 and o["root"] not in whole3 and o["root"] in r3["roots"]
                    # a root given up on may have hidden violations: take the second lowering's
                    given_up = {o["root"] for o in undec if o["path"] == "."}
                    old = {key(o) for o in vio}
                    vio = [o for o in vio if not settled(o)]
                    vio += [o for k, o in bad3.items() if k not in old and (o["root"] in given_up or k in {key(u) for u in undec})]
                    n = len(undec)
                    undec = [o for o in undec if not settled(o) and key(o) not in bad3 and not (o["path"] == "." and o["root"] not in whole3 and o["root"] in given_up)]
                    res["discharged"] += n - len(undec)
    if prop in FEATURE and levels:
        llf, _ = lower("2", tmp, FEATURE[prop], harness)
        rf = analyse(exe, prop + "F", llf, tmp, tier, None, 120)[0] if llf else None
        if rf:
            levels.append("2 with library feature")
            vio, undec = vio + rf["bad"], undec + rf["undecided"]
            res["roots"] += rf["roots"]
            for k in ("obligations", "discharged", "instructions", "block_visits", "bdd_nodes"):
                res[k] += rf[k]
        else:
            undec.append({"root": "feature", "path": ".", "rule": "analysis", "construct": "Cargo.toml", "detail": "the feature build was not analysed"})
    return report(prop, tier, t0, res, vio + witness, undec, levels)


def report(prop, tier, t0, res, vio, undec, levels):
    kf = known(prop)
    found = sorted({key(o) for o in vio if key(o) in kf})
    for k in found:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kf[k], k))
    new = [o for o in vio if key(o) not in kf]
    for o in undec[:20]:
        print("UNDECIDED %s [%s] %s: %s" % (key(o), o["construct"], o["rule"][:120], o["detail"][:200]))
    print("%s %s: %d entry points, %d obligations, %d discharged, %d violated, %d undecided; %d functions, %d instructions analysed; %.0f s"
          % (prop, tier, len(res["roots"]), res["obligations"], res["discharged"], len(new), len(undec), len(res["functions"]), res["instructions"], time.time() - t0))
    write_evidence(prop, tier, t0, res, new, found, [key(o) for o in undec], levels)
    if not new:
        return 0
    text = "".join("%s\n  construct: %s\n  rule:      %s\n  found:     %s\n" % (key(o), o["construct"], o["rule"], o["detail"]) for o in new)
    text += "\nreproduce: python3 /verif/run.py %s %s\n" % (prop, tier)
    rp = replay_file(prop, text)
    for o in new[:12]:
        print("violated: %s [%s] %s -- %s" % (key(o), o["construct"], o["rule"][:200], o["detail"][:400]))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


def write_evidence(prop, tier, t0, res, new, found, undec, levels):
    res = res or {"roots": [], "obligations": 0, "discharged": 0, "functions": [], "instructions": 0, "block_visits": 0, "bdd_nodes": 0, "samples": []}
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
        "coverage": {
            "obligations": res["obligations"], "discharged": res["discharged"],
            "checker_cmd": "python3 /verif/run.py %s %s" % (prop, tier),
            "trusted_base": "rustc, its linker checks for a no_std staticlib and the symbol tables it writes" if prop == "C31" else "rustc/LLVM lowering of /repo and the harness to IR; the bitflow abstract interpreter (/verif/analyzer); the reference tables (/verif/spec); the observers (/verif/harness)",
            "rule": "closure of the symbols referenced by the library linked into a program without std and without a global allocator: nothing is left to the environment but compiler-emitted memory routines; no inline machine code" if prop == "C31" else "abstract interpretation of the compiler's IR from each entry point with input bytes and length unconstrained (length below 8192); every observable must equal the reference expression for every input, and no panic may be reachable",
            "entry_points": res["roots"], "functions_analysed": len(res["functions"]), "functions": [f for f in res["functions"] if "pcics" in f][:200],
            "instructions": res["instructions"], "block_visits": res["block_visits"], "decision_diagram_nodes": res["bdd_nodes"],
            "lowerings": levels, "undecided": undec[:50], "known_findings": found,
            "violations": [{"key": key(o), "construct": o["construct"], "detail": o["detail"][:300]} for o in new[:50]],
            "samples": res["samples"],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
