#!/usr/bin/env python3
"""Runs the contract units of one property against /repo's current sources.

usage: run.py PROPERTY [--tier quick|thorough] [--unit NAME] [--keep] [-v]

exit 0: every obligation of every unit was discharged (or, for a unit whose
        proof text could not be attached to the changed source, its bounded
        form held and the evidence says so); known findings are printed.
exit 1: with a line VIOLATION property=.. replay=.. otherwise.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil
import signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
UNITS = os.path.join(VERIF, "units")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = 8
WARN_OK = set()

# ---------------------------------------------------------------- units

class Unit:
    pass

MULTI = {"loop", "trusted", "bound", "note"}

def parse_units(path):
    """A unit is a comment block starting with '@unit NAME'."""
    text = open(path).read()
    out = []
    for m in re.finditer(r"/\*\s*@unit\b(.*?)\*/", text, re.S):
        body = "@unit" + m.group(1)
        u = Unit()
        u.file = path
        u.d = {}
        u.multi = {k: [] for k in MULTI}
        cur = None
        for line in body.split("\n"):
            line = re.sub(r"^\s*\*? ?", "", line).rstrip()
            mm = re.match(r"@(\w+)\s*(.*)$", line)
            if mm:
                cur = mm.group(1)
                if cur in MULTI:
                    u.multi[cur].append(mm.group(2))
                else:
                    u.d[cur] = (u.d[cur] + " " + mm.group(2)) if cur in u.d else mm.group(2)
            elif cur and line.strip():
                if cur in MULTI:
                    u.multi[cur][-1] += "\n" + line
                else:
                    u.d[cur] += " " + line
        u.name = u.d["unit"].strip()
        u.props = u.d["property"].replace(",", " ").split()
        u.kind = u.d.get("kind", "bounded").strip()
        u.entry = u.d["entry"].strip()
        u.src = u.d.get("src", "").split()
        u.enforce = u.d.get("enforce", "").split()
        u.replace = u.d.get("replace", "").split()
        u.flags = u.d.get("flags", "").split()
        u.defs = u.d.get("defs", "").split()
        u.bdefs = u.d.get("bdefs", "").split()
        u.unwind = u.d.get("unwind", "").strip()
        u.unwindset = u.d.get("unwindset", "").strip()
        u.bunwind = u.d.get("bunwind", u.unwind or "10").strip()
        u.bunwindset = u.d.get("bunwindset", u.unwindset).strip()
        u.contracts = u.d.get("contracts", "").split()
        u.tier = u.d.get("tier", "quick").strip()
        u.solver = u.d.get("solver", "sat").strip()
        u.nobody = set(u.d.get("nobody", "").split())
        u.timeout = int(u.d.get("timeout", "400"))
        u.fuzz = u.d.get("fuzz", "yes").strip() == "yes"
        u.bmc = u.d.get("bmc", "yes" if u.kind in ("proof", "bounded") else "no").strip() == "yes"
        u.exhaust = u.kind == "enum" or u.d.get("exhaust", "no").strip() == "yes"
        u.secs = int(u.d.get("secs", "20"))
        out.append(u)
    return out

def all_units():
    r = []
    for f in sorted(glob.glob(os.path.join(UNITS, "*.c"))):
        r += parse_units(f)
    return r

VT = "/opt/veriftools/pyvenv/bin/python3"
RUNVC = os.path.join(VERIF, "vcg", "run_unit.py")

def vcg_units():
    """Units of the deductive verifier: /verif/specs/*.py"""
    py = VT if os.path.exists(VT) else "python3-vt"
    rc, o, e, t = sh([py, RUNVC, "--list"], 120)
    if rc != 0:
        raise RuntimeError("specs: " + e[-2000:])
    out = []
    for d in json.loads(o):
        u = Unit()
        u.name, u.props, u.native, u.tier, u.timeout = d["name"], d["props"], d["native"], d["tier"], d["timeout"]
        u.contracts = d["functions"]; u.enforce = []; u.kind = "vcg"; u.file = d["file"]; u.solver = "vcg"
        u.multi = {"loop": [], "trusted": d["trusted"], "bound": [], "note": d["notes"]}
        u.fuzz = False
        out.append(u)
    return out

# ---------------------------------------------------------------- processes

def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def sh(cmd, timeout=None, env=None, cwd=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, cwd=cwd, errors="replace", start_new_session=True, preexec_fn=limit)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o, e, time.time() - t

# ---------------------------------------------------------------- loops

def lex_spans(s):
    """Returns a copy of s with comments, strings and directives blanked."""
    out = list(s)
    i, n = 0, len(s)
    bol = True
    def blank(a, b):
        for k in range(a, min(b, n)):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = s[i]
        if s.startswith("/*", i):
            j = s.find("*/", i + 2); j = n if j < 0 else j + 2
            blank(i, j); i = j; continue
        if s.startswith("//", i):
            j = s.find("\n", i); j = n if j < 0 else j
            blank(i, j); i = j; continue
        if c in "\"'":
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            blank(i, j + 1); i = j + 1; bol = False; continue
        if c == "#" and bol:
            j = i
            while True:
                j = s.find("\n", j)
                if j < 0: j = n; break
                if s[j - 1] == "\\": j += 1; continue
                break
            blank(i, j); i = j; continue
        if c == "\n": bol = True
        elif not c.isspace(): bol = False
        i += 1
    return "".join(out)

def match(s, i, o, c):
    d = 0
    for k in range(i, len(s)):
        if s[k] == o: d += 1
        elif s[k] == c:
            d -= 1
            if d == 0: return k
    return -1

def annotate(source, specs):
    """specs: list of (function, ordinal, clauses). Purely additive."""
    text = open(source, errors="replace").read()
    b = lex_spans(text)
    ins = []
    for fn, k, clauses in specs:
        found = None
        for m in re.finditer(r"\b%s\s*\(" % re.escape(fn), b):
            e = match(b, m.end() - 1, "(", ")")
            if e < 0: continue
            mm = re.match(r"\s*\{", b[e + 1:])
            if mm:
                st = e + 1 + mm.end() - 1
                found = (st, match(b, st, "{", "}"))
                break
        if not found:
            raise LookupError("function %s has no definition in %s" % (fn, source))
        loops = [m for m in re.finditer(r"\b(for|while|do)\b", b[found[0]:found[1]])]
        dow = []
        pos = []
        for m in loops:
            at = found[0] + m.start()
            w = m.group(1)
            if w == "do":
                raise LookupError("do loop in %s" % fn)
            p = b.index("(", at)
            pos.append(match(b, p, "(", ")") + 1)
        if k >= len(pos):
            raise LookupError("loop %d of %s is not there" % (k, fn))
        ins.append((pos[k], clauses, fn, len(pos)))
    out = text
    for p, clauses, _, _ in sorted(ins, key=lambda x: -x[0]):
        out = out[:p] + " " + " ".join(clauses.split("\n")) + " " + out[p:]
    return '#line 1 "%s"\n' % source + out

# ---------------------------------------------------------------- building

class Builder:
    def __init__(self, work):
        self.work = work
        self.native_ready = None
        self.gbs = {}

    def cc_flags(self, u, mode, d):
        f = ["-DVP_%s=1" % mode, "-D_DEBUG", "-I" + d, "-iquote", REPO,
             "-I" + os.path.join(VERIF, "vp"), "-I" + UNITS, "-D_GNU_SOURCE"]
        f += u.defs
        if mode != "PROOF":
            f += u.bdefs
        return f

    def prepare(self, u, mode, with_loops):
        d = os.path.join(self.work, "%s.%s%d" % (u.name, mode, with_loops))
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        specs = {}
        if with_loops:
            for t in u.multi["loop"]:
                head, _, clauses = t.partition("\n")
                srcname, fn, k = head.split()
                specs.setdefault(srcname, []).append((fn, int(k), clauses))
        for f in glob.glob(REPO + "/*.c"):
            n = os.path.basename(f)
            o = os.path.join(d, "src", n)
            if n in specs:
                open(o, "w").write(annotate(f, specs[n]))
            else:
                open(o, "w").write('#include "%s"\n' % f)
        return d

    def goto(self, u, mode, contracts):
        """returns (gb, log) ; raises RuntimeError"""
        d = self.prepare(u, mode, contracts)
        a = os.path.join(d, "a.gb")
        srcs = [os.path.join(d, "src", s) for s in u.src]
        cmd = ["goto-cc", "-o", a, "--function", u.entry] + self.cc_flags(u, mode, d) + \
              [u.file, os.path.join(VERIF, "vp", "alloc.c")] + srcs
        rc, o, e, t = sh(cmd, 300)
        if rc != 0:
            raise RuntimeError("goto-cc: " + (o + e)[-3000:])
        if contracts and (u.enforce or u.replace or u.multi["loop"]):
            b = os.path.join(d, "b.gb")
            cmd = ["goto-instrument", "--dfcc", u.entry]
            for f in u.enforce: cmd += ["--enforce-contract", f]
            for f in u.replace: cmd += ["--replace-call-with-contract", f]
            if u.multi["loop"]: cmd += ["--apply-loop-contracts"]
            cmd += [a, b]
            rc, o, e, t = sh(cmd, 300)
            if rc != 0:
                raise RuntimeError("goto-instrument: " + (o + e)[-3000:])
            return b
        return a

    def native(self, u):
        d = self.prepare(u, "NATIVE", False)
        exe = os.path.join(d, "native")
        arch = self.native_archive()
        cmd = ["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined",
               "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined",
               "-DVP_ENTRY=" + u.entry] + self.cc_flags(u, "NATIVE", d) + \
              [u.file, os.path.join(VERIF, "vp", "alloc.c"),
               os.path.join(VERIF, "vp", "native.c"), arch, "-o", exe,
               "-lpthread", "-lm", "-latomic"]
        rc, o, e, t = sh(cmd, 300)
        if rc != 0:
            raise RuntimeError("native build: " + (o + e)[-3000:])
        return exe

    def native_archive(self):
        if self.native_ready:
            return self.native_ready
        d = os.path.join(self.work, "nat")
        os.makedirs(d, exist_ok=True)
        def one(f):
            o = os.path.join(d, os.path.basename(f) + ".o")
            return o, sh(["gcc", "-g", "-O1", "-w", "-D_DEBUG", "-c", "-fsanitize=address,undefined",
                "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined", f, "-o", o], 300)
        objs = []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for o, (rc, so, se, t) in ex.map(one, sorted(glob.glob(REPO + "/*.c"))):
                if rc != 0:
                    raise RuntimeError("native build: " + se[-2000:])
                objs.append(o)
        a = os.path.join(d, "lib.a")
        if os.path.exists(a): os.remove(a)
        sh(["ar", "rcs", a] + objs)
        self.native_ready = a
        return a

# ---------------------------------------------------------------- deciding

BASE = ["--json-ui", "--drop-unused-functions", "--object-bits", "12"]

def cbmc_cmd(u, gb, bounded, extra=(), mult=1):
    cmd = ["cbmc"] + BASE
    fl = list(u.flags)
    if "--object-bits" in fl:
        i = fl.index("--object-bits"); cmd[cmd.index("--object-bits") + 1] = fl[i + 1]; del fl[i:i + 2]
    cmd += fl
    uw = u.bunwind if bounded else u.unwind
    us = u.bunwindset if bounded else u.unwindset
    if uw: cmd += ["--unwind", str(int(uw) * mult)]
    if us:
        cmd += ["--unwindset", ",".join("%s:%d" % (x.rsplit(":", 1)[0], int(x.rsplit(":", 1)[1]) * mult) for x in us.split(","))]
    if u.solver == "cvc5" and not bounded: cmd += ["--cvc5"]
    elif u.solver == "z3" and not bounded: cmd += ["--z3"]
    elif u.solver == "cadical": cmd += ["--sat-solver", "cadical"]
    return cmd + list(extra) + [gb]

def parse_cbmc(out):
    """returns (results, messages, solver_s, steps)"""
    try:
        js = json.loads(out)
    except Exception:
        return None, [], 0, 0
    res, msgs, solver = None, [], 0.0
    for x in js:
        if "messageText" in x:
            msgs.append(x["messageText"])
            m = re.search(r"Runtime (?:Solver|decision procedure)[^0-9]*([0-9.]+)", x["messageText"])
            if m: solver += float(m.group(1))
        if "result" in x:
            res = x["result"]
    return res, msgs, solver, len(js)

def run_cbmc(u, gb, bounded, timeout, mult=1):
    rc, o, e, t = sh(cbmc_cmd(u, gb, bounded, mult=mult), timeout)
    r = {"rc": rc, "wall": t, "results": None, "err": ""}
    if rc is None:
        r["err"] = "timeout after %.0f s" % t
        return r
    res, msgs, solver, _ = parse_cbmc(o)
    r["solver_s"] = solver
    if res is None:
        r["err"] = "cbmc gave no result: " + ("\n".join(msgs) + e)[-1500:]
        return r
    nobody = set()
    for m in msgs:
        mm = re.match(r".*no body for (?:function|callee) '?([^\s']+)'?", m)
        if mm: nobody.add(mm.group(1))
    r["nobody"] = nobody
    r["results"] = res
    return r

def is_cover(p): return p.get("description", "").startswith("VPCOVER")
def is_unwind(p): return ".unwind." in p["property"] or ".recursion" in p["property"]

def split(res):
    ob = [p for p in res if not is_cover(p)]
    cov = [p for p in res if is_cover(p)]
    return ob, cov

def where(p):
    l = p.get("sourceLocation", {})
    return "%s:%s %s" % (l.get("file", "?"), l.get("line", "?"), l.get("function", ""))

def inputs_of(trace):
    vals = []
    for s in trace:
        if s.get("stepType") == "input" and s.get("inputID") == "vp":
            v = s["values"][0]
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            else:
                vals.append(int(re.sub(r"[^0-9-].*$", "", v["data"])) & (2**64 - 1))
    return vals

def replay(exe, vals, path, timeout=60):
    with open(path, "w") as f:
        for v in vals: f.write("%d\n" % v)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1")
    rc, o, e, t = sh([exe, "replay", path], timeout, env=env)
    if rc == 0: return False, "held"
    if rc == 78: return False, "rejected"
    return True, ("hang" if rc is None else "exit %d" % rc) + "\n" + e[-4000:]

class Result:
    def __init__(self, u):
        self.u = u
        self.ok = True
        self.lines = []
        self.obl = 0; self.dis = 0; self.covers = 0
        self.mode = u.kind
        self.solver = 0.0
        self.err = None
        self.failed = []
        self.inputs = None
        self.native_out = ""
        self.notes = []
        self.wall = 0
        self.known = False
        self.fuzz = ""
        self.info = None
        self.replay_unit = None

def bounded_search(b, u, r, budget, first=8):
    """Looks for a concrete failing input: seeded native runs, every combination
    of a bounded harness, bounded cbmc replayed natively.
    Returns 'cex', 'held' or 'unknown'."""
    status = "unknown"
    exe = None
    try:
        exe = b.native(u)
    except RuntimeError as x:
        r.notes.append(str(x)[-600:])
    if exe and u.fuzz:
        if native_random(b, u, r, exe, first): return "cex"
    if exe and u.exhaust:
        s, n = exhaust(b, u, r, exe, u.secs * 3)
        if s == "cex": return "cex"
        if s == "all": status = "held"; r.bounded_n = n
    if not u.bmc:
        if status == "unknown" and exe and u.fuzz:
            if native_random(b, u, r, exe, 20, SEED + 1): return "cex"
            status = "ran"
        return status
    try:
        gb = b.goto(u, "BOUNDED", False)
        q = run_cbmc(u, gb, True, budget)
        r.solver += q.get("solver_s", 0)
        if q["results"] is not None:
            ob, cov = split(q["results"])
            bad = [p for p in ob if p["status"] == "FAILURE"]
            real = [p for p in bad if not is_unwind(p)]
            if not bad:
                status = "held"
                r.bounded_n = len(ob)
            elif not real and status != "held":
                status = "unwind"
            for p in (real or bad)[:4]:
                rc, o, e, t = sh(cbmc_cmd(u, gb, True, ["--trace", "--property", p["property"]]), budget)
                res, _, _, _ = parse_cbmc(o)
                for x in res or []:
                    if x["property"] == p["property"] and "trace" in x:
                        vals = inputs_of(x["trace"])
                        if exe:
                            path = os.path.join(b.work, u.name + ".in")
                            hit, out = replay(exe, vals, path)
                            if hit:
                                r.inputs, r.native_out, r.replay_unit = vals, out, u.name
                                r.failed.append(p["property"] + " " + p["description"] + " at " + where(p))
                                return "cex"
                        r.notes.append("cbmc counterexample of %s (%s) not reproduced natively (inputs %s)" % (p["property"], p["description"], vals[:40]))
                if status != "held": status = "unconfirmed" if real else "unwind"
        else:
            r.notes.append("bounded search: " + q["err"])
    except RuntimeError as x:
        r.notes.append("bounded search: " + str(x)[-600:])
    if exe and u.fuzz and status != "held":
        hit = native_random(b, u, r, exe, 20, SEED + 1)
        if hit: return "cex"
    return status

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")

def found(b, u, r, exe, path, what):
    vals = [int(x) for x in open(path).read().split()]
    hit, out = replay(exe, vals, path + ".r")
    if hit:
        r.inputs, r.native_out, r.replay_unit = vals, out, u.name
        m = re.search(r"VP-VIOLATED (.*)", out) or re.search(r"(ERROR: AddressSanitizer.*|runtime error: .*|Assertion .*failed.*)", out)
        r.failed.append("%s: %s" % (what, m.group(1) if m else out[:200]))
        return True
    return False

def native_random(b, u, r, exe, secs, seed=SEED):
    path = os.path.join(b.work, u.name + ".rnd")
    rc, o, e, t = sh([exe, "random", str(seed), "100000000", str(secs), path], secs + 60, env=ENV)
    r.fuzz = (r.fuzz + "; " if r.fuzz else "") + "random: " + o.strip()
    if rc == 77 and os.path.exists(path):
        if found(b, u, r, exe, path, "native run of the same contract"): return True
        r.notes.append("native random run stopped but did not replay: " + e[-600:])
    return False

def exhaust(b, u, r, exe, secs):
    """every combination of the harness' choices; ('all', n) | ('cex', n) | ('timeout', n)"""
    def one(k):
        path = os.path.join(b.work, "%s.ex%d" % (u.name, k))
        return path, sh([exe, "exhaust", str(k), str(JOBS), str(secs), path], secs + 60, env=ENV)
    n = 0; st = "all"
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for path, (rc, o, e, t) in ex.map(one, range(JOBS)):
            m = re.search(r"(\d+) runs", o)
            n += int(m.group(1)) if m else 0
            if rc == 77 and os.path.exists(path) and st != "cex":
                if found(b, u, r, exe, path, "enumerated case of the same contract"): st = "cex"
                else: r.notes.append("enumerated case stopped but did not replay: " + e[-600:]); st = "timeout"
            elif rc != 0 and rc != 77 and st == "all": st = "timeout"
            if " raw" in o and not o.strip().endswith(" 0 raw"): r.notes.append("inputs outside the enumeration: " + o.strip())
    r.fuzz = (r.fuzz + "; " if r.fuzz else "") + "exhaustive: %s %d runs" % (st, n)
    return st, n

def decide_vcg(b, u, tier, verbose):
    r = Result(u)
    t0 = time.time()
    py = VT if os.path.exists(VT) else "python3-vt"
    rc, o, e, t = sh([py, RUNVC, u.name, "--tier", tier], u.timeout * (3 if tier == "thorough" else 1))
    d = None
    try: d = json.loads(o.strip().split("\n")[-1])
    except Exception: pass
    comp = [b.companions[n] for n in u.native if n in b.companions]
    def search(budget):
        st = []
        for c in comp:
            s = bounded_search(b, c, r, budget)
            st.append(s)
            if s == "cex": return "cex"
        if not st: return "none"
        return "held" if all(s in ("held", "ran") for s in st) else "unknown"
    if d is None or d.get("error"):
        why = d["error"] if d else ("timeout after %.0f s" % t if rc is None else (e or o)[-600:])
        r.err = why
        r.mode = "bounded (outside the verifier's reach: %s)" % why[-300:].strip().replace("\n", " ")
        r.notes += why.split("\n")[-3:]
        s = search(u.timeout)
        r.status = s
        r.ok = s in ("held", "ran")
        if s == "none": r.failed.append("undecided: " + why)
        r.obl = r.dis = getattr(r, "bounded_n", 0)
    else:
        r.obl, r.dis, r.solver = d["obligations"], d["discharged"], d["solver_s"]
        r.covers = d["exits"]
        r.info = d
        if verbose:
            for x in d["failed"]: print("   FAILED", x, file=sys.stderr)
        if d["failed"] or d["vacuous"]:
            r.ok = False
            r.failed = list(d["failed"]) + ["vacuous: " + x for x in d["vacuous"]]
            r.status = search(u.timeout)
    r.wall = time.time() - t0
    return r

def decide_enum(b, u, tier):
    """bounded: every combination of a native harness over the real code"""
    r = Result(u)
    t0 = time.time()
    r.mode = "bounded"
    try:
        exe = b.native(u)
    except RuntimeError as x:
        r.ok = False; r.failed.append(str(x)[-600:]); r.wall = time.time() - t0
        return r
    if u.fuzz and native_random(b, u, r, exe, 4): r.ok = False
    elif u.exhaust:
        st, n = exhaust(b, u, r, exe, u.secs * (6 if tier == "thorough" else 2))
        r.obl = r.dis = n
        if st == "cex": r.ok = False; r.dis = n - 1
        elif st != "all": r.notes.append("enumeration not finished within its time")
    r.wall = time.time() - t0
    return r

def decide(b, u, tier, verbose):
    if u.kind == "vcg": return decide_vcg(b, u, tier, verbose)
    if u.kind == "enum": return decide_enum(b, u, tier)
    r = Result(u)
    t0 = time.time()
    budget = u.timeout if tier == "quick" else 3 * u.timeout
    proof = u.kind == "proof"
    try:
        gb = b.goto(u, "PROOF" if proof else "BOUNDED", proof)
    except (RuntimeError, LookupError) as x:
        r.err = str(x)
        if proof:
            # the proof text could not be attached: bounded form of the contract
            r.mode = "bounded (proof text not attachable: %s)" % str(x)[-300:].strip().replace("\n", " ")
            s = bounded_search(b, u, r, budget)
            r.ok = s == "held"
            r.status = s
            r.wall = time.time() - t0
            return r
        s = "build"
        r.ok = False
        r.failed.append("the sources do not build with this unit: " + str(x)[-500:])
        r.wall = time.time() - t0
        return r
    q = run_cbmc(u, gb, not proof, budget)
    r.solver = q.get("solver_s", 0)
    if q["results"] is None:
        r.err = q["err"]
        r.mode = "undecided (%s)" % q["err"][-300:]
        s = bounded_search(b, u, r, budget / 2) if proof else ("cex" if native_only(b, u, r) else "unknown")
        r.status = s
        r.ok = s == "held"
        r.wall = time.time() - t0
        return r
    extra = {x for x in q["nobody"] if x not in u.nobody and not x.startswith("__CPROVER") and not x.startswith("vp_nondet")}
    ob, cov = split(q["results"])
    bad = [p for p in ob if p["status"] != "SUCCESS"]
    r.covers = len(cov)
    r.obl, r.dis = len(ob), len(ob) - len(bad)
    unreached = [p for p in cov if p["status"] == "SUCCESS"]
    if extra:
        r.notes.append("functions without a body taken as unconstrained: " + " ".join(sorted(extra)))
        if not bad: pass
    if verbose:
        for p in bad[:10]: print("   FAILED", p["property"], p["description"], where(p), file=sys.stderr)
        for p in unreached: print("   VACUOUS", p["description"], file=sys.stderr)
        for n in r.notes: print("   NOTE", n, file=sys.stderr)
    if bad:
        obls = ["%s: %s at %s" % (p["property"], p["description"], where(p)) for p in bad]
        only_unwind = all(is_unwind(p) for p in bad)
        r.ok = False
        r.failed = obls
        if only_unwind and not proof:
            q2 = run_cbmc(u, gb, True, budget, mult=3)
            if q2["results"] is not None:
                ob2, _ = split(q2["results"])
                bad2 = [p for p in ob2 if p["status"] != "SUCCESS"]
                if not bad2:
                    r.ok = True; r.obl = r.dis = len(ob2); r.failed = []
                    r.notes.append("unwinding tripled for the changed source")
                    r.wall = time.time() - t0
                    return r
        s = bounded_search(b, u, r, budget)
        r.status = s
        if s != "cex" and r.inputs is None and proof and extra and False:
            pass
    elif unreached or not ob:
        r.ok = True
        r.vacuous = [p["description"] for p in unreached]
        r.notes.append("VACUOUS: " + "; ".join(r.vacuous))
        r.mode = "vacuous"
        # An outcome the contract expects can no longer be reached.
        hit = native_only(b, u, r)
        r.ok = False
        r.failed.append("an outcome the contract requires to be reachable is not: " + "; ".join(r.vacuous))
    r.wall = time.time() - t0
    return r

def native_only(b, u, r):
    try:
        exe = b.native(u)
    except RuntimeError as x:
        r.notes.append(str(x)[-600:]); return False
    return native_random(b, u, r, exe, 25)

# ---------------------------------------------------------------- findings

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', line))
                out.append({k: v.strip('"') for k, v in d.items()})
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    cunits = all_units()
    units = [u for u in cunits + vcg_units() if (a.prop in u.props or a.prop == "ALL") and u.kind != "search"]
    if a.unit: units = [u for u in units if re.fullmatch(a.unit, u.name)]
    if a.tier == "quick": units = [u for u in units if u.tier != "thorough"]
    if not units:
        print("no unit for", a.prop); return 2
    work = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    try:
        return go(a, units, work, t0, {u.name: u for u in cunits})
    finally:
        if a.keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)

def go(a, units, work, t0, companions):
    b = Builder(work)
    b.companions = companions
    try: b.native_archive()
    except RuntimeError as x: print("note:", str(x)[-500:])
    results = []
    order = sorted(units, key=lambda u: -u.timeout)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(decide, b, u, a.tier, a.v): u for u in order}
        for f in concurrent.futures.as_completed(futs):
            r = f.result()
            results.append(r)
            print("%-36s %-8s %5d/%-5d obligations %2d covers %6.1fs %s" % (
                r.u.name, "ok" if r.ok else "FAILED", r.dis, r.obl, r.covers, r.wall,
                "" if r.mode == r.u.kind else r.mode), flush=True)
            if a.v:
                for n in r.notes: print("    ", n)
                for n in r.failed[:12]: print("    FAILED", n)
    results.sort(key=lambda r: r.u.name)
    # thorough: the same contracts on the real code, natively, as a cross-check
    if a.tier == "thorough":
        for r in results:
            if r.ok and r.u.fuzz:
                try:
                    exe = b.native(r.u)
                    if native_random(b, r.u, r, exe, 20):
                        r.ok = False; r.status = "cex"
                except RuntimeError as x:
                    r.notes.append(str(x)[-400:])
    known = [k for k in known_findings() if k.get("property") == a.prop]
    viol = [r for r in results if not r.ok]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k.get("what", "")))
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    code = 0
    # obligations that fail without an input are reported with the inputs other units found
    shown = [r for r in viol if r.inputs is not None] or viol
    others = [r for r in viol if r not in shown]
    for r in others:
        for x in r.failed[:6]: print("  failed obligation:", x)
    for r in shown:
        path = os.path.join(rdir, "%s-%s.txt" % (a.prop, r.u.name))
        with open(path, "w") as f:
            f.write("# property %s unit %s (%s)\n" % (a.prop, r.u.name, os.path.basename(r.u.file)))
            for x in r.failed: f.write("# failed: %s\n" % x.replace("\n", "\n#   "))
            if r.err: f.write("# %s\n" % r.err.replace("\n", "\n# "))
            for x in r.notes: f.write("# note: %s\n" % x.replace("\n", "\n#   "))
            f.write("# %s\n" % r.native_out.replace("\n", "\n# "))
            for o in others:
                for x in o.failed: f.write("# failed too, without an input of its own: unit %s: %s\n" % (o.u.name, x.replace("\n", "\n#   ")))
            f.write("# replay with unit: %s\n# replay: python3 vp/replay.py %s\n" % (r.replay_unit or r.u.name, path))
            for v in r.inputs or []: f.write("%d\n" % v)
        tail = "" if r.inputs is not None else " no-failing-input-found"
        for x in r.failed[:6]: print("  failed obligation:", x)
        print("VIOLATION property=%s replay=%s%s" % (a.prop, path, tail))
        code = 1
    evidence(a, results, time.time() - t0, code, known)
    return code

def evidence(a, results, wall, code, known):
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == a.prop), "other")
    pr = [r for r in results if r.mode in ("proof", "vcg")]
    bd = [r for r in results if r.mode not in ("proof", "vcg")]
    ver = sh(["cbmc", "--version"])[1].strip()
    row = lambda r: {"unit": r.u.name, "file": "units/" + os.path.basename(r.u.file), "mode": r.mode,
        "functions_under_contract": r.u.contracts or r.u.enforce, "enforced_with_dfcc": r.u.enforce if r.u.kind == "proof" else [],
        "obligations": r.obl, "discharged": r.dis, "reachability_covers": r.covers,
        "back_end": {"sat": "cbmc SAT (minisat)", "cadical": "cbmc SAT (cadical)", "cvc5": "cbmc + cvc5", "z3": "cbmc + z3", "vcg": "vcg/vcg.py with z3 5 and cvc5"}[r.u.solver] if r.u.kind != "enum" else "native enumeration",
        "solver_s": round(r.solver, 2), "wall_s": round(r.wall, 1),
        "bound": "; ".join(r.u.multi["bound"]) if r.u.kind != "proof" else "", "native": r.fuzz, "notes": r.notes,
        **({"per_function": r.info["functions"], "by_solver": r.info["by"], "loop_invariants": r.info["invariants"], "inlined_bodies": r.info["inlined"],
            "callee_contracts_used": r.info["called"], "discharged_syntactically": r.info["trivial"]} if r.info else {})}
    trusted = sorted({t.replace("\n", " ") for r in results for t in r.u.multi["trusted"]})
    cov = {
        "obligations": sum(r.obl for r in pr), "discharged": sum(r.dis for r in pr),
        "checker_cmd": "python3 vp/run.py %s --tier %s (goto-cc, goto-instrument --dfcc, cbmc; %s)" % (a.prop, a.tier, ver),
        "trusted_base": ["cbmc/goto-instrument " + ver, "memory: objects of symbolic size, allocator contract in vp/alloc.c"] + trusted,
        "bounded_obligations": sum(r.obl for r in bd), "bounded_discharged": sum(r.dis for r in bd),
        "functions_under_contract": sorted({f for r in pr for f in (r.u.contracts or r.u.enforce)}),
        "functions_bounded_only": sorted({f for r in bd for f in (r.u.contracts or r.u.enforce)} - {f for r in pr for f in (r.u.contracts or r.u.enforce)}),
        "units": [row(r) for r in results],
    }
    nb = len(bd)
    cov["explanation"] = ("%d contract units proved with %d obligations discharged of %d; %d units bounded (never counted as proved), "
        "with %d of %d obligations holding within their stated bounds." % (len(pr), cov["discharged"], cov["obligations"], nb, cov["bounded_discharged"], cov["bounded_obligations"]))
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
        "assumptions": trusted + ["bound of %s: %s" % (r.u.name, x) for r in bd for x in r.u.multi["bound"]],
        "wall_s": round(wall, 1), "violations": sum(1 for r in results if not r.ok)}
    if known: ev["coverage"]["known_findings"] = known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if a.unit is None:
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
