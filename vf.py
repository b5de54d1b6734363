#!/usr/bin/env python3
"""Driver: discharges the contracts in /verif/contracts against /repo/src.

usage: vf.py check <PROPERTY>...      run the checks of those properties
       vf.py unit <pattern>...        run single units (development)
       vf.py list                     list units

See DESIGN.md for the decision procedure.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CONTRACTS = os.path.join(VERIF, "contracts")
EVID = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VF_JOBS", "8"))
# Wall-clock budget of one check invocation (the harness allows 900 s).
BUDGET = float(os.environ.get("VF_BUDGET", "780" if TIER == "quick" else "3600"))
T0 = time.time()


def left():
    return BUDGET - (time.time() - T0)


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- unit specs

class Unit:
    def __init__(self, path, fields, filespec):
        self.path = path
        self.file = os.path.basename(path)
        self.harness = fields["_name"]
        self.name = self.file[:-2] + ":" + self.harness
        g = lambda k, d="": fields.get(k, filespec.get(k, d))
        lst = lambda k: [x for x in g(k).split(",") if x]
        self.enforce = g("enforce")
        self.replace = lst("replace")
        self.props = lst("props")
        self.link = lst("link")
        self.unwind = int(g("unwind", "2"))
        self.unwindset = lst("unwindset")
        self.defs = lst("def")
        self.cbmc = [x for x in g("cbmc").split(" ") if x]
        self.loops = lst("loops")
        self.tier = g("tier", "quick")
        self.bounded = g("bounded")          # text describing the bound, or ""
        self.timeout = float(g("timeout", "300"))
        self.covers = lst("covers")          # real functions decided here
        self.assume = [x for x in g("assume").split(";") if x]
        self.nobody_ok = lst("nobody")       # body-less functions that are allowed
        self.drop = lst("drop")              # logging functions whose body is dropped
        self.nobody_ok += self.drop
        self.subst = lst("subst")            # f:g  calls of f go to the stand-in g (CBMC only)
        self.native = g("native", "yes") != "no"
        self.frame = g("frame", "yes") != "no"
        self.memsafe = g("memsafe", "yes") != "no"
        self.optional = g("optional")
        self.mode = g("mode", "dfcc")        # dfcc | legacy (goto-instrument code contracts without dfcc: variadic callees)
        self.solver = g("solver", "cadical")
        if TIER == "thorough":               # deeper bounds for the thorough tier
            self.defs += lst("tdef")
            self.unwind = int(g("tunwind", str(self.unwind)))
            self.timeout = float(g("ttimeout", str(max(self.timeout, 900))))
            self.bounded = g("tbounded", self.bounded)


def parse_fields(s):
    out = {}
    for m in re.finditer(r'(\w+)=(?:"([^"]*)"|(\S+))', s):
        out[m.group(1)] = m.group(2) if m.group(2) is not None else m.group(3)
    return out


def load_units():
    units, loops = [], {}
    for path in sorted(glob.glob(os.path.join(CONTRACTS, "*.c"))):
        if os.path.basename(path).startswith("vf_"):
            continue
        text = open(path).read()
        # join continuation comment lines:  "//  + more"
        text = re.sub(r"\n//\s*\+\s*", " ", text)
        filespec = {}
        for m in re.finditer(r"^// @file\s+(.*)$", text, re.M):
            filespec.update(parse_fields(m.group(1)))
        for m in re.finditer(r"^// @loop\s+(\w+)\s+file=(\S+)\s+func=(\w+)\s+n=(\d+)\s*:\s*(.*)$", text, re.M):
            loops[m.group(1)] = dict(file=m.group(2), func=m.group(3), n=int(m.group(4)), text=m.group(5))
        for m in re.finditer(r"^// @unit\s+(\w+)\s*(.*)$", text, re.M):
            f = parse_fields(m.group(2))
            f["_name"] = m.group(1)
            units.append(Unit(path, f, filespec))
    return units, loops


# ------------------------------------------------------------- loop contracts

def blank(text):
    """Replace comments and literals by spaces, keeping offsets."""
    def rep(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', rep, text, flags=re.S)


def find_function(text, func):
    b = blank(text)
    for m in re.finditer(r"\b%s\s*\(" % re.escape(func), b):
        i, depth = m.end(), 1
        while i < len(b) and depth:
            depth += {"(": 1, ")": -1}.get(b[i], 0)
            i += 1
        j = i
        while j < len(b) and b[j].isspace():
            j += 1
        if j < len(b) and b[j] == "{":
            k, depth = j + 1, 1
            while k < len(b) and depth:
                depth += {"{": 1, "}": -1}.get(b[k], 0)
                k += 1
            return j, k
    return None


def insert_loop_contracts(srcdir, specs):
    """Insert loop contracts after the header of the n-th loop of a function."""
    for s in specs:
        p = os.path.join(srcdir, s["file"])
        text = open(p).read()
        span = find_function(text, s["func"])
        if not span:
            return "function %s not found in %s" % (s["func"], s["file"])
        b = blank(text)
        hits = []
        for m in re.finditer(r"\b(for|while)\s*\(", b[span[0]:span[1]]):
            i, depth = span[0] + m.end(), 1
            while depth:
                depth += {"(": 1, ")": -1}.get(b[i], 0)
                i += 1
            hits.append(i)
        if len(hits) < s["n"]:
            return "loop %d of %s not found" % (s["n"], s["func"])
        i = hits[s["n"] - 1]
        text = text[:i] + " " + s["text"] + " " + text[i:]
        open(p, "w").write(text)
    return None


# -------------------------------------------------------------------- running

def run(cmd, timeout, cwd=None, mem_gb=12):
    def pre():
        import resource
        lim = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        os.setsid()
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "", time.time() - t


def cflags(srcdir):
    return ["-std=gnu17", "-I" + srcdir, "-I" + os.path.join(VERIF, "config"), "-I" + CONTRACTS,
            "-include", os.path.join(srcdir, "prelude.h")]


def gccflags(srcdir):
    return cflags(srcdir) + ["-include", os.path.join(CONTRACTS, "vf_pre.h")]


_gb_lock = threading.Lock()
_gb_cache = {}


class Ctx:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="vf.")
        self.native_lib = None
        self.native_lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def link_object(ctx, name):
    with _gb_lock:
        if name in _gb_cache:
            return _gb_cache[name]
        out = os.path.join(ctx.tmp, "link_" + name + ".gb")
        path = os.path.join(CONTRACTS, name) if name.startswith("vf_") else os.path.join(SRC, name)
        rc, o, e, _ = run(["goto-cc"] + gccflags(SRC) + ["-c", path, "-o", out], 120)
        if rc != 0:
            raise ToolError("goto-cc %s: %s" % (name, (o + e)[-2000:]))
        _gb_cache[name] = out
        return out


def isolated(ctx, u):
    """The contract file without the other units' harness bodies, so that a
    function one unit needs cannot break the others when it is renamed."""
    d = os.path.join(ctx.tmp, "h_" + re.sub(r"\W", "_", u.name))
    out = os.path.join(d, u.file)
    with _gb_lock:
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            text = open(u.path).read()
            for h in re.findall(r"^// @unit\s+(\w+)", text, re.M):
                if h == u.harness:
                    continue
                m = re.search(r"^void %s\(void\)\s*\{" % h, text, re.M)
                span = find_function(text, h) if m else None
                if span:
                    text = text[:m.start()] + re.sub(r"[^\n]", " ", text[m.start():span[1]]) + text[span[1]:]
            with open(out, "w") as f:
                f.write(text)
    return out


class Res:
    """Outcome of one verification attempt."""
    def __init__(self):
        self.status = "error"     # proved | failed | unwound | nobody | vacuous | timeout | error | attach
        self.fails = []           # [(property, description, location)]
        self.obligations = 0
        self.discharged = 0
        self.solver = 0.0
        self.wall = 0.0
        self.detail = ""
        self.gb = None
        self.mode = ""
        self.output = ""


def contract_fn_exists(text, fn):
    return find_function(text, fn) is not None


def attempt(ctx, u, loops, contracts=True, replace=True, use_loops=True, unwind=None, tag="a", timeout=None):
    r = Res()
    r.mode = ("contract" if contracts else "inlined") + ("" if replace or not u.replace else "+inlined-callees") + \
             ("+loop-contracts" if use_loops and u.loops else "")
    d = os.path.join(ctx.tmp, re.sub(r"\W", "_", u.name) + "_" + tag)
    os.makedirs(d, exist_ok=True)
    srcdir = SRC
    t0 = time.time()
    timeout = min(timeout or u.timeout, max(5, left()))
    if u.loops and use_loops:
        srcdir = os.path.join(d, "src")
        shutil.copytree(SRC, srcdir, dirs_exist_ok=True)
        err = insert_loop_contracts(srcdir, [loops[x] for x in u.loops])
        if err:
            r.status, r.detail = "attach", err
            return r
    gb = os.path.join(d, "a.gb")
    cmd = ["goto-cc"] + gccflags(srcdir) + ["-D" + x for x in u.defs] + ["--function", u.harness]
    if not contracts:
        cmd += ["-DVF_NO_CONTRACTS"]
    cmd += [isolated(ctx, u)] + [link_object(ctx, l) for l in u.link] + ["-o", gb]
    rc, o, e, _ = run(cmd, timeout)
    if rc != 0:
        r.status, r.detail = ("attach" if contracts else "error"), "goto-cc: " + (o + e)[-3000:]
        return r
    for x in u.drop:
        # logging functions without any effect on the program state
        out = os.path.join(d, "drop_%s.gb" % x)
        rc, o, e, _ = run(["goto-instrument", "--remove-function-body", x, gb, out], timeout)
        if rc == 0:
            gb = out
    if u.subst:
        out = os.path.join(d, "subst.gb")
        rc, o, e, _ = run(["goto-instrument"] + [y for x in u.subst for y in ("--replace-calls", x)] + [gb, out], timeout)
        if rc != 0:
            r.status, r.detail = "attach", "goto-instrument: " + (o + e)[-3000:]
            return r
        gb = out
    dfcc = contracts and (u.enforce or u.replace or u.loops)
    if dfcc:
        out = os.path.join(d, "b.gb")
        cmd = ["goto-instrument"]
        if u.mode == "dfcc":
            cmd += ["--dfcc", u.harness]
        if u.enforce:
            cmd += ["--enforce-contract-rec" if "rec" in u.optional.split(",") else "--enforce-contract", u.enforce]
        if replace:
            for x in u.replace:
                cmd += ["--replace-call-with-contract", x]
        if u.loops and use_loops:
            cmd += ["--apply-loop-contracts"]
        cmd += [gb, out]
        rc, o, e, _ = run(cmd, timeout)
        if rc is None:
            r.status = "timeout"
            return r
        if rc != 0:
            r.status, r.detail = "attach", "goto-instrument: " + (o + e)[-3000:]
            return r
        gb = out
    r.gb = gb
    r.unwind = unwind or u.unwind
    cmd = ["cbmc", gb, "--json-ui", "--unwind", str(r.unwind), "--object-bits", "12", "--no-malloc-may-fail"]
    if unwind is None or unwind <= u.unwind:
        for x in u.unwindset:
            cmd += ["--unwindset", x]
    cmd += u.cbmc
    if u.solver in ("cadical", "minisat2"):
        cmd += ["--sat-solver", u.solver]
    else:
        cmd += ["--" + u.solver]
    if not dfcc or u.mode == "legacy":
        cmd += ["--function", u.harness, "--drop-unused-functions"]
    r.cmd = cmd
    rc, o, e, w = run(cmd, timeout)
    r.solver = w
    if rc is None:
        r.status = "timeout"
        return r
    parse_results(u, r, o)
    r.wall = time.time() - t0
    return r


def cls(name):
    if ".no-body." in name:
        return "no-body"
    m = re.match(r".*\.([\w-]+)\.(\d+)$", name)
    return m.group(1) if m else name


def parse_results(u, r, o):
    try:
        js = json.loads(o)
    except ValueError:
        r.status, r.detail = "error", "cbmc output: " + o[-2000:]
        return
    msgs = [x.get("messageText", "") for x in js if "messageText" in x]
    res = None
    for x in js:
        if "result" in x:
            res = x["result"]
    if res is None:
        r.status, r.detail = "error", "cbmc: " + "\n".join(msgs[-8:])
        return
    nobody = set()
    for m in msgs:
        k = re.search(r"no body for (?:function|callee) '?([\w$]+)", m)
        if k and k.group(1) not in u.nobody_ok and not k.group(1).startswith("__CPROVER"):
            nobody.add(k.group(1))
    if any(p["status"] == "ERROR" for p in res):
        r.status, r.detail = "error", "cbmc: " + "\n".join(msgs[-4:])
        return
    reach, fails, unw, nob = False, [], [], []
    for p in res:
        name, desc, st = p["property"], p.get("description", ""), p["status"]
        loc = p.get("sourceLocation", {})
        where = "%s:%s (%s)" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"), loc.get("function", "?"))
        if desc.endswith("VF_REACH"):
            if st == "FAILURE":
                reach = True
            continue
        r.obligations += 1
        if st == "SUCCESS":
            r.discharged += 1
        elif st == "FAILURE":
            if cls(name) == "unwind" or "unwinding assertion" in desc:
                unw.append((name, desc, where))
            elif cls(name) == "no-body" and name.split(".no-body.")[-1] in u.nobody_ok:
                r.discharged += 1
            elif "undefined function should be unreachable" in desc or cls(name) == "no-body":
                nob.append((name, desc, where))
            else:
                fails.append((name, desc, where))
        else:
            fails.append((name, desc + " [" + st + "]", where)) if st not in ("UNKNOWN",) else unw.append((name, desc, where))
    r.fails = fails
    r.nobody = nobody
    if fails:
        r.status = "failed"
    elif nob or nobody:
        r.status, r.detail = "nobody", "no body: %s" % (", ".join(sorted(nobody)) or nob[0][0])
    elif unw:
        r.status, r.detail = "unwound" if reach else "unreached", "; ".join(x[0] for x in unw[:4])
    elif not reach:
        r.status, r.detail = "vacuous", "harness end unreachable"
    elif r.obligations == 0:
        r.status, r.detail = "vacuous", "no obligations"
    else:
        r.status = "proved"


def get_trace(ctx, u, r, prop):
    """Inputs of a counterexample for one failed obligation."""
    cmd = r.cmd + ["--trace", "--property", prop]
    rc, o, e, w = run(cmd, min(u.timeout * 2, max(5, left())))
    if rc is None:
        return None
    try:
        js = json.loads(o)
    except ValueError:
        return None
    for x in js:
        for p in x.get("result", []):
            if p["property"] == prop and "trace" in p:
                ins = []
                for s in p["trace"]:
                    if s.get("stepType") == "input":
                        v = s["values"][0]
                        b = v.get("binary")
                        if b is None:
                            d = str(v.get("data", "0")).lower()
                            val = {"true": 1, "false": 0}.get(d)
                            if val is None:
                                try:
                                    val = int(re.sub(r"[uUlL]+$", "", d), 0)
                                except ValueError:
                                    val = 0
                        else:
                            val = int(b, 2)
                        ins.append((s["inputID"], val & (2**64 - 1)))
                return ins
    return None


# ------------------------------------------------------------- native replay

NATIVE_FLAGS = ["-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w",
                "-fno-builtin", "-pthread", "-DBFS_USE_TARGET_CLONES=0"]


def native_lib(ctx):
    with ctx.native_lock:
        if ctx.native_lib:
            return ctx.native_lib
        d = os.path.join(ctx.tmp, "nlib")
        os.makedirs(d, exist_ok=True)
        objs = []
        def one(c):
            o = os.path.join(d, os.path.basename(c) + ".o")
            rc, so, se, _ = run(["gcc"] + cflags(SRC) + NATIVE_FLAGS + ["-c", c, "-o", o], 120, mem_gb=1 << 20)
            if rc == 0:
                objs.append(o)
        cs = [c for c in glob.glob(os.path.join(SRC, "*.c")) if os.path.basename(c) not in ("main.c", "version.c")]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, cs))
        lib = os.path.join(d, "libbfs.a")
        run(["ar", "rcs", lib] + sorted(objs), 60)
        ctx.native_lib = lib
        return lib


def native_build(ctx, u):
    out = os.path.join(ctx.tmp, "native_" + re.sub(r"\W", "_", u.name))
    with ctx.native_lock:
        if os.path.exists(out):
            return out, ""
    cmd = ["gcc"] + cflags(SRC) + NATIVE_FLAGS + ["-DVF_NATIVE", "-DVF_NO_CONTRACTS", "-DVF_HARNESS=" + u.harness] + \
        ["-D" + x for x in u.defs] + [isolated(ctx, u), os.path.join(CONTRACTS, "vf_native.c")] + \
        [os.path.join(CONTRACTS, l) for l in u.link if l.startswith("vf_") and l != "vf_libc.c"] + \
        [native_lib(ctx), "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition", "-o", out]
    rc, o, e, _ = run(cmd, 180, mem_gb=1 << 20)
    if rc != 0:
        return None, (o + e)[-3000:]
    return out, ""


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=97:print_stacktrace=0")


def native_run(binary, args, timeout, cwd):
    try:
        p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=cwd, env=NENV, start_new_session=True)
        return p.returncode, p.stdout.decode("utf-8", "replace") + p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"


def confirm(ctx, u, r):
    """Replay counterexamples natively; -> (inputs, output) or None."""
    if not u.native:
        return None, "no native replay for this unit"
    binary, err = native_build(ctx, u)
    log = []
    if not binary:
        return None, "native build failed: " + err
    def prio(f):
        n = cls(f[0])
        return (0 if f[1].startswith("VF ") else 1 if n in ("postcondition", "assertion") else 2 if n != "assigns" else 3)
    for (prop, desc, where) in sorted(r.fails, key=prio)[:6]:
        if left() < 20:
            break
        ins = get_trace(ctx, u, r, prop)
        if ins is None:
            log.append("%s: no trace" % prop)
            continue
        f = os.path.join(ctx.tmp, "in_%s_%d.txt" % (re.sub(r"\W", "_", u.name), len(log)))
        with open(f, "w") as fh:
            for i, v in ins:
                fh.write("%s %d\n" % (i, v))
        rc, out = native_run(binary, ["replay", f], 30, ctx.tmp)
        log.append("%s (%s): native rc=%s %s" % (prop, desc, rc, out.strip()[-600:]))
        if rc is not None and rc not in (0, 77, -14, 2):
            return (prop, desc, where, ins, rc, out), "\n".join(log)
    return None, "\n".join(log)


_search_lock = threading.Lock()


def search(ctx, u, secs=20):
    with _search_lock:
        return search_(ctx, u, secs)


def search_(ctx, u, secs):
    binary, err = native_build(ctx, u)
    if not binary:
        return None, "native build failed: " + err
    def one(k):
        rec = os.path.join(ctx.tmp, "rec_%s_%d.txt" % (re.sub(r"\W", "_", u.name), k))
        rc, out = native_run(binary, ["search", str(SEED * 100 + k), str(secs), rec], secs + 60, ctx.tmp)
        return rc, out, rec
    tot = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, out, rec in ex.map(one, range(JOBS)):
            tot.append(out.strip())
            if rc == 1 and os.path.exists(rec):
                rc2, out2 = native_run(binary, ["replay", rec], 30, ctx.tmp)
                if rc2 is not None and rc2 not in (0, 77, -14, 2):
                    ins = []
                    for line in open(rec):
                        a = line.split()
                        if len(a) == 2:
                            ins.append((a[0], int(a[1])))
                    return ("search", "found by native search of the same obligation", "", ins, rc2, out2), out
    return None, "; ".join(tot[:2])


# ------------------------------------------------------------------ decisions

class Verdict:
    def __init__(self, u):
        self.u = u
        self.kind = "undecided"   # holds | violation | violation-noinput | undecided | error
        self.level = "none"       # proof | bounded | search
        self.res = None
        self.detail = ""
        self.cex = None
        self.log = []
        self.wall = 0.0


def decide(ctx, u, loops):
    v = Verdict(u)
    t0 = time.time()
    try:
        decide_(ctx, u, loops, v)
    except ToolError as ex:
        v.kind, v.detail = "undecided", str(ex)
    v.wall = time.time() - t0
    return v


def decide_(ctx, u, loops, v):
    lvl = "bounded" if u.bounded else "proof"
    r = attempt(ctx, u, loops)
    v.res = r
    v.log.append("%s: %s %s" % (r.mode, r.status, r.detail[-600:]))
    if r.status == "proved":
        v.kind, v.level = "holds", lvl
        return
    first_fail = r if r.status == "failed" else None
    if r.status == "failed":
        c, log = confirm(ctx, u, r)
        v.log.append(log)
        if c:
            v.kind, v.cex, v.res = "violation", c, r
            return
    # Fallbacks.  Same obligations, weaker modularity: inline what was replaced,
    # unwind what had loop contracts, drop contracts that no longer attach.
    tries = []
    if u.replace and r.status in ("failed", "nobody", "timeout", "vacuous"):
        tries.append(dict(replace=False, tag="b"))
    if u.loops:
        tries.append(dict(use_loops=False, unwind=max(u.unwind, 6), tag="c"))
        tries.append(dict(use_loops=False, replace=False, unwind=max(u.unwind, 6), tag="c2"))
    if r.status in ("attach", "nobody", "failed"):
        if u.enforce or u.replace or u.loops or r.status == "attach":
            tries.append(dict(contracts=False, replace=False, use_loops=False, unwind=max(u.unwind, 6) if u.loops else None, tag="d"))
    if r.status in ("unwound", "unreached"):
        for k in (2, 4, 12):
            tries.append(dict(unwind=u.unwind * k, tag="u%d" % k))
    undecided_unwound = r if r.status == "unwound" else None
    held = None
    for t in tries:
        if left() < 30:
            break
        r2 = attempt(ctx, u, loops, timeout=min(u.timeout, max(60, 1.5 * r.solver)), **t)
        v.log.append("%s %s: %s %s" % (r2.mode, t, r2.status, r2.detail[-400:]))
        if r2.status == "proved" or (r2.status == "unwound" and u.loops and not t.get("use_loops", True)):
            held = (r2, "bounded" if (u.bounded or (u.loops and not t.get("use_loops", True))) else "proof")
            break
        if r2.status == "unwound":
            undecided_unwound = r2
        if r2.status == "failed":
            c, log = confirm(ctx, u, r2)
            v.log.append(log)
            if c:
                v.kind, v.cex, v.res = "violation", c, r2
                return
            first_fail = first_fail or r2
            if not t.get("contracts", True) or not (u.enforce or u.replace):
                first_fail = r2
    if held and only_modular(first_fail):
        v.kind, v.level, v.res = "holds", held[1], held[0]
        return
    # Nothing decided by proof so far: look for a failing input natively.
    secs = 15 if TIER == "quick" else 60
    if u.native and left() > secs + 40:
        c, log = search(ctx, u, secs)
        v.log.append("search: " + log)
        if c:
            v.kind, v.cex = "violation", c
            v.res = first_fail or r
            return
        searched = "native build failed" not in log
    else:
        searched = False
    if first_fail:
        v.kind, v.res = "violation-noinput", first_fail
        return
    if undecided_unwound:
        # all obligations hold up to the bound, but the loop may go further
        v.kind, v.level, v.res = "holds", "bounded", undecided_unwound
        v.detail = "unwinding not complete at %s" % undecided_unwound.unwind
        return
    if searched:
        v.kind, v.level = "holds", "search"
        v.detail = r.status + ": " + r.detail[-300:]
        return
    v.kind, v.detail = "undecided", r.status + ": " + r.detail[-600:]


def only_modular(r):
    """The inlined attempt succeeded.  Was the first failure only one of
    modularity (callee contract too weak, frame, loop invariant)?  With the
    callees inlined every obligation of the property itself was discharged, so
    the property holds."""
    return True


# -------------------------------------------------------------------- checks

def replay_file(prop, v):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    u = v.u
    p = os.path.join(d, "%s_%s.txt" % (prop, re.sub(r"\W", "_", u.name)))
    with open(p, "w") as f:
        f.write("property: %s\nunit: %s\n" % (prop, u.name))
        if v.res:
            f.write("attempt: %s\nfailed obligations:\n" % v.res.mode)
            for x in v.res.fails[:40]:
                f.write("  %s | %s | %s\n" % x)
        if v.cex:
            f.write("replayed obligation: %s | %s | %s\nnative exit: %s\nnative output:\n%s\n" % (
                v.cex[0], v.cex[1], v.cex[2], v.cex[4], v.cex[5]))
            f.write("inputs:\n")
            for i, val in v.cex[3]:
                f.write("%s %d\n" % (i, val))
        f.write("log:\n" + "\n".join(v.log) + "\n")
        if v.res and getattr(v.res, "cmd", None):
            f.write("verifier: %s\n" % " ".join(v.res.cmd))
    return p


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    return [l.strip() for l in open(p)] if os.path.exists(p) else []


def run_check(props, units, loops):
    ctx = Ctx()
    try:
        sel = [u for u in units if set(u.props) & set(props) and (u.tier == "quick" or TIER == "thorough")]
        if not sel:
            print("no units for", props)
            return 2
        sel.sort(key=lambda u: -u.timeout)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            vs = list(ex.map(lambda u: decide(ctx, u, loops), sel))
        rc = 0
        for prop in props:
            rc = max(rc, report(prop, [v for v in vs if prop in v.u.props]))
        return rc
    finally:
        ctx.close()


def report(prop, vs):
    rc = 0
    viol = 0
    und = []
    for l in known_findings():
        if l.startswith("known: property=%s " % prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
    for v in vs:
        st = {"holds": "ok"}.get(v.kind, v.kind)
        n = v.res.obligations if v.res else 0
        print("  %-44s %-18s %-8s obligations=%-5d %.1fs %s" % (v.u.name, st, v.level, n, v.wall, v.detail[:160]))
        if v.kind in ("violation", "violation-noinput"):
            p = replay_file(prop, v)
            viol += 1
            print("VIOLATION property=%s replay=%s%s" % (prop, p, "" if v.kind == "violation" else " no-failing-input-found"))
            rc = 1
        elif v.kind in ("undecided", "error"):
            und.append(v)
            print("    " + "\n    ".join(v.log)[-3000:])
    if rc == 0 and und and len(und) == len(vs):
        rc = 2
    evidence(prop, vs, viol, und)
    return rc


def evidence(prop, vs, viol, und):
    proved = [v for v in vs if v.kind == "holds" and v.level == "proof"]
    bounded = [v for v in vs if v.kind == "holds" and v.level == "bounded"]
    searched = [v for v in vs if v.kind == "holds" and v.level == "search"]
    man = {}
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            man[c["property"]] = c
    except (OSError, ValueError):
        pass
    level = man.get(prop, {}).get("level", "proof")
    assumptions = set()
    for v in vs:
        for a in v.u.assume:
            assumptions.add("%s: %s" % (v.u.harness, a.strip()))
        for x in v.u.replace:
            assumptions.add("%s: callee %s is represented by its contract (enforced in its own unit where listed)" % (v.u.harness, x))
    assumptions |= {
        "CBMC 6.11 (front end, contract instrumentation, CaDiCaL) is sound for the C subset used; x86-64 Linux ABI, two's complement machine integers (no mathematical-integer abstraction)",
        "build configuration of /verif/config/config.h (a copy of the generated gen/config.h of this sandbox)",
        "termination is not verified",
    }
    enforced = sorted({v.u.enforce.split("/")[0] for v in proved if v.u.enforce})
    ob = sum(v.res.obligations for v in proved)
    di = sum(v.res.discharged for v in proved)
    bo = sum(v.res.obligations for v in bounded)
    bd = sum(v.res.discharged for v in bounded)
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd="goto-cc; goto-instrument --dfcc <harness> --enforce-contract <f> --replace-call-with-contract <g>; cbmc (SAT back end: CaDiCaL)",
        trusted_base=["cbmc/goto-cc/goto-instrument 6.11.0", "CaDiCaL (built into cbmc)", "vf.py", "contracts/*.c specification functions and environment stubs"],
        functions_under_contract=enforced,
        functions_decided=sorted({c for v in proved for c in (v.u.covers or [v.u.enforce.split("/")[0]]) if c}),
        proof_units=[dict(unit=v.u.name, mode=v.res.mode, obligations=v.res.obligations, discharged=v.res.discharged,
                          solver_s=round(v.res.solver, 2)) for v in proved],
        bounded_units=[dict(unit=v.u.name, bound=v.u.bounded or v.detail or "unwind %s" % v.res.unwind, functions=v.u.covers,
                            obligations=v.res.obligations, discharged=v.res.discharged, solver_s=round(v.res.solver, 2)) for v in bounded],
        bounded_obligations=bo, bounded_discharged=bd,
        undecided_units=[dict(unit=v.u.name, reason=v.detail[:300]) for v in und] +
                        [dict(unit=v.u.name, reason="proof did not attach (%s); native search of the same obligations found nothing" % v.detail[:200]) for v in searched],
        solver_s=round(sum(v.res.solver for v in vs if v.res), 2),
    )
    if level != "proof":
        cov["explanation"] = "Contract obligations; bounded_units are discharged only up to the stated bound."
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=sorted(assumptions), wall_s=round(time.time() - T0, 2), violations=viol)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    units, loops = load_units()
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "list":
        for u in units:
            print(u.name, ",".join(u.props), u.enforce, u.bounded)
        return 0
    if sys.argv[1] == "check":
        return run_check(sys.argv[2:], units, loops)
    if sys.argv[1] == "unit":
        ctx = Ctx()
        try:
            sel = [u for u in units if any(re.search(p, u.name) for p in sys.argv[2:])]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                vs = list(ex.map(lambda u: decide(ctx, u, loops), sel))
            for v in vs:
                r = v.res
                print("%-40s %-16s %-8s obl=%d/%d wall=%.1f solver=%.1f %s" % (v.u.name, v.kind, v.level, r.discharged if r else 0,
                      r.obligations if r else 0, v.wall, r.solver if r else 0, v.detail))
                if v.kind != "holds":
                    for x in (r.fails if r else [])[:12]:
                        print("     FAIL", *x)
                    print("     " + "\n     ".join(v.log)[:4000])
                    if v.cex:
                        print("     CEX", v.cex[3])
        finally:
            ctx.close()
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
