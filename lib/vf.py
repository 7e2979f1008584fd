#!/usr/bin/env python3
"""Contract verification driver.

check.py <property>: takes /repo's current working tree, compiles the harness
translation units (which #include the real sources) with goto-cc, enforces the
contracts with goto-instrument --dfcc, discharges every generated obligation
with CBMC, and writes evidence/<property>.json.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shlex
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
UNITS = os.path.join(VERIF, "units")
LIB = os.path.join(VERIF, "lib")
SCR = os.path.join(VERIF, ".scratch")
JOBS = int(os.environ.get("VF_JOBS", "8"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
GEN = ("rjs_lex_table_inc.c rjs_token_types.h rjs_string_table_inc.c rjs_string_table.h "
       "rjs_string_table_function.h rjs_object_table.h rjs_object_table_function.h "
       "rjs_object_table_inc.c rjs_ast_inc.c rjs_ast.h rjs_bc.h rjs_bc_inc.c rjs_bc_run_inc.c").split()
T0 = time.time()
BUDGET = float(os.environ.get("VF_BUDGET", "840" if TIER == "quick" else "3400"))


def left():
    return BUDGET - (time.time() - T0)


class Undecided(Exception):
    pass


def run(cmd, timeout=None, cwd=None, env=None, mem_gb=14):
    """Run a command in its own session; returns (rc, stdout, stderr)."""
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=lim, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return -9, "", "timeout"


# ------------------------------------------------------------------ sources

class Tree:
    """A mechanical copy of /repo's working tree plus its generated headers."""
    PARTS = ["src", "include", "gen", "build", "module", "Makefile"]

    def __init__(self):
        h = hashlib.sha256()
        for part in self.PARTS:
            p = os.path.join(REPO, part)
            files = [p] if os.path.isfile(p) else sorted(
                os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
            for f in files:
                h.update(os.path.relpath(f, REPO).encode() + b"\0")
                if os.path.islink(f):
                    h.update(os.readlink(f).encode())
                else:
                    with open(f, "rb") as fh:
                        h.update(fh.read())
                h.update(b"\0")
        self.hash = h.hexdigest()[:16]
        self.dir = os.path.join(SCR, "src-" + self.hash)
        self.src = os.path.join(self.dir, "repo")
        self.out = os.path.join(self.src, "o")
        self._lib = None
        self._liblock = threading.Lock()
        os.makedirs(self.dir, exist_ok=True)
        self.lockf = open(os.path.join(self.dir, "lock"), "w")

    def env(self):
        e = dict(os.environ)
        for k in "O ARCH DEBUG CROSS_COMPILE CLANG M CFLAGS LIBS HOST_CFLAGS HOST_LIBS MAKEFLAGS".split():
            e.pop(k, None)
        e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        return e

    def prepare(self):
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        try:
            if os.path.exists(os.path.join(self.dir, "ready")):
                return
            shutil.rmtree(self.src, ignore_errors=True)
            os.makedirs(self.src)
            for part in self.PARTS:
                s, d = os.path.join(REPO, part), os.path.join(self.src, part)
                if os.path.isdir(s):
                    shutil.copytree(s, d, symlinks=True)
                elif os.path.exists(s):
                    shutil.copy2(s, d)
            rc, o, e = run(["make", "O=o", "config"], 120, self.src, self.env())
            if rc:
                raise SystemExit("error: make config failed\n" + o + e)
            rc, o, e = run(["make", "O=o", "-j8"] + ["o/src/lib/" + g for g in GEN], 300, self.src, self.env())
            if rc:
                raise SystemExit("error: generated sources failed\n" + o[-2000:] + e[-2000:])
            open(os.path.join(self.dir, "ready"), "w").write("ok")
            # remove copies of other trees
            for d in glob.glob(os.path.join(SCR, "src-*")):
                if d != self.dir and time.time() - os.path.getmtime(d) > 3600:
                    shutil.rmtree(d, ignore_errors=True)
        finally:
            fcntl.flock(self.lockf, fcntl.LOCK_UN)

    def lib(self):
        """The native library and interpreter, built on demand for replays."""
        with self._liblock:
            if self._lib is None:
                fcntl.flock(self.lockf, fcntl.LOCK_EX)
                try:
                    rc, o, e = run(["make", "--eval=.DELETE_ON_ERROR:", "O=o", "-j8", "o/libratjs.a", "o/libratjs.so", "o/ratjs"],
                                   600, self.src, self.env())
                    so2 = os.path.join(self.out, "libratjs.so.2")
                    if rc == 0 and not os.path.lexists(so2):
                        os.symlink("libratjs.so", so2)
                finally:
                    fcntl.flock(self.lockf, fcntl.LOCK_UN)
                self._lib = (rc == 0, o[-2000:] + e[-2000:])
            return self._lib[0]

    def incs(self):
        s = self.src
        return ["-I" + LIB, "-I" + UNITS, "-I" + s + "/include", "-I" + s + "/o/include", "-I" + s + "/o/src/lib",
                "-I" + s + "/src/lib/include", "-I" + s + "/src/lib", "-I" + s + "/src"]


# -------------------------------------------------------------------- units

class Unit:
    def __init__(self, file, kv, line):
        self.file, self.line, self.kv = file, line, kv
        self.name = kv["name"]
        self.entry = kv.get("entry", "h_" + self.name)
        self.props = kv.get("props", "").split(",")
        self.enforce = kv.get("enforce", "")
        self.replace = [x for x in kv.get("replace", "").split(",") if x]
        self.calls = [x for x in kv.get("calls", "").replace("VF_BOX", "rjs_value_set_gc_thing_tag:vf_set_tag,"
                      "rjs_value_pointer_get_gc_thing:vf_get_thing").replace("VF_DIR", "rjs_value_is_stack_pointer:vf_nosp,"
                      "rjs_stack_pointer_to_value:vf_sp2v,rjs_value_to_stack_pointer:vf_v2sp").split(",") if x]
        self.loops = kv.get("loops", "")
        self.unwind = kv.get("unwind", "")
        self.unwindset = kv.get("unwindset", "")
        self.bounded = kv.get("bounded", "")
        self.solver = kv.get("solver", "cadical")
        self.timeout = float(kv.get("timeout", "300"))
        self.flags = shlex.split(kv.get("flags", ""))
        self.defs = shlex.split(kv.get("defs", ""))
        self.tier = kv.get("tier", "quick")
        self.native = kv.get("native", "1") == "1"
        self.dfcc = kv.get("dfcc", "1" if (self.enforce or self.replace or self.loops) else "0") == "1"
        self.fns = [x for x in kv.get("fns", self.enforce).split(",") if x]
        self.desc = kv.get("desc", "")
        self.search = float(kv.get("search", "15"))
        self.fallback = kv.get("fallback", "")     # unwind used when loop contracts no longer apply
        self.link = [x for x in kv.get("link", "").split(",") if x]

    def id(self):
        return os.path.basename(self.file)[:-2] + ":" + self.name


def load_units():
    res = []
    for f in sorted(glob.glob(os.path.join(UNITS, "*.c"))):
        txt = open(f).read()
        dflt = {}
        for m in re.finditer(r"^//@(unit|default)\s+((?:.*\\\n)*.*)$", txt, re.M):
            kv = {}
            for tok in shlex.split(m.group(2).replace("\\\n", " ")):
                if "=" not in tok:
                    raise SystemExit("bad unit token %r in %s" % (tok, f))
                k, v = tok.split("=", 1)
                kv[k] = v
            if m.group(1) == "default":
                dflt = kv
                continue
            d = dict(dflt)
            d.update(kv)
            res.append(Unit(f, d, txt[:m.start()].count("\n") + 1))
    return res


BASE_FLAGS = ["--no-signed-overflow-check", "--no-undefined-shift-check", "--no-standard-checks",
              "--bounds-check", "--pointer-check", "--div-by-zero-check", "--unwinding-assertions"]


class Result:
    def __init__(self, u):
        self.u = u
        self.status = "undecided"   # proved | failed | undecided
        self.why = ""
        self.obl = 0
        self.dis = 0
        self.failed = []
        self.secs = 0.0
        self.out = ""
        self.mode = "bounded" if u.bounded else "proof"
        self.replay = None
        self.confirmed = None
        self.fallback_note = ""


class Checker:
    def __init__(self, tree):
        self.t = tree
        self.gbdir = os.path.join(tree.dir, "gb")
        os.makedirs(self.gbdir, exist_ok=True)
        self.locks = {}
        self.gl = threading.Lock()

    def _lock(self, k):
        with self.gl:
            return self.locks.setdefault(k, threading.Lock())

    def _key(self, *parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(str(p).encode() + b"\0")
        for f in sorted(glob.glob(LIB + "/*.h") + glob.glob(UNITS + "/*.h")):
            h.update(open(f, "rb").read())
        return h.hexdigest()[:16]

    def compile(self, u):
        key = self._key(open(u.file).read(), u.defs)
        gb = os.path.join(self.gbdir, os.path.basename(u.file) + "." + key + ".gb")
        with self._lock(gb):
            if os.path.exists(gb):
                return gb
            err = gb + ".err"
            if os.path.exists(err):
                raise Undecided(open(err).read())
            cmd = ["goto-cc", "-c", "-D_GNU_SOURCE", '-DMODULE_DIR=""'] + u.defs + self.t.incs() + [u.file, "-o", gb]
            rc, o, e = run(cmd, 300)
            if rc or not os.path.exists(gb):
                open(err, "w").write("goto-cc failed: " + (o + e)[-1500:])
                raise Undecided("goto-cc failed: " + (o + e)[-1500:])
        return gb

    def instrument(self, u, use_loops=True):
        gb = self.compile(u)
        key = self._key(gb, json.dumps(u.kv, sort_keys=True), use_loops)
        out = os.path.join(self.gbdir, u.name + "." + key + ".i.gb")
        tmp = []
        cur = out + ".l.gb"
        rc, o, e = run(["goto-cc", "--function", u.entry, gb, "-o", cur], 300)
        if rc:
            raise Undecided("goto-cc link: " + (o + e)[-600:])
        tmp.append(cur)
        if u.calls:
            nxt = out + ".c.gb"
            cmd = ["goto-instrument"]
            for c in u.calls:
                cmd += ["--replace-calls", c]
            rc, o, e = run(cmd + [cur, nxt], 300)
            if rc:
                raise Undecided("replace-calls: " + (o + e)[-1000:])
            tmp.append(nxt)
            cur = nxt
        if u.loops and use_loops and u.kv.get("preunwind"):
            # inner loops with a constant bound are unwound (with unwinding assertions) so that the outer one can take a loop contract
            nxt = out + ".u.gb"
            rc, o, e = run(["goto-instrument", "--unwindset", u.kv["preunwind"], "--unwinding-assertions", cur, nxt], 300)
            if rc:
                raise Undecided("preunwind: " + (o + e)[-1000:])
            tmp.append(nxt)
            cur = nxt
        if u.dfcc:
            cmd = ["goto-instrument", "--dfcc", u.entry]
            if u.enforce:
                cmd += ["--enforce-contract-rec" if u.kv.get("rec") == "1" else "--enforce-contract", u.enforce]
            for r in u.replace:
                cmd += ["--replace-call-with-contract", r]
            if u.loops and use_loops:
                cmd += ["--loop-contracts-file", os.path.join(UNITS, u.loops), "--apply-loop-contracts"]
            elif u.kv.get("inline_loops") == "1":
                cmd += ["--apply-loop-contracts"]
            rc, o, e = run(cmd + [cur, out], 300)
            if rc:
                raise Undecided("dfcc: " + (o + e)[-1500:])
        else:
            rc, o, e = run(["goto-instrument", "--drop-unused-functions", cur, out], 300)
            if rc:
                raise Undecided("drop-unused-functions: " + (o + e)[-1000:])
        for f in [f for f in tmp if f != out]:
            if f != out and os.path.exists(f):
                os.unlink(f)
        return out

    def cbmc_cmd(self, u, gb, extra=(), unwind=None):
        cmd = ["cbmc", gb, "--json-ui"] + BASE_FLAGS + u.flags
        uw = unwind or u.unwind
        if uw:
            cmd += ["--unwind", str(uw)]
        if u.unwindset:
            cmd += ["--unwindset", u.unwindset]
        if u.solver == "z3":
            cmd += ["--z3"]
        elif u.solver == "cvc5":
            cmd += ["--cvc5"]
        elif u.solver == "cadical":
            cmd += ["--sat-solver", "cadical"]
        elif u.solver in ("cvc5int", "z3new"):
            sub = "int" if u.solver == "cvc5int" else "new"
            cmd = ["env", "PATH=%s:%s" % (os.path.join(VERIF, "lib", "solvers", sub), os.environ.get("PATH", ""))] + cmd + \
                  ["--cvc5" if sub == "int" else "--z3"]
        return cmd + list(extra)

    @staticmethod
    def parse(out):
        try:
            data = json.loads(out)
        except Exception:
            raise Undecided("no verifier output")
        res, msgs = None, []
        for item in data:
            if "result" in item:
                res = item["result"]
            if "messageText" in item and item.get("messageType") in ("ERROR", "WARNING"):
                msgs.append(item["messageText"])
        if res is None:
            raise Undecided("verifier gave no result: " + " | ".join(msgs)[-800:])
        return res, msgs

    def verify(self, u, use_loops=True, unwind=None):
        """One verifier run.  Returns Result with failing obligations listed."""
        r = Result(u)
        t = time.time()
        try:
            gb = self.instrument(u, use_loops)
            to = min(u.timeout if TIER == "quick" else u.timeout * 4, max(5, left() - 60))
            rc, o, e = run(self.cbmc_cmd(u, gb, unwind=unwind), to)
            r.gb = gb
            if rc == -9:
                raise Undecided("verifier timeout after %.0f s" % to)
            res, msgs = self.parse(o)
            if any("not enough arguments" in m for m in msgs):
                raise Undecided("harness error: function shared between contract clauses and code: " +
                                [m for m in msgs if "not enough arguments" in m][0])
            reach = [p for p in res if p.get("description") == "vf_reach"]
            rest = [p for p in res if p.get("description") != "vf_reach"]
            r.obl = len(rest)
            r.dis = sum(1 for p in rest if p["status"] == "SUCCESS")
            bad = [p for p in rest if p["status"] != "SUCCESS"]
            uw = [p for p in bad if ".unwind." in p["property"] or ".recursion" in p["property"]]
            post = [p for p in rest if ".postcondition" in p["property"] or ".assertion" in p["property"]]
            real = [p for p in bad if p["status"] == "FAILURE" and p not in uw]
            r.failed = real
            if real:
                r.status = "failed"
            elif bad:
                r.why = "not discharged: " + ", ".join("%s=%s" % (p["property"], p["status"]) for p in bad[:6])
            elif not reach or any(p["status"] != "FAILURE" for p in reach):
                r.why = "vacuity guard: the point behind the preconditions is not reachable"
            elif not post:
                r.why = "vacuity guard: no postcondition obligations generated"
            else:
                r.status = "proved"
            if uw and real:
                r.why = "unwinding bound exceeded as well"
        except Undecided as ex:
            r.why = str(ex)
        r.secs = time.time() - t
        return r

    # ------------------------------------------------------------ replays
    def native(self, u, sanitize=False):
        if not u.native:
            raise Undecided("no native build for this unit")
        if not self.t.lib():
            raise Undecided("native library build failed")
        key = self._key(open(u.file).read(), u.defs, u.entry, open(LIB + "/vf_native.c").read())
        exe = os.path.join(self.gbdir, u.name + "." + key + ".exe")
        with self._lock(exe):
            if os.path.exists(exe):
                return exe
            cmd = (["gcc", "-O2", "-g", "-w", "-fno-strict-aliasing", "-D_GNU_SOURCE", '-DMODULE_DIR=""', "-DVF_NATIVE", "-DVF_ENTRY=" + u.entry,
                    "-DVF_BATCH=" + u.kv.get("batch", "20000")] + u.defs + self.t.incs() +
                   [u.file, LIB + "/vf_native.c", "-o", exe, "-Wl,--allow-multiple-definition",
                    self.t.out + "/libratjs.a", "-licuuc", "-licui18n", "-licudata", "-lffi", "-lm", "-lpthread", "-ldl"])
            rc, o, e = run(cmd, 300)
            if rc:
                raise Undecided("native build failed: " + e[-1500:])
        return exe

    def trace_vin(self, u, gb, prop, unwind=None):
        rc, o, e = run(self.cbmc_cmd(u, gb, ["--trace", "--property", prop, "--stop-on-fail"], unwind=unwind),
                       max(20, min(u.timeout, left() - 30)))
        if rc == -9:
            return None
        try:
            data = json.loads(o)
        except Exception:
            return None
        vin = {}
        for item in data:
            trs = []
            if "trace" in item:
                trs.append(item["trace"])
            for p in item.get("result", []) or []:
                if "trace" in p:
                    trs.append(p["trace"])
            for tr in trs:
                for st in tr:
                    if st.get("stepType") != "assignment":
                        continue
                    m = re.match(r"vin\[\(?(?:\(.*\))?(\d+)[a-z]*\)?\]$", st.get("lhs", ""))
                    if m:
                        v = st.get("value", {})
                        b = v.get("binary")
                        if b:
                            vin[int(m.group(1))] = int(b, 2)
                        else:
                            mm = re.match(r"-?\d+", str(v.get("data", "")))
                            if mm:
                                vin[int(m.group(1))] = int(mm.group(0)) & (2**64 - 1)
        return vin

    def confirm(self, r, rdir, unwind=None):
        """Replay the verifier's counterexample(s) on the real code natively; failing that, look for a
        failing input of the same executable postcondition."""
        u = r.u
        notes = []
        try:
            exe = self.native(u)
        except Undecided as ex:
            return None, "native replay unavailable: %s" % ex
        for p in r.failed[:4]:
            vin = self.trace_vin(u, r.gb, p["property"], unwind)
            if vin is None:
                notes.append("no trace for " + p["property"])
                continue
            f = os.path.join(rdir, "%s.%s.vin" % (u.name, re.sub(r"\W", "_", p["property"])))
            with open(f, "w") as fh:
                for k in sorted(vin):
                    fh.write("vin %d %d\n" % (k, vin[k]))
            rc, o, e = run([exe, "replay", f], 60, mem_gb=0)
            notes.append("replay %s: %s" % (p["property"], o.strip()))
            if rc == 1:
                return open(f).read(), "counterexample of %s replayed on the real code: %s" % (p["property"], o.strip())
        rc, o, e = run([exe, "search", str(SEED), str(u.search)], u.search + 90, mem_gb=0)
        notes.append("search: " + o.strip().split("\n")[0])
        if rc == 1:
            return o, "failing input found for the failed obligation: " + o.strip().split("\n")[0]
        return None, "; ".join(notes)

    def search_only(self, r, secs):
        u = r.u
        try:
            exe = self.native(u)
        except Undecided as ex:
            return None, "native search unavailable: %s" % ex
        rc, o, e = run([exe, "search", str(SEED), str(secs)], secs + 90, mem_gb=0)
        if rc == 1:
            return o, o.strip().split("\n")[0]
        return None, o.strip().split("\n")[0]


INV = (".loop_invariant", ".loop_assigns", ".loop_decreases", ".loop_step", "loop_")


def is_inv(p):
    return any(x in p["property"] for x in INV) or "loop invariant" in p.get("description", "").lower()


def known_findings():
    f = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:"):
                m = re.match(r"KNOWN-FINDING: property=(\S+) unit=(\S+) (.*)", l)
                if m:
                    res.append(m.groups())
    return res


def main(prop):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tree = Tree()
    tree.prepare()
    ck = Checker(tree)
    units = [u for u in load_units() if prop in u.props and (TIER == "thorough" or u.tier == "quick")]
    only = os.environ.get("VF_ONLY")
    if only:
        units = [u for u in units if re.search(only, u.id())]
    if not units:
        print("error: no units for", prop)
        return 2
    rdir = os.path.join(VERIF, "evidence", "replay-" + prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    # compile each harness file once, first
    order = sorted(units, key=lambda u: -u.timeout)
    results = {}

    def work(u):
        r = ck.verify(u)
        if os.environ.get("VF_VERBOSE"):
            print("  %-40s %-9s %4d/%-4d %6.1fs %s" % (u.id(), r.status, r.dis, r.obl, r.secs, r.why.replace("\n"," ")[-200:]), flush=True)
            for p in r.failed[:8]:
                print("      FAILED", p["property"], p.get("description", "")[:120], "line", p.get("sourceLocation", {}).get("line"))
        return r

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for u, r in zip(order, ex.map(work, order)):
            results[u.id()] = r

    violations, notes = [], []

    def settle(u):
        r = results[u.id()]
        unwind = None
        if r.status == "failed" and u.loops and all(is_inv(p) for p in r.failed):
            r.status, r.why = "undecided", "loop contract not re-established: " + r.failed[0]["property"]
        if r.status == "undecided" and (u.loops or u.fallback) and left() > 60:
            # loop contracts no longer fit the code (or the bound moved): bounded stand-in, labelled so
            fb = u.fallback or "6"
            why = r.why
            r2 = ck.verify(u, use_loops=False, unwind=fb)
            only_unw = r2.status == "undecided" and r2.why.startswith("not discharged") and r2.obl > 0
            if r2.status == "failed":
                r2.fallback_note = why
                r = results[u.id()] = r2
                unwind = fb
            elif r2.status == "proved" or only_unw:
                r.mode = "bounded"
                r.fallback_note = "bounded stand-in (unwind %s) found no violation" % fb
        if r.status == "failed":
            cex, note = ck.confirm(r, rdir, unwind)
            path = os.path.join(rdir, "VIOLATION-" + u.name + ".txt")
            hard = [p for p in r.failed if not is_inv(p)]
            with open(path, "w") as fh:
                fh.write("property %s\nunit %s\nharness %s (entry %s)\nfunctions under contract: %s\n" %
                         (prop, u.id(), u.file, u.entry, ", ".join(u.fns)))
                fh.write("failed obligations:\n")
                for p in r.failed:
                    fh.write("  %s: %s (line %s): %s\n" % (p["property"], p.get("description"),
                             p.get("sourceLocation", {}).get("line"), p["status"]))
                fh.write("\n%s\n" % note)
                if cex:
                    fh.write("\ninput vector (replay: rebuild with lib/vf.py, then <exe> replay <this file>):\n" + cex)
            if cex or hard:
                violations.append((u, path, cex is not None, r))
            r.confirmed = cex is not None
            notes.append("%s: %s" % (u.id(), note))
        elif r.status == "undecided":
            cex, note = ck.search_only(r, min(u.search, max(5, left() - 30)))
            notes.append("%s undecided (%s); %s" % (u.id(), r.why[-300:], note))
            if cex:
                path = os.path.join(rdir, "VIOLATION-" + u.name + ".txt")
                with open(path, "w") as fh:
                    fh.write("property %s\nunit %s\nthe proof was not re-established (%s)\n"
                             "and the postcondition fails on the real code for this input:\n%s\n" % (prop, u.id(), r.why, cex))
                violations.append((u, path, True, r))
                r.status = "failed"

    bad = [u for u in units if results[u.id()].status != "proved"]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(settle, bad))
    kf = [(p, un, tx) for p, un, tx in known_findings() if p == prop]
    code = 0
    for u, path, conf, r in violations:
        k = [x for x in kf if x[1] == u.id()]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
            continue
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if conf else " no-failing-input-found"))
        code = 1
    write_evidence(prop, units, results, notes, len(violations))
    for n in notes:
        print("note:", n.replace("\n", " ")[:400])
    pr = [results[u.id()] for u in units]
    print("%s: %d units, %d proved, obligations %d discharged %d, %.1fs" % (
        prop, len(pr), sum(r.status == "proved" for r in pr), sum(r.obl for r in pr), sum(r.dis for r in pr), time.time() - T0))
    return code


def scan_assumptions(units):
    res = []
    for f in sorted(set(u.file for u in units)):
        n = open(f).read()
        for m in re.finditer(r"^//@(assume|trust)\s+(.*)$", n, re.M):
            res.append("%s: %s" % (os.path.basename(f), m.group(2)))
    common = [
        "gcc compiles the verified C text as CBMC's C semantics reads it (x86-64, IEEE-754 doubles, round to nearest)",
        "signed-overflow and shift checks are off: machine arithmetic is two's complement bit-vectors, as gcc -O2 on x86-64 in practice",
        "cbmc 6.11, goto-instrument --dfcc and their SAT/SMT back ends are sound",
        "the default configuration generated by the repository's own 'make config'",
    ]
    return res + common


def write_evidence(prop, units, results, notes, nviol):
    rs = [results[u.id()] for u in units]
    full = all(r.status == "proved" and r.mode == "proof" for r in rs)
    proof_units = [r for r in rs if r.mode == "proof"]
    level = "proof" if full else "other"
    man = os.path.join(VERIF, "MANIFEST.json")
    try:
        for c in json.load(open(man))["checks"]:
            if c["property"] == prop and c["level"] != "proof":
                level = c["level"]
    except Exception:
        pass
    cov = {
        "obligations": sum(r.obl for r in proof_units),
        "discharged": sum(r.dis for r in proof_units),
        "checker_cmd": "cd /verif && python3 check.py " + prop,
        "trusted_base": ["goto-cc/goto-instrument --dfcc/cbmc 6.11", "MiniSat2 (cbmc built-in); cvc5 1.1.2 / z3 where a unit says so",
                         "lib/vf.h, lib/vf_rt.h and the harness file of each unit"],
        "functions_under_contract": sorted(set(f for u in units for f in u.fns)),
        "units": [{"unit": r.u.id(), "functions": r.u.fns, "status": r.status, "mode": r.mode,
                   "bound": r.u.bounded or ("complete unwinding, unwinding assertions discharged" if r.u.unwind else "none (loop free, or loop contracts)"),
                   "obligations": r.obl, "discharged": r.dis, "back_end": r.u.solver, "seconds": round(r.secs, 2),
                   "stubs_and_replaced_contracts": r.u.replace + r.u.calls,
                   "note": (r.why + " " + r.fallback_note).strip()} for r in rs],
        "bounded_obligations": sum(r.obl for r in rs if r.mode != "proof"),
        "bounded_discharged": sum(r.dis for r in rs if r.mode != "proof"),
        "solver_seconds": round(sum(r.secs for r in rs), 2),
        "undecided_units": [r.u.id() for r in rs if r.status == "undecided"],
        "notes": notes,
    }
    if level != "proof":
        cov["explanation"] = ("Contracts enforced on the real functions with goto-instrument --dfcc and discharged by CBMC. "
                              "Units marked bounded are bounded checks with the stated bound and are not counted as proved; "
                              "obligations/discharged count only the unbounded units.")
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
          "coverage": cov, "assumptions": scan_assumptions(units), "wall_s": round(time.time() - T0, 2), "violations": nviol}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
