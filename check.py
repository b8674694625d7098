#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: discharge every proof obligation of a property from
/repo's current source with CBMC (code contracts), and report.

exit 0: every obligation of every unit of the property was discharged
exit 1: an obligation failed; VIOLATION line printed
See DESIGN.md for what a unit is.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, resource
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, HERE + "/lib"]
import units as U  # noqa

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
DEADLINE = time.time() + float(os.environ.get("VERIF_BUDGET", "780" if TIER == "quick" else "6000"))
MEM = 12 << 30


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()


def run(cmd, timeout=600, env=None, mem=True, cwd=None):
    t0 = time.time()
    timeout = max(5, min(timeout, DEADLINE - time.time()))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         preexec_fn=limit if mem else os.setsid, env=env, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return -99, o or "", e or "", time.time() - t0


class Undecided(Exception):
    pass


C_SRC = {
    "array": "src/voucher/array.c", "keyvalue": "src/voucher/keyvalue.c",
    "serialize": "src/voucher/serialize.c", "voucher": "src/voucher/voucher.c",
    "request": "src/voucher/request.c", "crypto": "src/voucher/crypto_ossl.c",
    "os": "src/utils/os.c", "log": "src/utils/log.c",
    "config": "src/brski/config.c", "pledge_utils": "src/brski/pledge/pledge_utils.c",
}
LIB = ["array", "keyvalue", "serialize", "voucher", "request", "crypto", "os", "config", "pledge_utils"]


def incs(u):
    return ["-include", f"{HERE}/lib/vpre.h", f"-I{REPO}/src", f"-I{REPO}/lib", f"-I{HERE}/lib", f"-I{REPO}/_build"]


class Build:
    """goto binaries and native objects of one unit"""

    def __init__(self, unit, work):
        self.u, self.w = unit, work
        os.makedirs(work, exist_ok=True)

    def goto(self, small):
        u = self.u
        tag = "s" if small else "f"
        d = os.path.join(self.w, tag)
        os.makedirs(d, exist_ok=True)
        defs = ["-DVCBMC"] + [f"-D{x}" for x in u.defs]
        if u.loop_contracts and not small:
            defs += ["-DBRSKI_VERIFY"]
        if small:
            defs += ["-DVSMALL"] + [f"-D{x}" for x in u.small_defs]
        srcs = [(n, f"{REPO}/{C_SRC[n]}") for n in u.src]
        for n, path in u.extra_src:
            srcs.append((n, path))
        srcs += self.translated()
        objs = []
        for n, path in srcs:
            o = f"{d}/{n}.gb"
            ex = ["--export-file-local-symbols"] if any(n == k for k, _ in u.statics) else []
            rc, so, se, _ = run(["goto-cc", *defs, *ex, *incs(u), *u.cflags.get(n, []), "-c", path, "-o", o])
            if rc != 0:
                raise Undecided(f"goto-cc failed on {path}:\n{so[-2000:]}{se[-3000:]}")
            objs.append(o)
        repo = f"{d}/repo.gb"
        rc, so, se, _ = run(["goto-cc", *objs, "-o", repo])
        if rc != 0:
            raise Undecided(f"goto-cc link failed:\n{so[-2000:]}{se[-3000:]}")
        if u.remove:
            args = []
            for f in u.remove:
                args += ["--remove-function-body", f]
            rc, so, se, _ = run(["goto-instrument", *args, repo, f"{d}/repo2.gb"])
            if rc != 0 or not os.path.exists(f"{d}/repo2.gb"):
                raise Undecided(f"remove-function-body failed:\n{so[-2000:]}{se[-3000:]}")
            repo = f"{d}/repo2.gb"
        spec = []
        sd = [f"-D{f}={u.mangled(k, f)}" for k, f in u.statics]
        for i, path in enumerate([f"{HERE}/lib/verif.c"] + [f"{HERE}/specs/{s}" for s in u.spec]):
            o = f"{d}/spec{i}.gb"
            rc, so, se, _ = run(["goto-cc", *defs, *sd, *incs(u), "-c", path, "-o", o])
            if rc != 0:
                raise Undecided(f"goto-cc failed on {path}:\n{so[-2000:]}{se[-3000:]}")
            spec.append(o)
        out = f"{d}/all.gb"
        rc, so, se, _ = run(["goto-cc", "--function", u.entry, repo, *spec, "-o", out])
        if rc != 0 or not os.path.exists(out):
            raise Undecided(f"goto-cc link failed:\n{so[-2000:]}{se[-3000:]}")
        if u.replace_calls and not small:
            args = []
            for a, c in u.replace_calls:  # "module:f" marks a static function
                m, _, f = a.rpartition(":")
                a = u.mangled(m, f) if m and any(k == m for k, _ in u.statics) else f
                args += ["--replace-calls", f"{a}:{c}"]
            rc, so, se, _ = run(["goto-instrument", *args, out, f"{d}/rc.gb"])
            if rc != 0 or not os.path.exists(f"{d}/rc.gb"):
                raise Undecided(f"goto-instrument --replace-calls failed:\n{so[-2000:]}{se[-3000:]}")
            out = f"{d}/rc.gb"
        if u.loop_contracts and not small:
            if u.flatten:  # "do ... while (0)" inside a loop under contract
                args = [x for l in u.flatten for x in ("--unwindset", f"{l}:2")]
                rc, so, se, _ = run(["goto-instrument", *args, "--unwinding-assertions", out, f"{d}/fl.gb"])
                if rc != 0 or not os.path.exists(f"{d}/fl.gb"):
                    raise Undecided(f"goto-instrument --unwindset failed:\n{so[-2000:]}{se[-3000:]}")
                out = f"{d}/fl.gb"
            rc, so, se, _ = run(["goto-instrument", "--apply-loop-contracts", *u.gi_args, out, f"{d}/lc.gb"])
            if rc != 0 or not os.path.exists(f"{d}/lc.gb"):
                raise Undecided(f"goto-instrument --apply-loop-contracts failed:\n{so[-2000:]}{se[-3000:]}")
            out = f"{d}/lc.gb"
        elif (u.enforce or u.replace):
            args = ["--dfcc", u.entry]
            for f in u.enforce:
                args += ["--enforce-contract", f]
            for f in u.replace:
                args += ["--replace-call-with-contract", f]
            rc, so, se, _ = run(["goto-instrument", *args, *u.gi_args, out, f"{d}/dfcc.gb"])
            if rc != 0 or not os.path.exists(f"{d}/dfcc.gb"):
                raise Undecided(f"goto-instrument --dfcc failed:\n{so[-2000:]}{se[-3000:]}")
            out = f"{d}/dfcc.gb"
        return out

    def translated(self):
        """the C++ files, translated to C (lib/cxx2c.py)"""
        out = []
        for f in self.u.cxx:
            import cxx2c
            c = os.path.join(self.w, os.path.basename(f) + ".c")
            try:
                cxx2c.translate(f"{REPO}/src/brski/{f}.cpp", [f"-I{HERE}/lib/cxx"] + incs(self.u), c)
            except (cxx2c.Bad, KeyError, IndexError, ValueError, AttributeError, TypeError, subprocess.TimeoutExpired) as e:
                raise Undecided(f"translation of {f}.cpp failed: {e!r}")
            out.append((os.path.basename(f), c))
        return out

    def native(self):
        u = self.u
        d = os.path.join(self.w, "n")
        os.makedirs(d, exist_ok=True)
        defs = ["-DVREPLAY", "-DVSMALL"] + [f"-D{x}" for x in u.defs if not x.startswith("VNATIVE_NO")] + [f"-D{x}" for x in u.small_defs]
        fl = ["-g", "-O0", "-fno-inline", "-fno-builtin", "-w", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
              "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"]
        objs = []
        srcs = [(n, f"{REPO}/{C_SRC[n]}") for n in u.src] + list(u.extra_src_native or u.extra_src)
        srcs += [(os.path.basename(f), os.path.join(self.w, os.path.basename(f) + ".c")) for f in u.cxx]
        for n, path in srcs:
            o = f"{d}/{n}.o"
            rc, so, se, _ = run(["gcc", *fl, *defs, *incs(u), "-c", path, "-o", o], mem=False)
            if rc != 0:
                return None, se
            st = [f"--globalize-symbol={f}" for k, f in u.statics if k == n]
            if st:
                run(["objcopy", *st, o], mem=False)
            if u.remove:
                args = []
                for f in u.remove:
                    args += [f"--weaken-symbol={f}"]
                run(["objcopy", *args, o], mem=False)
            objs.append(o)
        for i, path in enumerate([f"{HERE}/lib/verif.c"] + [f"{HERE}/specs/{s}" for s in u.spec]):
            o = f"{d}/spec{i}.o"
            rc, so, se, _ = run(["gcc", *fl, *defs, *incs(u), "-c", path, "-o", o], mem=False)
            if rc != 0:
                return None, se
            objs.append(o)
        wraps = ["malloc", "calloc", "realloc", "localtime"] + u.native_wrap
        exe = f"{d}/replay"
        rc, so, se, _ = run(["gcc", *fl, *objs, *[f"-Wl,--wrap={x}" for x in wraps], "-Wl,--allow-multiple-definition", "-no-pie", "-Wl,--unresolved-symbols=ignore-all",
                             "-lcrypto", "-lm", *u.native_libs, "-o", exe], mem=False)
        if rc != 0:
            return None, se
        return exe, ""


SEM = threading.Semaphore(JOBS)


def cbmc_all(unit, gb, unwind=None, small=False, timeout=None, extra=()):
    """every property of gb; split > 0: the clauses of the specification are
    decided in groups of that size, each with its own solver run"""
    if not unit.split:
        return cbmc(unit, gb, unwind=unwind, small=small, timeout=timeout, extra=extra)
    rc, so, se, _ = run(["cbmc", gb, "--json-ui", "--show-properties", "--drop-unused-functions"])
    try:
        names = [p["name"] for m in json.loads(so) if "properties" in m for p in m["properties"]]
    except Exception:
        raise Undecided("cbmc --show-properties failed: " + so[-500:] + se[-500:])
    mine = [n for n in names if re.match(unit.split_re, n)]
    rest = [n for n in names if n not in set(mine)]
    k = max(1, unit.split)
    groups = [g for g in [rest[i::unit.split_rest] for i in range(unit.split_rest)] if g] + [mine[i:i + k] for i in range(0, len(mine), k)]
    t0 = time.time()
    end = t0 + (timeout or unit.timeout)

    def solve(g, limit, depth):
        """solving times are heavy-tailed: a group that takes long is halved and
        retried with the other SAT solver"""
        ex = list(extra) + [a for n in g for a in ("--property", n)]
        if depth % 2:
            ex += ["--sat-solver", "cadical"]
        left = end - time.time()
        if left < 5:
            raise Undecided("cbmc timeout")
        last = len(g) == 1 and depth > 3
        try:
            return [cbmc(unit, gb, unwind=unwind, small=small, timeout=left if last else min(left, limit), extra=ex)]
        except Undecided:
            if os.environ.get("VERIF_DEBUG"):
                print("slow", unit.name, depth, len(g), g[:6], flush=True)
            if last or time.time() > end - 5:
                raise
        if len(g) == 1:
            return solve(g, limit * 2, depth + 1)
        with ThreadPoolExecutor(2) as ex2:
            return [o for os_ in ex2.map(lambda i: solve(g[i::2], limit * 1.3, depth + 1), (0, 1)) for o in os_]

    def solve0(g):
        try:
            return solve(g, unit.split_limit, 0), None
        except Undecided as e:
            return [], e
    with ThreadPoolExecutor(len(groups)) as ex:
        both = list(ex.map(solve0, groups))
    outs = [o for os_, _ in both for o in os_]
    bad = [e for _, e in both if e is not None]
    if bad and not (small and any(r["status"] == "FAILURE" and not is_reach(r) and not is_unwind(r) for o in outs for r in o[0])):
        raise bad[0]
    if bad:  # a clause that fails decides, whatever the others would say
        return [r for o in outs for r in o[0]], sum(o[1] for o in outs), time.time() - t0, outs[0][3] + " (some groups without a verdict)", []
    res, seen, want = [], {}, set(names)
    for o in outs:
        for r in o[0]:
            if r["property"] in seen:  # unwinding assertions: in every group
                if r["status"] != "SUCCESS":
                    seen[r["property"]]["status"] = r["status"]
                continue
            seen[r["property"]] = r
            res.append(r)
    missing = [n for n in want if n not in seen]
    if missing:
        raise Undecided("properties without a verdict: " + ", ".join(missing[:5]))
    cmd = re.sub(r" --property \S+", "", outs[0][3]) + f" (clauses decided in {len(groups)} groups)"
    return res, sum(o[1] for o in outs), time.time() - t0, cmd, sorted({x for o in outs for x in o[4]})


def cbmc(unit, gb, extra=(), timeout=None, small=False, unwind=None):
    with SEM:
        return cbmc1(unit, gb, extra, timeout, small, unwind)


def cbmc1(unit, gb, extra=(), timeout=None, small=False, unwind=None):
    uw = unwind or (unit.small_unwind if small else unit.unwind)
    us = dict(unit.unwindset)
    if small and unwind:
        us, small = {k: max(v, unwind) for k, v in unit.small_unwindset.items()}, False
    if small:
        us = {k: 12 for k in us}
        us["fill_bytes.0"] = 12
        us.update(unit.small_unwindset)
    trace = "--trace" in extra
    # without a trace the plain interface is used: the JSON one always builds
    # traces, which exhausts memory on arrays of symbolic size
    cmd = ["cbmc", gb] + (["--json-ui"] if trace else ["--slice-formula"]) + \
          ["--unwind", str(uw), "--object-bits", str(unit.object_bits), "--drop-unused-functions", "--verbosity", "8"]
    if us:
        cmd += ["--unwindset", ",".join(f"{k}:{v}" for k, v in us.items())]
    cmd += list(unit.cbmc_args) + list(extra)
    rc, so, se, dt = run(cmd, timeout=timeout or unit.timeout)
    if rc == -99:
        raise Undecided(f"cbmc timeout after {dt:.0f}s")
    nobody = sorted(set(re.findall(r"no body for (?:function|callee) '?([\w$:]+)", so)))
    if not trace:
        return plain(so, se, rc) + (dt, " ".join(cmd), nobody)
    try:
        js = json.loads(so)
    except Exception:
        raise Undecided(f"cbmc gave no result (rc={rc}):\n{so[-1500:]}{se[-1500:]}")
    res, solver, steps = None, 0.0, 0
    for m in js:
        if "result" in m:
            res = m["result"]
        t = m.get("messageText", "")
        mm = re.search(r"Runtime Solver: ([0-9.e+-]+)s", t)
        if mm:
            solver += float(mm.group(1))
        if m.get("messageType") == "ERROR":
            raise Undecided(f"cbmc error: {t}")
    if res is None:
        raise Undecided(f"cbmc gave no result (rc={rc}):\n{so[-1500:]}")
    return res, solver, dt, " ".join(cmd), nobody


def plain(so, se, rc):
    solver = sum(float(x) for x in re.findall(r"Runtime Solver: ([0-9.e+-]+)s", so))
    if "** Results:" not in so or not re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)", so, re.M):
        raise Undecided(f"cbmc gave no result (rc={rc}):\n{so[-1500:]}{se[-1500:]}")
    res, f, fn = [], None, None
    for l in so[so.index("** Results:"):].splitlines():
        m = re.match(r"^(\S+) function (\S+)$", l)
        if m:
            f, fn = m.groups()
            continue
        m = re.match(r"^\[(.+?)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", l)
        if m:
            res.append(dict(property=m.group(1), description=m.group(3), status=m.group(4),
                            sourceLocation=dict(file=f, line=m.group(2), function=fn)))
    m = re.search(r"^\*\* (\d+) of (\d+) failed", so, re.M)
    if not m or int(m.group(2)) != len(res) or int(m.group(1)) != sum(r["status"] == "FAILURE" for r in res):
        raise Undecided(f"cbmc result not understood: {m and m.group(0)}, parsed {len(res)}")
    return res, solver


def is_reach(r):
    return r["description"].startswith("REACH ")


def is_unwind(r):
    return "unwinding assertion" in r["description"] or ".recursion" in r["property"]


LOOPY = re.compile(r"is assignable$|loop_invariant|loop invariant|loop_assigns|loop_decreases|decreases|loop_step|loop contract")


def run_unit(u, work):
    """returns dict(status in {ok, bounded, violation, undecided}, ...)"""
    out = dict(unit=u.name, functions=u.functions, backend="CBMC 6.11 symbolic execution, SAT (MiniSat)", bounded=u.bounded,
               obligations=0, discharged=0, solver_s=0.0, wall_s=0.0, failures=[], notes=[])
    t0 = time.time()
    b = Build(u, work)
    attempts = [("full", False)]
    try:
        if os.environ.get("VERIF_SMALL"):  # debugging aid: exercise the bounded stand-in
            raise Undecided("VERIF_SMALL set")
        gb = b.goto(False)
    except Undecided as e:
        out["status"], out["reason"] = "undecided", str(e)
        if u.covered_by and not os.environ.get("VERIF_SMALL"):
            # the static function under contract is gone or has another
            # signature: bounded check of its caller on the callees that are there
            out["notes"].append(str(e)[-300:])
            return fallback(u, b, out, t0, other=u.covered_by)
        return fallback(u, b, out, t0)
    unwind = None
    while True:
        try:
            res, solver, dt, cmd, nobody = cbmc_all(u, gb, unwind=unwind)
        except Undecided as e:
            out["reason"] = str(e)
            out["status"] = "undecided"
            return fallback(u, b, out, t0)
        out["solver_s"] += solver
        out["cmd"] = cmd
        fails = [r for r in res if r["status"] == "FAILURE" and not is_reach(r)]
        if fails and all(is_unwind(r) for r in fails) and unwind is None and u.unwind < 40:
            unwind = max(16, u.unwind * 3)
            out["notes"].append(f"unwinding assertion failed at --unwind {u.unwind}; retried with {unwind}")
            continue
        break
    out["nobody"] = nobody
    obl = [r for r in res if not is_reach(r)]
    out["obligations"] = len(obl)
    out["discharged"] = sum(r["status"] == "SUCCESS" for r in obl)
    reach = [r for r in res if is_reach(r)]
    dead = [r for r in reach if r["status"] == "SUCCESS"]
    out["reach"] = f"{len(reach) - len(dead)}/{len(reach)}"
    out["contract_clauses"] = [r["description"] for r in obl if r["description"].startswith(("ENSURES", "CALLEE-PRE"))
                               or "ensures" in r["description"] or "requires" in r["description"]]
    hard = [r for r in fails if not is_unwind(r)]
    out["wall_s"] = time.time() - t0
    if not fails and not dead and out["discharged"] == out["obligations"] and reach and obl:
        out["status"] = "bounded" if u.bounded else "ok"
        return out
    if not fails and not dead:
        out["reason"] = "some obligations have no verdict: " + ", ".join(r["property"] for r in obl if r["status"] != "SUCCESS")[:300]
        out["status"] = "undecided"
        return fallback(u, b, out, t0)
    if fails and not hard:
        out["reason"] = "only unwinding assertions failed"
        out["status"] = "undecided"
        return fallback(u, b, out, t0)
    if u.loop_contracts and hard and any(LOOPY.search(r["description"] + r["property"]) or u.loop_soft(r) for r in hard):
        # an inductive invariant no longer fits the loop: the proof is lost, not the property
        out["reason"] = "loop contract obligations failed: " + "; ".join(r["description"] for r in hard[:5])
        out["status"] = "undecided"
        return fallback(u, b, out, t0, keep=hard)
    if u.replace_calls and (hard or dead):
        # the proof goes through contracts of static functions; whether the code
        # still has that structure is not the property: decide on the real callees
        out["reason"] = "failed with static callees replaced by their contracts: " + "; ".join(r["description"] for r in (hard or dead)[:5])
        out["status"] = "undecided"
        out["modular"] = [dict(property=r["property"], description=r["description"], location=r.get("sourceLocation", {})) for r in hard if r["description"].startswith("ENSURES")]
        return fallback(u, b, out, t0)
    out["status"] = "violation"
    out["failures"] = [dict(property=r["property"], description=r["description"],
                            location=r.get("sourceLocation", {})) for r in hard]
    if not hard and dead:
        out["failures"] = [dict(property=r["property"], description="vacuity guard: unreachable: " + r["description"],
                                location=r.get("sourceLocation", {})) for r in dead]
    out["replay"] = replay(u, b, out)
    out["wall_s"] = time.time() - t0
    return out


def fallback(u, b, out, t0, keep=(), other=None):
    """the unbounded proof could not be redone: bounded check of the same contract"""
    out["notes"].append("unbounded proof not redone (" + out.get("reason", "")[:300] + "); bounded stand-in used")
    fu = u
    try:
        if u.fallback or other:
            fu = U.BYNAME[other or u.fallback]
            b = Build(fu, b.w + "_fb")
        gb = b.goto(True)
        res, solver, dt, cmd, nobody = cbmc_all(fu, gb, small=True, extra=["--no-unwinding-assertions"], timeout=400)
    except Undecided as e:
        out["status"] = "undecided"
        out["reason"] = out.get("reason", "") + " / " + str(e)
        out["wall_s"] = time.time() - t0
        return out
    out["solver_s"] += solver
    fails = [r for r in res if r["status"] == "FAILURE" and not is_reach(r) and not is_unwind(r)]
    dead = [r for r in res if is_reach(r) and r["status"] == "SUCCESS"]
    if dead and not fails:
        # unreachable, or only beyond the loop bounds, which were chosen for the loops of
        # the unchanged code: look again with wider ones
        try:
            sel = [x for r in dead for x in ("--property", r["property"])]
            r2, *_ = cbmc(fu, gb, small=True, extra=["--no-unwinding-assertions", *sel], unwind=40, timeout=150)
            ok = {r["property"] for r in r2 if r["status"] == "SUCCESS"}
        except Undecided:
            ok = set()
        for r in dead:
            if r["property"] not in ok:
                r["status"] = "FAILURE"
        dead = [r for r in dead if r["status"] == "SUCCESS"]
    obl = [r for r in res if not is_reach(r)]
    out["obligations"], out["discharged"] = len(obl), sum(r["status"] == "SUCCESS" for r in obl)
    nreach = sum(is_reach(r) for r in res)
    out["reach"] = f"{nreach - len(dead)}/{nreach}"
    out["cmd"] = cmd
    if fails:
        out["status"] = "violation"
        out["failures"] = [dict(property=r["property"], description=r["description"],
                                location=r.get("sourceLocation", {})) for r in fails]
        out["replay"] = replay(fu, b, out)
    elif dead:
        out["status"] = "violation"
        out["failures"] = [dict(property=r["property"], description="vacuity guard: unreachable: " + r["description"],
                                location=r.get("sourceLocation", {})) for r in dead]
        out["replay"] = dict(confirmed=False, log="")
    else:
        out["status"] = "bounded"
        out["bounded"] = (out.get("bounded") or "") + f" bounded fallback: lengths <= small bound, unwind {fu.small_unwind}"
    out["wall_s"] = time.time() - t0
    return out


def nd_values(trace):
    vals = []
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "nd_v" and s.get("sourceLocation", {}).get("function") == "nd_raw" and not s.get("hidden", False):
            v = s.get("value", {})
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            elif "data" in v:
                vals.append(int(re.sub(r"[a-zA-Z]+$", "", v["data"])))
    return vals


def replay(u, b, out):
    """counterexample on small inputs -> native run of the real code"""
    log = []
    r = dict(confirmed=False)
    try:
        gb = b.goto(True)
        order = sorted(out["failures"], key=lambda f: ("ENSURES" not in f["description"] and "CALLEE" not in f["description"]))
        props = []
        for f in order[:4]:
            props += ["--property", f["property"]]
        res = []
        for sel in (props, []):
            try:
                res, *_ = cbmc(u, gb, small=True, extra=["--trace", "--no-unwinding-assertions"] + sel, timeout=240)
            except Undecided as e:
                log.append(str(e)[:300])
            if [x for x in res if x["status"] == "FAILURE" and not is_reach(x) and not is_unwind(x)]:
                break
        fails = [x for x in res if x["status"] == "FAILURE" and not is_reach(x) and not is_unwind(x)]
        log.append("small-input counterexamples: " + ", ".join(x["description"] for x in fails[:10]))
        exe = None
        if fails:
            exe, err = b.native()
            if exe is None:
                log.append("native build failed: " + err[-1500:])
        wanted = [f["description"] for f in out["failures"]]
        fails.sort(key=lambda x: (x["description"] not in wanted, not x["description"].startswith("ENSURES")))
        for x in fails[:6]:
            vals = nd_values(x.get("trace", []))
            if exe:
                inp = os.path.join(b.w, "replay.in")
                open(inp, "w").write("\n".join(map(str, vals)) + "\n")
                env = dict(os.environ, VREPLAY_INPUT=inp, ASAN_OPTIONS="detect_leaks=1:exitcode=66:allocator_may_return_null=1",
                           UBSAN_OPTIONS="halt_on_error=0", LSAN_OPTIONS="exitcode=0")
                rc, so, se, _ = run([exe], timeout=60, env=env, mem=False)
                bad = "REPLAY-VIOLATION" in se or "AddressSanitizer" in se and "LeakSanitizer" not in se.split("AddressSanitizer")[0] \
                    or rc < 0 or rc in (66, 77)
                log.append(f"native replay of '{x['description']}' rc={rc}\n{se[-2500:]}")
                if bad:
                    r.update(confirmed=True, obligation=x["description"], input=vals, native=se[-4000:])
                    break
    except Undecided as e:
        log.append(str(e))
    except Exception as e:  # never let the replay hide the violation
        log.append("replay error: %r" % e)
    r["log"] = "\n".join(log)
    return r


def main():
    pid = sys.argv[1]
    t0 = time.time()
    sel = [u for u in U.UNITS if u.prop == pid and (TIER == "thorough" or not u.thorough_only)]
    if len(sys.argv) > 2:
        sel = [u for u in sel if re.search(sys.argv[2], u.name)]
    if not sel:
        print("no unit for", pid)
        return 2
    work = tempfile.mkdtemp(prefix=f"brski_{pid}_")
    try:
        with ThreadPoolExecutor(max(JOBS, len(sel))) as ex:
            outs = list(ex.map(lambda u: safe(u, os.path.join(work, u.name)), sel))
        settle(sel, outs)
        return report(pid, outs, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work:", work)


def settle(sel, outs):
    """a postcondition failed with static callees by contract, the bounded stand-in (short inputs) shows
    nothing: when this run proved every one of those contracts of the real functions, the modular proof
    is the verdict; otherwise the stand-in's"""
    proved = {f for o in outs if o["status"] == "ok" or (o["status"] == "bounded" and "fallback" not in o["bounded"]) for f in o["functions"]}
    for u, o in zip(sel, outs):
        if o["status"] == "bounded" and o.get("modular") and all(c.split(":")[-1] in proved for c, _ in u.replace_calls):
            o["status"], o["failures"] = "violation", o["modular"]
            o["replay"] = dict(confirmed=False, log="failed with the callees' contracts, each proved in this run; no short input shows it: " + "; ".join(o["notes"]))


def safe(u, w):
    try:
        fn = getattr(u, "runner", None)
        return fn(u, w, sys.modules[__name__]) if fn else run_unit(u, w)
    except Undecided as e:
        return dict(unit=u.name, functions=u.functions, status="undecided", reason=str(e), obligations=0, discharged=0,
                    solver_s=0, wall_s=0, failures=[], notes=[], bounded=u.bounded)


def loc(l):
    return f"{l.get('file')}:{l.get('line')} ({l.get('function')})"


def known(pid):
    p = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) unit=(\S+) obligation=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def report(pid, outs, t0):
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    kf = known(pid)
    viol = []
    for o in outs:
        if o["status"] == "violation":
            rest = [f for f in o["failures"]
                    if not any(k[0] == o["unit"] and k[1] in f["description"] for k in kf)]
            hit = [k for k in kf if k[0] == o["unit"] and any(k[1] in f["description"] for f in o["failures"])]
            for k in hit:
                print(f"KNOWN-FINDING: property={pid} {k[2]}")
            if rest:
                o["failures"] = rest
                viol.append(o)
            else:
                o["status"] = "known"
    und = [o for o in outs if o["status"] == "undecided"]
    # a unit with a known finding has an obligation that is not discharged: listed, not counted as proved
    proved = [o for o in outs if o["status"] == "ok"]
    bounded = [o for o in outs if o["status"] == "bounded"]
    ev = dict(
        property=pid, tier=TIER, seed=SEED, level="proof" if proved or not bounded else "model_checking",
        coverage=dict(
            obligations=sum(o["obligations"] for o in proved),
            discharged=sum(o["discharged"] for o in proved),
            checker_cmd=f"python3 check.py {pid}",
            trusted_base=U.TRUSTED + U.TRUSTED_BY.get(pid, []),
            functions_under_contract=sorted({f for o in outs for f in o["functions"]}),
            units=[{k: o.get(k) for k in ("unit", "status", "functions", "obligations", "discharged", "reach", "backend",
                                          "solver_s", "wall_s", "bounded", "nobody", "notes", "cmd", "reason")} for o in outs],
            known_finding_units=[o["unit"] for o in outs if o["status"] == "known"],
            bounded_obligations=sum(o["obligations"] for o in bounded),
            solver_time_s=round(sum(o["solver_s"] for o in outs), 3),
            contract_clauses=sorted({c for o in outs for c in o.get("contract_clauses", [])}),
        ),
        assumptions=U.ASSUME + U.ASSUME_BY.get(pid, []),
        wall_s=round(time.time() - t0, 3), violations=len(viol))
    if ev["level"] == "model_checking":
        n = sum(o["obligations"] for o in bounded)
        ev["level"] = "other"
        ev["coverage"]["explanation"] = "every unit of this property is a bounded contract check (see units); nothing is counted as proved"
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    for o in outs:
        print(f"[{pid}] {o['unit']}: {o['status']} {o['discharged']}/{o['obligations']} obligations, reach {o.get('reach')}, "
              f"solver {o['solver_s']:.1f}s wall {o['wall_s']:.1f}s" + (f" [bounded: {o['bounded']}]" if o.get("bounded") else ""))
        for n in o.get("notes", []):
            print("   note:", n[-400:])
        if o["status"] == "undecided":
            print("   reason:", o.get("reason", "")[:3000])
    if viol:
        os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
        conf = [o for o in viol if o.get("replay", {}).get("confirmed")]
        o = (conf or viol)[0]
        path = f"{HERE}/evidence/replay/{pid}.txt"
        with open(path, "w") as f:
            for v in (conf or viol):
                f.write(f"property {pid}, unit {v['unit']}, functions {', '.join(v['functions'])}\n")
                f.write(f"verifier command: {v.get('cmd')}\n\nfailed obligations:\n")
                for x in v["failures"]:
                    f.write(f"  {x['property']}: {x['description']} at {loc(x['location'])}\n")
                rp = v.get("replay", {})
                f.write("\nreplay on the real code: " + ("CONFIRMED\n" if rp.get("confirmed") else "no failing input found\n"))
                if rp.get("confirmed"):
                    f.write(f"  obligation: {rp['obligation']}\n  input (values of the harness' nondeterministic choices): {rp['input']}\n{rp['native']}\n")
                f.write("\nlog:\n" + rp.get("log", "") + "\n\n")
        for v in viol:
            for x in v["failures"][:12]:
                print(f"   FAILED {v['unit']} {x['property']}: {x['description']} line {x['location'].get('line')}")
        tail = "" if conf else " no-failing-input-found"
        print(f"VIOLATION property={pid} replay={path}{tail}")
        return 1
    if und:
        print(f"UNDECIDED property={pid}: " + "; ".join(o["unit"] for o in und))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
