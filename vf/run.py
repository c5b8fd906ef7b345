#!/usr/bin/env python3
"""Driver: decides one property of /repo by discharging the obligations of its
units (contracts on the real functions) with CBMC.  See DESIGN.md."""
import concurrent.futures as cf
import hashlib, importlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
from cut import cut, CutError

CONFIG = ["-DDILL_SOCKETS=1", "-DHAVE_POSIX_MEMALIGN=1", "-DHAVE_MPROTECT=1",
          "-DHAVE_LIBRT=1", "-DHAVE_CLOCK_GETTIME=1", "-DHAVE_STDIO_H=1",
          "-DHAVE_STDLIB_H=1", "-DHAVE_STRING_H=1", "-DHAVE_EPOLL_CREATE=1"]
WORKERS = int(os.environ.get("VF_JOBS", "7"))
MEMLIMIT = 12 << 30

def sh(cmd, timeout, env=None, cwd=None, mem=MEMLIMIT):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env, cwd=cwd, preexec_fn=lim)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate()
        return 124, "timeout after %ds" % timeout, time.time() - t

class Unit:
    """One group of obligations.
    file     harness in /verif/h
    entry    entry point in the harness
    fns      real functions under contract here
    unwind   default unwinding (complete: unwinding assertions are on)
    cuts     loop contracts: [(file, func, ordinal, tag, vars)]
    bound    None: every input/iteration covered; text: bounded stand-in
    fallback Unit to use when the structure needed by the cuts is gone
    """
    def __init__(self, name, file, entry, fns, unwind=None, unwindset=None, defs=(),
                 cuts=(), bound=None, fallback=None, flags=(), timeout=300, tier="quick",
                 contract=None, dfcc=None, fuzz=15, assume=(), incs=(), solver=None, nofuzz=False,
                 nbdefs=None, replace=(), fuzzonly=False):
        self.__dict__.update(locals()); del self.__dict__["self"]

def prepare(u, wd):
    """Builds the goto binary; returns (gb, log). Raises CutError on structure."""
    d = os.path.join(wd, u.name); os.makedirs(d, exist_ok=True)
    byfile = {}
    for f, func, k, tag, vars_ in u.cuts:
        byfile.setdefault(f, []).append((func, k, tag, vars_))
    for f, jobs in byfile.items():
        src = open(os.path.join(REPO, f)).read()
        out = cut(src, jobs)
        with open(os.path.join(d, f), "w") as o:
            o.write('#line 1 "%s/%s"\n' % (REPO, f) + out)
    gb = os.path.join(d, "u.gb")
    cmd = ["goto-cc", "-DVF_CBMC=1", "-DVF_ENTRY=" + u.entry, "-I" + d, "-I" + os.path.join(VERIF, "h"), "-I" + REPO] \
        + CONFIG + list(u.defs) + ["--function", u.entry, "-o", gb, os.path.join(VERIF, "h", u.file)]
    rc, out, t = sh(cmd, 120)
    if rc != 0:
        raise CutError("goto-cc: " + out[-2000:])
    if u.replace:
        gb2 = os.path.join(d, "u2.gb")
        cmd2 = ["goto-instrument"] + sum([["--replace-calls", r] for r in u.replace], []) + [gb, gb2]
        rc, out2, t = sh(cmd2, 120)
        if rc != 0: raise CutError("goto-instrument: " + out2[-2000:])
        gb = gb2; cmd += ["&&"] + cmd2
    if u.dfcc:
        gb2 = os.path.join(d, "u2.gb")
        cmd2 = ["goto-instrument", "--dfcc", u.entry] + list(u.dfcc) + [gb, gb2]
        rc, out2, t = sh(cmd2, 120)
        if rc != 0: raise CutError("goto-instrument: " + out2[-2000:])
        gb = gb2; cmd += ["&&"] + cmd2
    return gb, cmd

def cbmc_cmd(u, gb):
    cmd = ["cbmc", gb, "--object-bits", "10", "--no-malloc-may-fail", "--drop-unused-functions",
           "--slice-formula"]
    if u.unwind: cmd += ["--unwind", str(u.unwind)]
    if u.unwindset: cmd += ["--unwindset", u.unwindset]
    if u.solver: cmd += u.solver
    if "--object-bits" in u.flags: del cmd[2:4]
    cmd += list(u.flags)
    return cmd

def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        # truncated or with stray text
        i = out.find("[")
        try: return json.loads(out[i:out.rfind("]") + 1])
        except Exception: return None

SOLVERS = ([], ["--sat-solver", "cadical"])

def race(cmds, timeout, mem=MEMLIMIT):
    """Runs the commands concurrently; output of the first that finishes with a
    verdict (rc 0 or 10) wins, the others are ended."""
    def lim():
        os.setsid(); resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time(); procs = []
    for c in cmds:
        f = tempfile.TemporaryFile()
        procs.append((subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, preexec_fn=lim), f, c))
    last = None
    try:
        while True:
            live = 0
            for p, f, c in procs:
                rc = p.poll()
                if rc is None: live += 1; continue
                f.seek(0); last = (rc, f, c)
                if rc in (0, 10):
                    return rc, f.read().decode("utf-8", "replace"), time.time() - t, c
            if not live:
                rc, f, c = last; f.seek(0)
                return rc, f.read().decode("utf-8", "replace"), time.time() - t, c
            if time.time() - t > timeout: return 124, "timeout after %ds" % timeout, time.time() - t, cmds[0]
            time.sleep(0.05)
    finally:
        for p, f, c in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except ProcessLookupError: pass
                p.wait()

def run_cbmc(u, gb, timeout):
    base = cbmc_cmd(u, gb) + ["--json-ui"]
    cmds = [base] if u.solver else [base + s for s in SOLVERS]
    rc, out, t, cmd = race(cmds, timeout)
    r = dict(rc=rc, time=t, cmd=" ".join(cmd), props=[], raw=out[-4000:])
    r["solver"] = "cadical" if "cadical" in r["cmd"] else "minisat" if not u.solver else " ".join(u.solver)
    if rc == 124: r["status"] = "timeout"; return r
    js = parse_json(out)
    if js is None: r["status"] = "error"; return r
    res = None; msgs = []
    for it in js:
        if "result" in it: res = it["result"]
        if it.get("messageText"): msgs.append(it["messageText"])
    r["nobody"] = sorted({m.split("'")[-2] if "'" in m else m.split()[-1] for m in msgs if "no body for" in m})
    if res is None:
        r["status"] = "error"; r["raw"] = "\n".join(msgs)[-3000:]; return r
    r["status"] = "done"
    r["props"] = res
    return r

def extract_values(u, gb, prop, timeout):
    cmd = [x for x in cbmc_cmd(u, gb) if x != "--slice-formula"] + ["--json-ui", "--trace", "--property", prop]
    rc, out, t, _ = race([cmd] if u.solver else [cmd + s for s in SOLVERS], timeout)
    js = parse_json(out)
    if js is None: return None, out[-2000:]
    for it in js:
        for p in it.get("result", []):
            if p.get("property") == prop and p.get("trace"):
                vals = []
                brief = []
                for s in p["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "nd_v" and not s.get("hidden") \
                       and s.get("value", {}).get("name") in ("integer", "unknown", None) or \
                       (s.get("stepType") == "assignment" and s.get("lhs") == "nd_v"):
                        v = s.get("value", {})
                        if "binary" in v:
                            vals.append((s.get("sourceLocation", {}), s.get("assignmentType"), int(v["binary"], 2)))
                    if s.get("stepType") == "function-call":
                        brief.append("call " + s.get("function", {}).get("displayName", "?"))
                    if s.get("stepType") == "failure":
                        brief.append("FAIL " + s.get("reason", ""))
                return [v for _, _, v in vals], "\n".join(brief[-60:])
    return None, "no trace"

def native_replace(u, d):
    """The native counterpart of goto-instrument --replace-calls: calls of f in
    the /repo sources the harness includes become calls of the stand-in g."""
    if not u.replace: return []
    h = open(os.path.join(VERIF, "h", u.file)).read(); nd = os.path.join(d, "nat"); os.makedirs(nd, exist_ok=True)
    from cut import blank
    for f in re.findall(r'#include "(\w+\.c)"', h):
        if not os.path.exists(os.path.join(REPO, f)): continue
        text = open(os.path.join(REPO, f)).read(); b = blank(text); edits = []
        for r in u.replace:
            name, to = r.split(":")
            m = re.search(r"^(?:static\s+)?((?:struct\s+)?\w+\s*\**)\s*%s\s*(\([^)]*\))" % to, h, re.M)
            if not m: raise CutError("no prototype for " + to)
            depth = 0; last = 0
            for c in re.finditer(r"\b%s\s*\(" % name, b):
                depth += b[last:c.start()].count("{") - b[last:c.start()].count("}"); last = c.start()
                if depth > 0: edits.append((c.start(), c.start() + len(name), "({ extern %s%s%s; %s; })" % (m.group(1), " " + to, m.group(2), to)))
        for a, z, new in sorted(edits, reverse=True): text = text[:a] + new + text[z:]
        open(os.path.join(nd, f), "w").write('#line 1 "%s/%s"\n' % (REPO, f) + text)
    return ["-I" + nd]

def native_build(u, wd):
    d = os.path.join(wd, u.name); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "native")
    defs = list(u.nbdefs if u.nbdefs is not None else u.defs)
    try: rdir = native_replace(u, d)
    except CutError as e: return None, str(e)
    cmd = ["gcc", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,signed-integer-overflow",
           "-fno-sanitize-recover=all", "-ffunction-sections", "-fdata-sections", "-Wl,--gc-sections", "-DVF_ENTRY=" + u.entry] + rdir + ["-I" + os.path.join(VERIF, "h"), "-I" + REPO] \
        + CONFIG + defs + ["-o", exe, os.path.join(VERIF, "h", u.file), "-lm"]
    rc, out, t = sh(cmd, 120, mem=None)
    return (exe, cmd) if rc == 0 else (None, out)

NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=98:abort_on_error=0:allocator_may_return_null=1",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=98")

def native_replay(exe, valsfile):
    rc, out, t = sh([exe], 30, env=dict(NENV, VF_VALUES=valsfile), mem=None)
    return rc, out

def failed(props):
    bad, und, reach_ok, reach_bad, n = [], [], [], [], 0
    for p in props:
        d = p.get("description", "")
        if d.startswith("REACH "):
            (reach_ok if p["status"] == "FAILURE" else reach_bad).append(p); continue
        n += 1
        if p["status"] == "FAILURE": bad.append(p)
        elif p["status"] != "SUCCESS": und.append(p)
    return bad, und, reach_ok, reach_bad, n

def is_unwind(p): return ".unwind." in p["property"] or "unwinding assertion" in p.get("description", "") or ".recursion" in p["property"]

def do_unit(u, wd, deadline, prop):
    """-> dict(outcome=proved|bounded|violation|undecided, ...)"""
    R = dict(unit=u.name, functions=list(u.fns), bound=u.bound, notes=[], contract=u.contract,
             assumptions=list(u.assume))
    t0 = time.time()
    if u.fuzzonly:
        r = finish_undecided(u, wd, R, deadline, t0)
        if r["outcome"] == "undecided" and any("NOTHING" in n for n in r["notes"]): r["outcome"] = "searched"
        return r
    try:
        gb, ccmd = prepare(u, wd)
    except CutError as e:
        R["notes"].append("structure: " + str(e)[-1500:])
        if u.fallback:
            r = do_unit(u.fallback, wd, deadline, prop)
            r["notes"] = R["notes"] + ["fell back to bounded stand-in " + u.fallback.name] + r["notes"]
            return r
        return finish_undecided(u, wd, R, deadline, t0)
    budget = min(u.timeout, deadline - time.time() - 20)
    c = run_cbmc(u, gb, budget)
    R["solver_s"] = round(c["time"], 2); R["cmd"] = c["cmd"]; R["solver"] = c["solver"]; R["cc"] = " ".join(ccmd)
    if c["status"] != "done":
        R["notes"].append("cbmc %s: %s" % (c["status"], c["raw"][-600:]))
        if u.fallback:
            r = do_unit(u.fallback, wd, deadline, prop)
            r["notes"] = R["notes"] + ["fell back to " + u.fallback.name] + r["notes"]
            return r
        return finish_undecided(u, wd, R, deadline, t0)
    bad, und, rok, rbad, n = failed(c["props"])
    R["obligations"] = n; R["discharged"] = n - len(bad); R["reach"] = len(rok)
    R["nobody"] = c.get("nobody", [])
    unw = [p for p in bad if is_unwind(p)]
    hard = [p for p in bad if not is_unwind(p)]
    if rbad and not bad:
        R["notes"].append("vacuity guard not reachable: " + ", ".join(p["description"] for p in rbad))
        if not rok:
            R["outcome"] = "undecided"
            return finish_undecided(u, wd, R, deadline, t0)
    if n == 0 or (not rok and not rbad):
        R["notes"].append("no obligations or no vacuity guard")
        return finish_undecided(u, wd, R, deadline, t0)
    R["discharged"] -= len(und)
    if und and not bad:
        R["notes"].append("%d obligations without a verdict (%s)" % (len(und), und[0]["status"]))
        if u.fallback:
            r = do_unit(u.fallback, wd, deadline, prop)
            r["notes"] = R["notes"] + ["fell back to " + u.fallback.name] + r["notes"]
            return r
        return finish_undecided(u, wd, R, deadline, t0)
    if not bad:
        R["outcome"] = "bounded" if u.bound else "proved"
        R["wall_s"] = round(time.time() - t0, 2)
        return R
    # ---- something failed: look for a failing input on the real code
    R["failed"] = [dict(property=p["property"], description=p.get("description"),
                        location="%s:%s" % (p.get("sourceLocation", {}).get("file", "?"), p.get("sourceLocation", {}).get("line", "?")))
                   for p in bad]
    if u.fallback:
        # the invariant proof failed: decide by the bounded stand-in (which can be replayed)
        fb = do_unit(u.fallback, wd, deadline, prop)
        fb["notes"] = R["notes"] + ["obligations of the loop-contract proof failed: %s" %
                      "; ".join("%s %s" % (f["property"], f["description"]) for f in R["failed"][:6])] + fb["notes"]
        if fb["outcome"] in ("bounded", "proved", "undecided", "searched"):
            base_only = all(re.search(r"INV .* base", p.get("description") or "") for p in hard)
            if not base_only:
                fb["outcome"] = "violation"; fb["replay_found"] = False
                fb["failed"] = R["failed"]; fb["verifier"] = c["raw"]
        return fb
    R["notes"].append("failed: " + "; ".join("%s %s" % (p["property"], p.get("description")) for p in bad[:8]))
    exe, ncmd = native_build(u, wd)
    if exe is None:
        R["notes"].append("native build failed: " + str(ncmd)[-800:])
    order = sorted(hard, key=lambda p: 0 if ".assertion" in p["property"] else 1) + unw
    for p in order[:4]:
        rem = deadline - time.time() - 15
        if rem < 20: break
        vals, info = extract_values(u, gb, p["property"], min(rem, u.timeout))
        if vals is None:
            R["notes"].append("no trace for " + p["property"]); continue
        vf = os.path.join(wd, u.name, "vals.txt")
        open(vf, "w").write("".join("%d\n" % v for v in vals))
        R.setdefault("traces", {})[p["property"]] = info
        if exe:
            rc, out = native_replay(exe, vf)
            R["notes"].append("replay of %s on the real code: rc=%d" % (p["property"], rc))
            if rc not in (0, 77, 76):
                R.update(outcome="violation", replay_found=True, values=vals, native=out[-3000:], native_cmd=ncmd,
                         witness=p["property"] + " " + p.get("description", ""))
                R["wall_s"] = round(time.time() - t0, 2)
                return R
    if exe and not u.nofuzz:
        r = fuzz(u, exe, wd, R, min(u.fuzz, deadline - time.time() - 10))
        if r:
            R.update(outcome="violation", replay_found=True, native_cmd=ncmd, **r)
            R["wall_s"] = round(time.time() - t0, 2)
            return R
    if hard:
        R.update(outcome="violation", replay_found=False, verifier=json.dumps(R["failed"], indent=1))
    else:
        R["notes"].append("only unwinding assertions failed: the result is bounded, not proved")
        R["outcome"] = "bounded"; R["bound"] = (u.bound or "") + " unwinding capped at %s" % u.unwind
    R["wall_s"] = round(time.time() - t0, 2)
    return R

def fuzz(u, exe, wd, R, secs):
    if secs < 3: return None
    seed = os.environ.get("VF_SEED0", os.environ.get("VERIF_SEED", "1"))
    rc, out, t = sh([exe], secs + 30, env=dict(NENV, VF_FUZZ=str(int(secs)), VF_SEED=seed), mem=None)
    R["notes"].append("search on the real code: " + out.strip()[-200:])
    m = re.search(r"FOUND seed=(\d+)", out)
    if not m: return None
    lf = os.path.join(wd, u.name, "fuzzvals.txt")
    rc, out, t = sh([exe], 30, env=dict(NENV, VF_SEED=m.group(1), VF_LOG=lf), mem=None)
    try: vals = [int(x) for x in open(lf).read().split()]
    except Exception: vals = []
    if rc in (0, 77): return None
    return dict(values=vals, native=out[-3000:], witness="seeded search, seed %s" % m.group(1))

def finish_undecided(u, wd, R, deadline, t0):
    R.setdefault("obligations", 0); R.setdefault("discharged", 0)
    exe, ncmd = native_build(u, wd)
    R["outcome"] = "undecided"
    if exe and not u.nofuzz:
        r = fuzz(u, exe, wd, R, min(u.fuzz * 2, deadline - time.time() - 10))
        if r: R.update(outcome="violation", replay_found=True, native_cmd=ncmd, **r)
    elif not exe:
        R["notes"].append("native build failed: " + str(ncmd)[-500:])
    R["wall_s"] = round(time.time() - t0, 2)
    return R

def known_findings(prop):
    res = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) unit=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop: res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError: pass
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = [a.split("=")[1] for a in sys.argv if a.startswith("--unit=")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    import specs
    units, assumptions, explain = specs.units(prop, tier)
    if only: units = [u for u in units if u.name in only]
    wd = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    viol = 0
    try:
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(lambda u: do_unit(u, wd, deadline, prop), units))
        kf = known_findings(prop)
        replay_dir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(replay_dir, exist_ok=True)
        lines = []
        for r in res:
            if r["outcome"] != "violation": continue
            text = json.dumps(r.get("failed", [])) + str(r.get("native", ""))
            known = [k for k in kf if k[0] == r["unit"] and k[1].search(text)]
            if known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[0][2])); r["known"] = known[0][2]; continue
            viol += 1
            path = os.path.join(replay_dir, "%s_%s.json" % (prop, r["unit"]))
            json.dump(dict(property=prop, **{k: v for k, v in r.items()}), open(path, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if r.get("replay_found") else " no-failing-input-found"))
        proved = [r for r in res if r["outcome"] == "proved"]
        ev = dict(property=prop, tier=tier, seed=seed, level=specs.LEVEL[prop],
            coverage=dict(
                obligations=sum(r.get("obligations", 0) for r in proved),
                discharged=sum(r.get("discharged", 0) for r in proved),
                checker_cmd="goto-cc (real /repo sources + contract harness) && cbmc --json-ui (SAT back end: MiniSat/CaDiCaL)",
                trusted_base=["CBMC 6.11 C front end, symbolic execution and SAT back end", "loop cutter /verif/vf/cut.py (Hoare while-rule)",
                              "contracts assumed for dependencies, listed under assumptions"],
                explanation=explain,
                functions_under_contract=sorted({f for r in proved for f in r["functions"]}),
                functions_bounded=sorted({f for r in res if r["outcome"] == "bounded" for f in r["functions"]}),
                solver_s=round(sum(r.get("solver_s", 0) for r in res), 1),
                bounded_obligations=sum(r.get("discharged", 0) for r in res if r["outcome"] == "bounded"),
                vacuity_guards_reached=sum(r.get("reach", 0) for r in res),
                searched_only=[r["unit"] for r in res if r["outcome"] == "searched"],
                undecided=[r["unit"] for r in res if r["outcome"] == "undecided"],
                units=[{k: r.get(k) for k in ("unit", "contract", "outcome", "bound", "functions", "obligations", "discharged", "reach", "solver_s", "solver", "notes", "known", "cmd", "nobody")} for r in res]),
            assumptions=assumptions + sorted({a for r in res for a in r.get("assumptions", [])}),
            wall_s=round(time.time() - t0, 2), violations=viol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
        for r in res:
            print("%-28s %-10s obl=%s/%s reach=%s %ss %s" % (r["unit"], r["outcome"], r.get("discharged"), r.get("obligations"), r.get("reach"), r.get("wall_s"), "" if not r.get("bound") else "[bounded: %s]" % r["bound"]))
            if r["outcome"] not in ("proved", "bounded", "searched") or r["notes"]:
                for n in r["notes"]: print("    " + n[:400].replace("\n", " "))
        for l in lines: print(l)
    finally:
        if "--keep" in sys.argv: print("kept", wd)
        else: shutil.rmtree(wd, ignore_errors=True)
    sys.exit(1 if viol else 0)

if __name__ == "__main__":
    main()
