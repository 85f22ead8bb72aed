"""Runs the check of one property: proofs (one process per function under contract) and the concrete replay."""
import os
import re
import sys
import json
import time
import shutil
import signal
import hashlib
import tempfile
import importlib
import traceback
import subprocess
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import spec  # noqa: E402

REPO = spec.REPO
NPROC = min(8, os.cpu_count() or 4)

BASE_TRUST = [
    "z3 (SMT solver) and the VC generator /verif/dv (its loop rule, memory model and sum/product lemma schemas)",
    "clang-18 front end and the opt-18 canonicalisation passes (inlining, SROA, GVN, unroll-full, LICM): the text verified is the LLVM IR they produce from /repo's current headers",
    "floating-point arithmetic is treated as real arithmetic (no rounding, overflow, NaN or infinity) unless the function is listed as bit-exact",
    "integers are mathematical after the stated size bounds (array sizes up to 2^36 elements), pointers into different arrays are unrelated",
    "operator new never fails; no exception escapes from it",
]
CXXFLAGS_REPLAY = ["-std=c++20", "-O1", "-g0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow", "-fno-sanitize=nonnull-attribute,null,returns-nonnull-attribute", "-fno-omit-frame-pointer",
                   "-DXSIMD_ENABLE_XTL_COMPLEX=1", "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3", "-I" + os.path.join(VERIF, "replay")]


class Job:
    """a proof: fn(mod) -> list of Proof"""

    def __init__(self, name, unit, fn, budget=400):
        self.name, self.unit, self.fn, self.budget = name, unit, fn, budget


def _job_main(job, mod, q):
    sys.setrecursionlimit(20000)
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        ps = job.fn(mod)
        if not isinstance(ps, (list, tuple)):
            ps = [ps]
        out = []
        for p in ps:
            out.append(dict(fn=p.fn, label=getattr(p, "label", p.fn), secs=p.secs, queries=p.pv.queries, solver=p.pv.time, fpmode=p.e.fpmode,
                            obls=[(o.name, o.status, (o.detail or "")[:3000], o.secs, o.backend) for o in p.e.obls],
                            assumed=sorted(p.e.assumed), contracts=sorted(p.e.contract_used), inlined=sorted(p.e.inlined),
                            model=getattr(p.pv, "cex", None), notes=p.notes, loops=len(p.e.loops_done)))
        q.put(("ok", out))
    except spec.BuildError as ex:
        q.put(("build", str(ex)))
    except Exception as ex:
        q.put(("err", "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:])))


def run_jobs(jobs, mods, stop=None):
    """stop() -> None or the reason to give up on what is still running"""
    ctx = mp.get_context("fork")
    pend = list(jobs)
    live = []
    res = {}
    while pend or live:
        why = stop() if stop else None
        if why:
            for j, p, q, t0 in live:
                p.kill()
            for j in [x[0] for x in live] + pend:
                res.setdefault(j.name, ("err", why))
            break
        while pend and len(live) < NPROC:
            j = pend.pop(0)
            q = ctx.SimpleQueue()
            m = mods[j.unit]
            if isinstance(m, Exception):
                res[j.name] = ("build", str(m))
                continue
            p = ctx.Process(target=_job_main, args=(j, m, q))
            p.start()
            live.append((j, p, q, time.time()))
        nl = []
        for (j, p, q, t0) in live:
            if not q.empty():
                res[j.name] = q.get()
                p.join(10)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                if not q.empty():
                    res[j.name] = q.get()
                else:
                    res[j.name] = ("err", "the prover process ended with code %s" % p.exitcode)
            elif time.time() - t0 > j.budget + 60:
                p.kill()
                res[j.name] = ("err", "time limit of %d s" % j.budget)
            else:
                nl.append((j, p, q, t0))
        live = nl
        time.sleep(0.02)
    return res


def compile_replay(src, exe, defines=()):
    cmd = ["g++"] + CXXFLAGS_REPLAY + list(defines) + [src, "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr


def run_replay(exe, seed, thorough, hints):
    cmd = [exe, "--seed=%d" % seed] + (["--thorough"] if thorough else []) + ["--hint=%s=%d" % kv for kv in sorted(hints.items())]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4000", UBSAN_OPTIONS="print_stacktrace=0")
    d = tempfile.mkdtemp(prefix="dvrun-")
    try:
        r = subprocess.run(cmd, capture_output=True, env=env, timeout=850, cwd=d)
        out, err, rc = r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace"), r.returncode
    except subprocess.TimeoutExpired as ex:
        out, err, rc = (ex.stdout or b"").decode("utf8", "replace"), "time limit", -1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fails, counts, samples = [], {}, []
    for ln in out.splitlines():
        if ln.startswith("FAIL "):
            k, _, t = ln[5:].partition(" :: ")
            fails.append((k, t))
        elif ln.startswith("COUNT "):
            _, g, n = ln.split()
            counts[g] = int(n)
        elif ln.startswith("SAMPLE "):
            samples.append(ln[7:])
    if not fails and (rc != 0 or "DONE" not in out):
        fails.append(("harness.abnormal-end", "exit %s, output ends: %s / %s" % (rc, out[-300:], err[-600:])))
    return dict(rc=rc, fails=fails, counts=counts, samples=samples, err=err[-2500:], cmd=cmd[1:])


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def setup():
    """check that the tools this machinery needs are present; nothing is built ahead of a check"""
    for c in (["clang++-18", "--version"], ["opt-18", "--version"], ["g++", "--version"]):
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode:
            print("missing tool: %s" % c[0])
            return 1
    import z3
    print("tools present, z3 %s" % z3.get_version_string())
    return 0


def main(pid):
    if pid == "--setup":
        return setup()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    sys.path.insert(0, os.path.join(VERIF, "props"))
    prop = importlib.import_module(pid.lower())
    work = tempfile.mkdtemp(prefix="dv-%s-" % pid)
    try:
        return _main(pid, prop, tier, seed, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main(pid, prop, tier, seed, thorough, work, t0):
    units = getattr(prop, "UNITS", {})
    jobs = prop.jobs(thorough) if hasattr(prop, "jobs") else []
    # 1. extract: compile the instantiation units from the current tree, and the replay harness
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(NPROC)

    def unit(u):
        d = units[u]
        try:
            return spec.build_ir(os.path.join(VERIF, "cxx", d["cpp"]), os.path.join(work, u), d["exports"], keep=d.get("keep", ()), defines=d.get("defines", ()), drop=d.get("drop", ()))
        except spec.BuildError as ex:
            return ex
        except Exception as ex:      # the extracted text is outside the dialect
            return spec.BuildError("%s: %s" % (type(ex).__name__, ex))
    fm = {u: pool.submit(unit, u) for u in units}
    rexe = {}
    for i, src in enumerate(getattr(prop, "REPLAY", [])):
        src, defs = (src, ()) if isinstance(src, str) else src
        exe = os.path.join(work, "replay%d" % i)
        rexe[exe] = (src, pool.submit(compile_replay, os.path.join(VERIF, "replay", src), exe, defs))
    only = os.environ.get("DV_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j.name)]
    mods = {u: f.result() for u, f in fm.items()}
    tb = time.time() - t0
    # the concrete cross-check runs beside the proofs
    rruns = {}
    if not only or os.environ.get("DV_REPLAY"):
        for exe, (src, fut) in rexe.items():
            def go(exe=exe, fut=fut):
                return run_replay(exe, seed, thorough, {}) if fut.result()[0] == 0 else None
            rruns[exe] = (src, pool.submit(go))
    tlim = 5400 if thorough else 660
    found = [0.0]

    def stop():
        t = time.time()
        if not found[0] and any(f.done() and f.result() and any(k not in known for k, _ in f.result()["fails"]) for _, f in rruns.values()):
            found[0] = t
        if found[0] and t - found[0] > 40:
            return "not finished when the concrete replay had already shown the violation"
        if t - t0 > tlim:
            return "time limit of the check"
        return None
    known = known_findings(pid)
    res = run_jobs(jobs, mods, stop) if jobs else {}
    tp = time.time() - t0 - tb
    # 2. collect
    obls, fns, failed, assumed, contracts, inlined, hints = [], [], [], set(), set(), set(), {}
    solver = 0.0
    notes = []
    for j in jobs:
        st, out = res[j.name]
        if st != "ok":
            failed.append(("%s/verification-condition-generation" % j.name, "unknown", out))
            obls.append((j.name, "unknown"))
            continue
        for p in out:
            n = len(p["obls"])
            good = sum(1 for o in p["obls"] if o[1] == "proved")
            fns.append(dict(function=p["label"], job=j.name, obligations=n, discharged=good, solver_s=round(p["solver"], 2), queries=p["queries"],
                            arithmetic="bit-exact (IEEE operations uninterpreted)" if p["fpmode"] == "uf" else "real", loops_cut=p["loops"]))
            solver += p["solver"]
            assumed |= set(p["assumed"])
            contracts |= set(p["contracts"])
            inlined |= set(p["inlined"])
            notes += p["notes"]
            if n == 0:
                failed.append(("%s/vacuity:no-obligation" % p["label"], "unknown", "no obligation was generated"))
            for o in p["obls"]:
                obls.append((o[0], o[1]))
                if o[1] != "proved":
                    failed.append((j.name + ":" + o[0], o[1], o[2]))
            if p["model"]:
                for k, v in p["model"].items():
                    hints.setdefault(k, v)
    # 3. concrete replay (bounded cross-check; produces the failing input when an obligation failed)
    bounded = []
    rfails = []
    cases = 0
    builds_failed = []
    for exe, (src, fut) in rexe.items():
        rc, err = fut.result()
        if rc:
            builds_failed.append((src, err))
    rr = [(src, f.result()) for src, f in rruns.values()]
    if failed and hints and rr and not any(r and any(k not in known for k, _ in r["fails"]) for _, r in rr) and time.time() - t0 < tlim:
        # sizes from the solver's counterexample, tried on the real code
        rr += list(pool.map(lambda it: (it[1][0], run_replay(it[0], seed, thorough, hints)) if it[1][1].result()[0] == 0 else (it[1][0], None), rexe.items()))
    for src, r in rr:
        if r is None:
            continue
        n = sum(r["counts"].values())
        cases += n
        bounded.append(dict(harness="replay/" + src, cases=n, groups=r["counts"], samples=r["samples"][:6]))
        for k, t in r["fails"]:
            rfails.append((src, k, t, r))
    # 4. verdict
    bad_build = [m for m in mods.values() if isinstance(m, Exception)]
    if bad_build or builds_failed:
        for m in bad_build:
            sys.stderr.write(str(m)[-3000:] + "\n")
        for s, e in builds_failed:
            sys.stderr.write("replay harness %s does not compile:\n%s\n" % (s, e[-3000:]))
    seen_known = set()
    new = []
    for src, k, t, r in rfails:
        if k in known:
            seen_known.add(k)
        else:
            new.append((src, k, t, r))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    violation = None
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".txt")
    if os.path.exists(rpath):
        os.unlink(rpath)
    if new or failed or bad_build or builds_failed:
        with open(rpath, "w") as f:
            f.write("property %s, tier %s, seed %d\n\n" % (pid, tier, seed))
            if new:
                f.write("== failing inputs on the real code\n")
                for src, k, t, r in new[:40]:
                    f.write("harness: replay/%s  args: %s\n%s\n  %s\n%s\n" % (src, " ".join(r["cmd"]), k, t, ("  stderr: " + r["err"]) if r["err"] else ""))
                f.write("rerun: g++ %s /verif/replay/%s -o /tmp/r && /tmp/r %s\n\n" % (" ".join(CXXFLAGS_REPLAY), new[0][0], " ".join(new[0][3]["cmd"])))
            if failed:
                f.write("== failed obligations (verifier output)\n")
                for n, s, d in failed[:60]:
                    f.write("%s: %s\n    %s\n" % (n, s, d.replace("\n", "\n    ")[:3000]))
            for m in bad_build:
                f.write("== extraction failed\n%s\n" % str(m)[-3000:])
            for s, e in builds_failed:
                f.write("== replay harness %s does not compile\n%s\n" % (s, e[-3000:]))
        violation = rpath
    ndis = sum(1 for o in obls if o[1] == "proved")
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(prop, "LEVEL", "proof"), wall_s=round(time.time() - t0, 2),
              violations=(1 if violation else 0),
              assumptions=BASE_TRUST + sorted(assumed) + list(getattr(prop, "ASSUMPTIONS", [])),
              coverage=dict(
                  obligations=len(obls), discharged=ndis,
                  checker_cmd="python3-vt /verif/run.py %s" % pid,
                  trusted_base=BASE_TRUST + sorted(assumed) + list(getattr(prop, "ASSUMPTIONS", [])),
                  back_end="z3 (python API), obligations closed syntactically by polynomial normal form are counted as discharged by the generator",
                  solver_s=round(solver, 2), extraction_s=round(tb, 2), proof_s=round(tp, 2),
                  functions_under_contract=fns,
                  callees_used_by_contract=sorted(contracts),
                  callees_inlined=len(inlined),
                  failed_obligations=[f[0] for f in failed][:50],
                  bounded_part=dict(label="bounded (concrete executions, never counted as proved)", cases=cases, harnesses=bounded,
                                    covers=getattr(prop, "BOUNDED", "")),
                  notes=notes,
                  evaluations=cases, distinct_nontrivial=cases,
                  rule="replay cases: one call of the real code per case with the sizes, offsets and parameters enumerated by the harness (all small sizes, random integer-valued data); every case compares against a direct oracle",
                  samples=[s for b in bounded for s in b["samples"]][:8] or ["none"],
              ))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d functions under contract, %d replay cases, %.1f s (extract %.1f, prove %.1f)"
          % (pid, len(obls), ndis, len(fns), cases, time.time() - t0, tb, tp))
    if new:
        for src, k, t, r in new[:5]:
            print("  failing input: %s :: %s" % (k, t[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, violation))
        return 1
    if failed or bad_build or builds_failed:
        for n, s, d in failed[:8]:
            print("  failed obligation: %s (%s)" % (n[:300], s))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, violation))
        return 1
    return 0
