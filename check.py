#!/usr/bin/env python3
"""Decide one property: check.py <property> (VERIF_TIER, VERIF_SEED from the environment).

Exit 0: the solver discharged every obligation. Exit 1 with a VIOLATION line: it found a counterexample
that also fails natively. Anything else is exit 2: no answer."""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import gen  # noqa: E402
import units  # noqa: E402,F401
import props  # noqa: E402
import smt  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
FLAGS = ["-Z", "unstable-options", "--no-memory-safety-checks", "--no-undefined-function-checks",
         "--no-assertion-reach-checks", "--output-format", "terse"]
# Byte objects up to this size (heap cells among them) keep their constants during symbolic execution.
CBMC = ["--cbmc-args", "--max-field-sensitivity-array-size", "1024"]
NATIVE = os.environ.get("VERIF_TOOLCHAIN", "1.94")


class NoAnswer(Exception):
    pass


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def sh(cmd, cwd, timeout, e=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        subprocess.run(["pkill", "-P", str(os.getpid())], check=False)
        out = x.stdout or b""
        return 124, out.decode(errors="replace") if isinstance(out, bytes) else out


def kani(unit, names, paths, budget, per):
    d = gen.UNITS[unit].dir
    out = os.path.join(d, f"result-{os.getpid()}.json")
    cmd = ["cargo", "kani"] + FLAGS + ["-j", str(min(8, max(1, len(names)))), "--export-json", out,
                                       "--harness-timeout", f"{per}s", "--exact"]
    for n in names:
        cmd += ["--harness", paths[n]]
    rc, log = sh(cmd + CBMC, d, budget)
    try:
        with open(out) as f:
            r = json.load(f)
        os.remove(out)
    except (OSError, ValueError):
        raise NoAnswer(f"{unit}: kani gave no result (exit {rc})\n" + log[-3000:])
    return r, log


def playback(unit, name, path, budget):
    d = gen.UNITS[unit].dir
    cmd = ["cargo", "kani"] + FLAGS + ["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", path]
    rc, log = sh(cmd + CBMC, d, budget)
    tests = []
    for t in re.split(r"(?m)^Concrete playback unit test", log)[1:]:
        m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", t, re.S)
        if m:
            vals = [v.replace(" ", "") for v in re.findall(r"vec!\[([^\]]*)\]", m.group(1))]
            about = re.search(r"/// (?:Check for|Check \d+).*", t)
            tests.append((vals, about.group(0)[4:] if about else ""))
    return tests, log


def replay(prop, unit, name, vals, k):
    """Run the harness natively on these inputs. (reproduced, text, path)"""
    d = gen.UNITS[unit].dir
    rd = os.path.join(HERE, "evidence", "replay", prop)
    os.makedirs(rd, exist_ok=True)
    vp = os.path.join(rd, f"{name}-{k}.vals")
    with open(vp, "w") as f:
        f.write("\n".join(v if v else " " for v in vals) + "\n")
    rc, log = sh(["cargo", f"+{NATIVE}", "build", "--offline", "--bin", "replay"], d, 400)
    if rc != 0:
        raise NoAnswer(f"{unit}: native build failed\n" + log[-2000:])
    e = env()
    e.update(VK_VALS=vp, RUST_BACKTRACE="0")
    rc, log = sh([os.path.join(d, "target", "debug", "replay"), name], d, 60, e)
    rp = os.path.join(rd, f"{name}-{k}.txt")
    with open(rp, "w") as f:
        f.write(f"harness {name} (unit {unit}); inputs in call order, one line each, in {os.path.basename(vp)}\n"
                f"rerun: cd {d} && VK_VALS={vp} target/debug/replay {name}\nexit {rc}\n{log}\n")
    return rc == 101, log, rp, rc


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f) if k.get("property") == prop and k.get("status") == "known"]
    except FileNotFoundError:
        return []


def main():
    prop = sys.argv[1]
    P = props.PROPS[prop]
    t0 = time.time()
    thorough = TIER == "thorough"
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=SEED, level="other", coverage={},
              assumptions=P.assumptions, wall_s=0.0, violations=0)
    cov = ev["coverage"]
    cov["explanation"] = P.explain
    cov["bounds"] = P.bounds
    harn, functions, files = [], set(), set()
    queries = discharged = witnesses = 0
    solver_s = symex_s = 0.0
    viol, errors = [], []
    findings = known(prop)
    try:
        for unit, names in P.harnesses(thorough):
            paths = gen.generate(unit)
            for n in names:
                if n not in paths:
                    raise NoAnswer(f"no harness {n} in {unit}")
            budget = 3600 if thorough else 840
            r, log = kani(unit, names, paths, max(60, budget - (time.time() - t0)), 3000 if thorough else 600)
            files |= {f.src for f in gen.UNITS[unit].files.values()}
            stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in r.get("cbmc", [])}
            res = {x["harness_id"]: x for x in r["verification_results"]["results"]}
            for n in names:
                x = res.get(paths[n])
                if x is None:
                    errors.append(f"{n}: no result")
                    continue
                st = stats.get(paths[n], {})
                checks = x.get("checks") or []
                covers = [c for c in checks if c["category"] == "cover"]
                asserts = [c for c in checks if c["category"] != "cover"]
                bad = [c for c in asserts if c["status"] == "Failure"]
                unsat = [c for c in covers if c["status"] != "Satisfied"]
                functions |= {c["function"] for c in checks if (c.get("location") or {}).get("file", "").startswith("src/")}
                queries += len(asserts)
                discharged += sum(c["status"] == "Success" for c in asserts)
                witnesses += sum(c["status"] == "Satisfied" for c in covers)
                solver_s += st.get("runtime_decision_procedure_s") or 0.0
                symex_s += st.get("runtime_symex_s") or 0.0
                harn.append(dict(harness=n, unit=unit, status=x["status"], obligations=len(asserts),
                                 reachability_witnesses=len(covers), ssa_steps=st.get("size_program_expression"),
                                 vccs=st.get("vccs_generated"), vccs_after_simplification=st.get("vccs_remaining"),
                                 symex_s=st.get("runtime_symex_s"), solver_s=st.get("runtime_decision_procedure_s"),
                                 solver=(r.get("cbmc") or [{}])[0].get("configuration", {}).get("solver")))
                unwind = [c for c in bad if "unwinding assertion" in c["description"] or c["category"] == "unwind"]
                limit = [c for c in bad if "limit of a stand-in" in c["description"]]
                real = [c for c in bad if c not in unwind and c not in limit]
                if x["status"] == "Success" and not bad:
                    if not asserts:
                        errors.append(f"{n}: nothing was checked")
                    elif unsat:
                        errors.append(f"{n}: vacuous: {unsat[0]['description']} cannot be reached")
                    continue
                if not bad:
                    errors.append(f"{n}: {x['status']}\n" + log[-1500:])
                    continue
                if not real:
                    errors.append(f"{n}: bound too small: {bad[0]['description']} in {bad[0]['function']}")
                    continue
                if viol:
                    continue  # one is enough
                # A counterexample: make it an input of the native build.
                tests, plog = playback(unit, n, paths[n], max(60, budget + 40 - (time.time() - t0)))
                if not tests:
                    errors.append(f"{n}: {real[0]['description']}: no inputs from the solver\n" + plog[-1500:])
                    continue
                got = False
                for k, (vals, about) in enumerate(tests[:12]):
                    ok, text, rp, rc = replay(prop, unit, n, vals, k)
                    if ok:
                        msg = re.search(r"panicked at ([^\n]*)\n([^\n]*)", text)
                        what = f"{msg.group(2).strip()} ({msg.group(1).rstrip(':')})" if msg else real[0]["description"]
                        kf = [f for f in findings if f["harness"] == n and f["match"] in what]
                        if kf:
                            print(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
                            got = True
                            continue
                        viol.append((rp, n, what))
                        got = True
                        break
                if not got:
                    errors.append(f"{n}: {real[0]['description']} in {real[0]['function']}: the solver's inputs do not fail natively")
        for unit, names in P.smt(thorough):
            r = smt.run(unit, names)
            files |= set(r.files)
            functions |= set(r.functions)
            queries += r.queries
            discharged += r.discharged
            witnesses += r.witnesses
            solver_s += r.solver_s
            harn += r.rows
            errors += r.errors
            got = False
            for k, (unit, n, what, vals) in enumerate(r.violations[:6]):
                ok, text, rp, rc = replay(prop, unit, n, vals, k)
                if not ok:
                    continue
                got = True
                kf = [f for f in findings if f["harness"] == n and f["match"] in what]
                if kf:
                    print(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
                    continue
                viol.append((rp, n, what))
            if r.violations and not got:
                errors.append(f"{r.violations[0][1]}: {r.violations[0][2]}: the solver's inputs do not fail natively")
    except (NoAnswer, gen.GenError, smt.SmtError) as x:
        errors.append(str(x))
    ev["violations"] = len(viol)
    fl = sorted(functions)
    cov.update(functions_encoded=fl[:120], functions_encoded_count=len(fl), source_files=sorted(files),
               queries=queries, discharged=discharged, reachability_witnesses=witnesses,
               solver_time_s=round(solver_s, 3), symbolic_execution_time_s=round(symex_s, 3), runs=harn[:60],
               errors=[e[:500] for e in errors][:10])
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in errors:
        print(f"no answer: {e}", file=sys.stderr)
    if viol:
        for rp, n, what in viol:
            print(f"{n}: {what}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(viol[0][0], HERE)}")
        return 1
    if errors:
        return 2
    print(f"{prop}: {discharged}/{queries} obligations discharged, {witnesses} witnesses, "
          f"{len(harn)} runs, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
