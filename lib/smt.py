"""Harnesses decided by SMT solvers over the MIR of a unit (see mir.py)."""
import os
import re
import time

import gen
import mir


class SmtError(Exception):
    pass


class Result:
    def __init__(self):
        self.files, self.functions, self.rows, self.errors, self.violations = [], [], [], [], []
        self.queries = self.discharged = self.witnesses = 0
        self.solver_s = 0.0


def run(unit, names, timeout=120):
    paths = gen.generate(unit)
    u = gen.UNITS[unit]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    r = Result()
    r.files = [f.src for f in u.files.values()]
    try:
        text = mir.mir_of(u.dir, env)
    except mir.MirError as x:
        raise SmtError(f"{unit}: {x}")
    enums = {}
    for d, _, fs in os.walk(os.path.join(u.dir, "src")):
        for f in fs:
            for m in re.finditer(r"\benum (\w+)\s*\{", gen.read(os.path.join(d, f))):
                enums[m.group(1)] = variants(gen.read(os.path.join(d, f)), m.end())
    for n in names:
        if n not in paths:
            raise SmtError(f"no harness {n} in {unit}")
        e = mir.Exec(text, timeout, enums)
        t0 = time.time()
        try:
            e.run(n)
        except mir.MirError as x:
            r.errors.append(f"{n}: {x}")
        if not e.violations:
            r.errors += [f"{n}: vacuous: a place in {f} cannot be reached" for (f, _), ok in e.covers.items() if not ok]
            if not e.queries:
                r.errors.append(f"{n}: nothing was checked")
        r.queries += e.queries
        r.discharged += e.discharged
        r.witnesses += sum(e.covers.values())
        r.solver_s += e.solver_s
        r.functions += sorted(e.used)
        r.rows.append(dict(harness=n, unit=unit, status="Failure" if e.violations else "Success", obligations=e.queries,
                           reachability_witnesses=len(e.covers), paths=getattr(e, "paths", 0), ssa_steps=e.steps,
                           solver_s=round(e.solver_s, 3), wall_s=round(time.time() - t0, 2), solver="z3, cvc5 over integers"))
        for what, vals in e.violations:
            r.violations.append((unit, n, what, [le(v, t) for v, t in vals]))
    return r


def variants(text, i):
    """The variants of an enum, in order, from the text after its brace."""
    out, depth, cur = [], 1, ""
    while depth:
        c = text[i]
        if text.startswith("//", i):
            i = text.index("\n", i)
            continue
        depth += (c in "({[") - (c in ")}]")
        if depth == 1 and c == "," or depth == 0:
            m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(\w+)", cur)
            if m:
                out.append(m.group(1))
            cur = ""
        else:
            cur += c
        i += 1
    return out


def le(v, t):
    n = 1 if t == "bool" else mir.BITS[t] // 8
    return ",".join(str(b) for b in int(v).to_bytes(n, "little", signed=v < 0))
