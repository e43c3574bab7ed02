"""Symbolic execution of rustc's MIR into SMT over the integers.

For arithmetic that bit-blasting does not reach (128-bit products and quotients of unknowns). A harness is a
Rust function of a generated unit, the same source that the native replay runs: `vk::u64()` and the like are
unknowns, `vk::assume` adds to the path, every panic, overflow and failed assertion is a query, and
`vk::reach!` a satisfiability query. The MIR is taken from the compiler at every run. Calls into the unit are
executed in place; functions of the standard library are the ones listed in CORE. What is not understood
raises: no answer is given rather than a wrong one."""

import os
import re
import subprocess
import tempfile
import time


class MirError(Exception):
    pass


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32}


def rng(t):
    b = BITS[t]
    return (-(1 << b - 1), (1 << b - 1) - 1) if t[0] == "i" else (0, (1 << b) - 1)


# ---- terms: tuples (op, *args), shared; integers and booleans ----
def C(n):
    return ("c", n)


TRUE, FALSE = ("b", True), ("b", False)


def B(x):
    return TRUE if x else FALSE


def fdiv(a, b):  # Rust: towards zero
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def op(o, *a):
    k = [x[1] for x in a if x[0] in ("c", "b")]
    if len(k) == len(a):
        if o == "+": return C(k[0] + k[1])
        if o == "-": return C(k[0] - k[1])
        if o == "*": return C(k[0] * k[1])
        if o == "div" and k[1]: return C(fdiv(k[0], k[1]))
        if o == "mod" and k[1]: return C(k[0] - k[1] * fdiv(k[0], k[1]))
        if o == "<=": return B(k[0] <= k[1])
        if o == "<": return B(k[0] < k[1])
        if o == "=": return B(k[0] == k[1])
        if o == "not": return B(not k[0])
        if o == "and": return B(k[0] and k[1])
        if o == "or": return B(k[0] or k[1])
        if o == "xor": return B(k[0] != k[1])
    if o == "*":
        if C(0) in a: return C(0)
        if a[0] == C(1): return a[1]
        if a[1] == C(1): return a[0]
        if repr(a[0]) > repr(a[1]): a = (a[1], a[0])
    if o == "+":
        if a[0] == C(0): return a[1]
        if a[1] == C(0): return a[0]
        if repr(a[0]) > repr(a[1]): a = (a[1], a[0])
    if o == "-":
        if a[1] == C(0): return a[0]
        if a[0] == a[1]: return C(0)
    if o == "div" and a[1] == C(1): return a[0]
    if o in ("<=", "=") and a[0] == a[1]: return TRUE
    if o == "<" and a[0] == a[1]: return FALSE
    if o == "not" and a[0][0] == "not": return a[0][1]
    if o == "and":
        if a[0] == TRUE: return a[1]
        if a[1] == TRUE: return a[0]
        if FALSE in a: return FALSE
    if o == "or":
        if a[0] == FALSE: return a[1]
        if a[1] == FALSE: return a[0]
        if TRUE in a: return TRUE
    if o == "ite":
        if a[0] == TRUE: return a[1]
        if a[0] == FALSE: return a[2]
        if a[1] == a[2]: return a[1]
        if a[1] == TRUE and a[2] == FALSE: return a[0]
        if a[1] == FALSE and a[2] == TRUE: return op("not", a[0])
    return (o,) + a


def NOT(a):
    return op("not", a)


class Path:
    """What is known on a path: conditions, and intervals of terms that follow from them."""

    def __init__(self, conds=(), iv=None, vars=()):
        self.conds, self.iv, self.vars = list(conds), dict(iv or {}), list(vars)

    def copy(self):
        return Path(self.conds, self.iv, self.vars)

    def add(self, c):
        if c == TRUE:
            return
        self.conds.append(c)
        self.learn(c)

    def tight(self, t, lo, hi):
        if t[0] == "c":
            return
        l, h = self.range(t)
        l = lo if l is None else l if lo is None else max(l, lo)
        h = hi if h is None else h if hi is None else min(h, hi)
        self.iv[t] = (l, h)

    def learn(self, c):
        pos = True
        while c[0] == "not":
            c, pos = c[1], not pos
        if c[0] == "and" and pos:
            self.learn(c[1]); self.learn(c[2])
        elif c[0] == "or" and not pos:
            self.learn(NOT(c[1])); self.learn(NOT(c[2]))
        elif c[0] in ("<=", "<"):
            a, b, strict = c[1], c[2], c[0] == "<"
            if not pos:
                a, b, strict = b, a, not strict
            (al, _), (_, bh) = self.range(a), self.range(b)
            d = 1 if strict else 0
            if bh is not None: self.tight(a, None, bh - d)
            if al is not None: self.tight(b, al + d, None)
        elif c[0] == "=" and pos and c[1][0] not in ("b",):
            (al, ah), (bl, bh) = self.range(c[1]), self.range(c[2])
            self.tight(c[1], bl, bh)
            self.tight(c[2], al, ah)

        elif c[0] == "=" and not pos:
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if y[0] == "c":
                    lo, hi = self.range(x)
                    if lo == y[1]: self.tight(x, lo + 1, None)
                    if hi == y[1]: self.tight(x, None, hi - 1)

    def range(self, t, memo=None):
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        lo = hi = None
        r = lambda x: self.range(x, memo)
        o = t[0]
        if o == "c":
            lo = hi = t[1]
        elif o in ("+", "-", "*"):
            (al, ah), (bl, bh) = r(t[1]), r(t[2])
            if o == "+":
                lo = al + bl if al is not None and bl is not None else None
                hi = ah + bh if ah is not None and bh is not None else None
            elif o == "-":
                lo = al - bh if al is not None and bh is not None else None
                hi = ah - bl if ah is not None and bl is not None else None
            elif None not in (al, ah, bl, bh):
                p = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(p), max(p)
        elif o == "div":
            (al, ah), (bl, bh) = r(t[1]), r(t[2])
            if al is not None and al >= 0 and bl is not None and bl >= 1:
                lo = al // bh if bh is not None else 0
                hi = ah // bl if ah is not None else None
        elif o == "mod":
            (al, ah), (bl, bh) = r(t[1]), r(t[2])
            if al is not None and al >= 0 and bl is not None and bl >= 1:
                lo, hi = 0, ah
                if bh is not None: hi = bh - 1 if hi is None else min(hi, bh - 1)
        elif o == "ite":
            (al, ah), (bl, bh) = r(t[2]), r(t[3])
            lo = min(al, bl) if al is not None and bl is not None else None
            hi = max(ah, bh) if ah is not None and bh is not None else None
        if t in self.iv:
            l, h = self.iv[t]
            lo = l if lo is None else lo if l is None else max(lo, l)
            hi = h if hi is None else hi if h is None else min(hi, h)
        memo[t] = (lo, hi)
        return lo, hi

    def decide(self, c):
        """True or False where the intervals settle a condition, else None."""
        if c[0] == "b": return c[1]
        if c[0] == "not":
            d = self.decide(c[1])
            return None if d is None else not d
        if c in self.conds: return True
        if NOT(c) in self.conds: return False
        if c[0] in ("and", "or"):
            a, b = self.decide(c[1]), self.decide(c[2])
            if c[0] == "and":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if c[0] in ("<=", "<", "="):
            (al, ah), (bl, bh) = self.range(c[1]), self.range(c[2])
            if c[0] == "=":
                if None not in (ah, bl) and ah < bl or None not in (al, bh) and al > bh: return False
                return None
            s = 1 if c[0] == "<" else 0
            if None not in (ah, bl) and ah + s <= bl: return True
            if None not in (al, bh) and al >= bh + 1 - s: return False
        return None


# ---- SMT ----
def smt_text(path, goal):
    """The path and the goal in SMT-LIB, every term named, intervals as lemmas."""
    names, lines, memo = {}, [], {}

    def emit(t):
        if t in names:
            return names[t]
        if t[0] == "c":
            s = str(t[1]) if t[1] >= 0 else f"(- {-t[1]})"
        elif t[0] == "b":
            s = "true" if t[1] else "false"
        elif t[0] == "v":
            s = t[1]
            lines.append(f"(declare-const {s} Int)")
        elif t[0] == "vb":
            s = t[1]
            lines.append(f"(declare-const {s} Bool)")
        else:
            a = [emit(x) for x in t[1:]]
            s = f"t{len(names)}"
            boolean = t[0] in ("<=", "<", "=", "not", "and", "or", "xor") or t[0] == "ite" and is_bool(t[2])
            e = f"({t[0]} {' '.join(a)})"
            if boolean:
                lines.append(f"(define-fun {s} () Bool {e})")
            else:
                lines.append(f"(declare-const {s} Int)")
                if t[0] in ("div", "mod") and path.range(t[1], memo)[0] is not None and path.range(t[1], memo)[0] >= 0:
                    # quotient and remainder of a number that is not negative, by what they are
                    q, m = (s, f"(- {a[0]} (* {s} {a[1]}))") if t[0] == "div" else (None, s)
                    if q:
                        lines.append(f"(assert (and (<= 0 {m}) (< {m} {a[1]})))")
                    else:
                        lines.append(f"(assert (= {s} (mod {a[0]} {a[1]})))")
                elif t[0] in ("div", "mod"):
                    raise MirError("division of a number that may be negative")
                else:
                    lines.append(f"(assert (= {s} {e}))")
        if t[0] not in ("c", "b"):
            names[t] = s
            lo, hi = path.range(t, memo) if not is_bool(t) else (None, None)
            if lo is not None: lines.append(f"(assert (<= {lo if lo >= 0 else f'(- {-lo})'} {s}))")
            if hi is not None: lines.append(f"(assert (<= {s} {hi if hi >= 0 else f'(- {-hi})'}))")
        return s

    for c in path.conds + [goal]:
        s = emit(c)
        lines.append(f"(assert {s})")
    vs = [t[1] for t in names if t[0] in ("v", "vb")]
    out = "(set-option :produce-models true)\n(set-logic ALL)\n" + "\n".join(lines) + "\n(check-sat)\n"
    return out, vs


def is_bool(t):
    return t[0] in ("b", "vb", "<=", "<", "=", "not", "and", "or", "xor") or t[0] == "ite" and is_bool(t[2])


SOLVERS = [["z3-new", "-smt2"], ["z3", "-smt2"], ["cvc5", "--nl-ext-tplanes", "--produce-models"]]


def solve(path, goal, timeout=120):
    """('unsat', seconds, solver, None) or ('sat', seconds, solver, model); the first solver to answer decides."""
    text, vs = smt_text(path, goal)
    if vs:
        text += f"(get-value ({' '.join(vs)}))\n"
    d = tempfile.mkdtemp(prefix="vkmir")
    f = os.path.join(d, "q.smt2")
    with open(f, "w") as h:
        h.write(text)
    t0 = time.time()
    ps = []
    try:
        for s in SOLVERS:
            ps.append((s[0], subprocess.Popen(s + [f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        live = list(ps)
        while live and time.time() - t0 < timeout:
            for n, p in list(live):
                if p.poll() is None:
                    continue
                live.remove((n, p))
                o = p.stdout.read()
                w = o.split(None, 1)
                if w and w[0] == "unsat":
                    return "unsat", time.time() - t0, n, None
                if w and w[0] == "sat":
                    m = {}
                    for k, v in re.findall(r"\((\w+) (\d+|\(- \d+\)|true|false)\)", o):
                        m[k] = v == "true" if v in ("true", "false") else -int(v[3:-1]) if v[0] == "(" else int(v)
                    if all(v in m for v in vs):
                        return "sat", time.time() - t0, n, m
            time.sleep(0.01)
        return "unknown", time.time() - t0, None, None
    finally:
        for _, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        os.remove(f)
        os.rmdir(d)


# ---- MIR ----
class Fn:
    def __init__(self, name, args, ret):
        self.name, self.args, self.ret, self.types, self.blocks = name, args, ret, dict(args), {}


def parse(text):
    fns, consts = {}, {}
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = re.match(r"(?:const )?fn (.+?)\((.*)\) -> (.+) \{$", ln)
        mc = re.match(r"(?:pub )?(?:const|static) (.+?): (.+?) = \{$", ln)
        ms = re.match(r"(?:pub )?const (.+?): (.+?) = (const .+);$", ln)
        if ms:
            consts[ms.group(1)] = ("value", ms.group(2), ms.group(3))
        if m or mc:
            if m:
                args = [tuple(a.split(": ", 1)) for a in split(m.group(2))] if m.group(2).strip() else []
                f = Fn(m.group(1), args, m.group(3))
            else:
                f = Fn(mc.group(1), [], mc.group(2))
            f.types["_0"] = f.ret
            i += 1
            cur = None
            while lines[i] != "}":
                s = lines[i].strip()
                d = re.match(r"let (?:mut )?(_\d+): (.+);$", s)
                b = re.match(r"(bb\d+)(?: \(cleanup\))?: \{$", s)
                if d:
                    f.types[d.group(1)] = d.group(2)
                elif b:
                    cur = f.blocks[b.group(1)] = []
                elif s == "}" and cur is not None:
                    cur = None
                elif cur is not None and s:
                    while not s.endswith(";"):
                        i += 1
                        s += " " + lines[i].strip()
                    cur.append(s[:-1])
                i += 1
            if m:
                fns.setdefault(f.name, f)
            else:
                consts[f.name] = ("body", f)
        i += 1
    return fns, consts


def split(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"' and (i == 0 or s[i - 1] != "\\"):
            q = not q
        if not q:
            if c in "([{<":
                depth += 1
            elif c in ")]}" or c == ">" and s[i - 1] not in "-=":
                depth -= 1
            if c == sep and depth == 0:
                out.append(cur.strip())
                cur = ""
                i += 1
                continue
        cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


# Values: a term; ["tuple", v...]; ["enum", variant, [fields]]; ["alt", cond, a, b] (a if cond); ["ref", frame, place]; ["opaque"]
OPAQUE = ["opaque"]


def term(v):
    return isinstance(v, tuple)


class Frame:
    def __init__(self, fn):
        self.fn, self.env = fn, {}


class Exec:
    def __init__(self, text, timeout=120, enums=None):
        self.enums = enums or {}
        self.fns, self.consts = parse(text)
        self.timeout = timeout
        self.n = self.steps = 0
        self.queries = self.discharged = self.witnesses = 0
        self.solver_s = 0.0
        self.used, self.violations, self.reached, self.covers = set(), [], set(), {}

    # -- entry --
    def run(self, name):
        hits = [f for f in self.fns if f == name or f.endswith("::" + name)]
        if len(hits) != 1:
            raise MirError(f"{len(hits)} functions called {name}")
        f = self.fns[hits[0]]
        self.paths = 0
        for _ in self.call(f, [], Path(), 0):
            self.paths += 1

    def fresh(self, p, t):
        self.n += 1
        v = ("v", f"x{self.n}") if t != "bool" else ("vb", f"x{self.n}")
        p.vars.append((v, t))
        if t != "bool":
            p.iv[v] = rng(t)
        return v

    def feasible(self, p, c):
        d = p.decide(c)
        if d is not None:
            return d
        r, s, _, _ = solve(p, c, self.timeout)
        self.solver_s += s
        return r != "unsat"

    def fails(self, p, c, what):
        """The path must not go on with c: a query. True if it can."""
        self.queries += 1
        if c == FALSE:
            self.discharged += 1
            return False
        r, s, n, m = solve(p, c, self.timeout)
        self.solver_s += s
        if r == "unsat":
            self.discharged += 1
            return False
        if r == "sat":
            self.violations.append((what, [(m.get(v[1], 0), t) for v, t in p.vars]))
            return True
        raise MirError(f"no solver decides: {what}")

    # -- one function: yields (value, path) --
    def call(self, f, args, path, depth):
        if depth > 20:
            raise MirError("calls too deep")
        self.used.add(f.name)
        fr = Frame(f)
        for (a, _), v in zip(f.args, args):
            fr.env[a] = v
        yield from self.block(fr, "bb0", path, depth, {})

    def block(self, fr, bb, path, depth, visits):
        while True:
            self.steps += 1
            visits = dict(visits)
            visits[bb] = visits.get(bb, 0) + 1
            if visits[bb] > 70 or self.steps > 20000:
                raise MirError(f"{fr.fn.name}: a loop without a bound in reach")
            stm = fr.fn.blocks[bb]
            for s in stm[:-1]:
                self.stmt(fr, s, path)
            t = stm[-1]
            m = re.match(r"goto -> (bb\d+)$", t)
            if m:
                bb = m.group(1)
                continue
            if t == "return":
                yield fr.env.get("_0", ["tuple"]), path
                return
            if t == "unreachable":
                return
            m = re.match(r"drop\(.*\) -> \[return: (bb\d+)", t)
            if m:
                bb = m.group(1)
                continue
            m = re.match(r"(?:falseEdge|falseUnwind) -> \[real: (bb\d+)", t)
            if m:
                bb = m.group(1)
                continue
            m = re.match(r"assert\((!?)(.+?), (\".*)\) -> \[success: (bb\d+)", t)
            if m:
                c = self.boolean(self.operand(fr, m.group(2), path))
                if m.group(1):
                    c = NOT(c)
                self.fails(path, NOT(c), m.group(3).split('"')[1] + f" ({fr.fn.name})")
                if not self.feasible(path, c):
                    return
                path.add(c)
                bb = m.group(4)
                continue
            m = re.match(r"switchInt\((.+)\) -> \[(.+)\]$", t)
            if m:
                v = self.operand(fr, m.group(1), path)
                arms = [a.split(": ") for a in split(m.group(2))]
                yield from self.switch(fr, v, arms, path, depth, visits)
                return
            m = re.match(r"(?:(.+?) = )?(.+)\((.*)\) -> (?:\[return: (bb\d+).*\]|unwind .*|bb\d+)$", t)
            if m:
                dest, callee, args, nxt = m.group(1), None, None, m.group(4)
                head = t[:t.rindex(" -> ")]
                if dest is not None:
                    dest, head = head.split(" = ", 1)
                k = self.open_paren(head)
                callee, args = head[:k], split(head[k + 1:-1])
                vals = [self.operand(fr, a, path) for a in args]
                if re.search(r"panicking::|panic_|unwrap_failed|expect_failed|begin_panic", callee) and nxt is None:
                    msg = re.search(r'"((?:[^"\\]|\\.)*)"', t)
                    said = [x[1] for x in vals if not term(x) and x[0] == "str"]
                    self.fails(path, TRUE, (said[0] if said else msg.group(1) if msg else "panics") + f" ({fr.fn.name})")
                    return
                outs = list(self.invoke(callee, vals, args, fr, path, depth))
                if nxt is None:
                    return
                if len(outs) == 1:
                    v, path = outs[0]
                    self.assign(fr, dest, v)
                    bb = nxt
                    continue
                for v, p in outs:
                    g = Frame(fr.fn)
                    g.env = clone(fr.env)
                    self.assign(g, dest, v)
                    yield from self.block(g, nxt, p, depth, visits)
                return
            raise MirError(f"{fr.fn.name}: {t}")

    @staticmethod
    def open_paren(head):
        depth = 0
        for k in range(len(head) - 1, -1, -1):
            if head[k] == ")":
                depth += 1
            elif head[k] == "(":
                depth -= 1
                if depth == 0:
                    return k
        raise MirError(head)

    def switch(self, fr, v, arms, path, depth, visits):
        if not term(v) and v[0] == "disc":
            v = v[1]
        conds, rest = [], TRUE
        for k, bb in arms:
            if k == "otherwise":
                c = rest
            else:
                n = int(re.match(r"-?\d+", k).group(0))
                c = (NOT(v) if n == 0 else v) if is_bool(v) else op("=", v, C(n))
                rest = op("and", rest, NOT(c))
            conds.append((c, bb))
        live = [(c, bb) for c, bb in conds if path.decide(c) is not False]
        if len(live) > 1:
            live = [(c, bb) for c, bb in live if self.feasible(path, c)]
        for c, bb in live:
            p = path.copy()
            p.add(c)
            g = Frame(fr.fn)
            g.env = clone(fr.env)
            yield from self.block(g, bb, p, depth, visits)

    # -- statements --
    def stmt(self, fr, s, path):
        if re.match(r"(StorageLive|StorageDead|FakeRead|PlaceMention|AscribeUserType|Retag|nop|ConstEvalCounter|Coverage|BackwardIncompatibleDropHint)", s):
            return
        m = re.match(r"(.+?) = (.+)$", s)
        if not m:
            raise MirError(s)
        self.assign(fr, m.group(1), self.rvalue(fr, m.group(2), path, m.group(1)))

    def assign(self, fr, place, v):
        if place is None:
            return
        m = re.match(r"_\d+$", place)
        if m:
            fr.env[place] = v
            return
        m = re.match(r"\((.+)\.(\d+): .+\)$", place)
        if m and not m.group(1).endswith(")"):
            t = fr.env.get(m.group(1))
            k = int(m.group(2))
            if t is None:
                t = ["tuple"]
            t = list(t)
            while len(t) < k + 2:
                t.append(None)
            t[k + 1] = v
            fr.env[m.group(1)] = t
            return
        m = re.match(r"\(\*(_\d+)\)$", place)
        if m:
            r = fr.env[m.group(1)]
            if not term(r) and r[0] == "ref" and r[1] is fr:
                self.assign(fr, r[2], v)
                return
        raise MirError(f"assignment to {place}")

    def place(self, fr, p):
        p = p.strip()
        if re.match(r"_\d+$", p):
            if p not in fr.env:
                raise MirError(f"{fr.fn.name}: {p} not set")
            return fr.env[p]
        m = re.match(r"\(\*(.+)\)$", p)
        if m:
            r = self.place(fr, m.group(1))
            if not term(r) and r[0] == "val":
                return r[1]
            if not term(r) and r[0] == "ref":
                return self.place(r[1], r[2])
            return OPAQUE
        m = re.match(r"\((.+)\.(\d+): (.+)\)$", p)
        if m:
            # the innermost split: "(X.k: T)" where T may hold dots
            inner, k = self.field(p)
            v = self.place(fr, inner)
            return self.get(v, k)
        m = re.match(r"\((.+) as (\w+)\)$", p)
        if m:
            return ["as", m.group(2), self.place(fr, m.group(1))]
        raise MirError(f"place {p}")

    @staticmethod
    def field(p):
        """'(X.k: T)' -> X, k."""
        s, depth = p[1:-1], 0
        for i, c in enumerate(s):
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            elif c == "." and depth == 0:
                m = re.match(r"\.(\d+): ", s[i:])
                if m:
                    return s[:i], int(m.group(1))
        raise MirError(p)

    def get(self, v, k):
        if term(v):
            raise MirError("field of a number")
        if v[0] == "tuple":
            return v[k + 1]
        if v[0] == "as":
            return self.pick(v[2], v[1], k)
        if v[0] == "enum":
            return v[2][k]
        if v[0] == "opaque":
            return OPAQUE
        raise MirError(f"field of {v[0]}")

    def pick(self, v, variant, k):
        if v[0] == "alt":
            a, b = (self.pick(x, variant, k) if self.can(x, variant) else None for x in v[2:4])
            if a is None: return b
            if b is None: return a
            return op("ite", v[1], a, b) if term(a) and term(b) else a
        if v[0] == "enum":
            return v[2][k]
        if v[0] == "opaque":
            return OPAQUE
        raise MirError(f"variant of {v[0]}")

    def can(self, v, variant):
        return v[0] == "alt" and (self.can(v[2], variant) or self.can(v[3], variant)) or v[0] == "enum" and v[1] == variant

    ORDER = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Less": 255, "Equal": 0, "Greater": 1}

    def disc(self, v):
        if v[0] == "alt":
            return op("ite", v[1], self.disc(v[2]), self.disc(v[3]))
        if v[0] == "enum":
            if len(v) > 3:
                return C(self.enums[v[3]].index(v[1]))
            if v[1] in self.ORDER:
                return C(self.ORDER[v[1]])
            raise MirError(f"discriminant of {v[1]}")
        raise MirError(f"discriminant of {v[0]}")

    def operand(self, fr, o, path):
        o = o.strip()
        m = re.match(r"(?:move|copy) (.+)$", o)
        if m:
            return self.place(fr, m.group(1))
        m = re.match(r"const (.+)$", o)
        if m:
            return self.const(m.group(1), path)
        return self.place(fr, o)

    def const(self, c, path):
        m = re.match(r"(-?\d+)_(\w+)$", c)
        if m:
            return C(int(m.group(1)))
        if c in ("true", "false"):
            return B(c == "true")
        if c == "()":
            return ["tuple"]
        m = re.match(r"(?:core|std)::num::<impl (\w+)>::(MAX|MIN|BITS)$", c) or re.match(r"(u\d+|i\d+|usize|isize)::(MAX|MIN|BITS)$", c)
        if m:
            lo, hi = rng(m.group(1))
            return C({"MAX": hi, "MIN": lo, "BITS": BITS[m.group(1)]}[m.group(2)])
        k = [x for x in self.consts if x == c or c.endswith("::" + x) or x.endswith("::" + c)]
        if k:
            d = self.consts[sorted(k, key=len)[-1]]
            if d[0] == "value":
                return self.const(d[2][6:], path)
            outs = list(self.call(d[1], [], Path(), 1))
            if len(outs) != 1:
                raise MirError(f"const {c}")
            return outs[0][0]
        if c.startswith('"'):
            return ["str", c[1:c.rindex('"')]]
        m = re.match(r"(?:\w+::)*(\w+)::(\w+)$", c)
        if m and m.group(2) in self.enums.get(m.group(1), ()):
            return ["enum", m.group(2), [], m.group(1)]
        m = re.match(r"(?:[\w:]+::)?(?:Option|Result)(?:::)?<.*>::(None|Some|Ok|Err)$", c) or re.match(r"(?:[\w:]+::)?Ordering::(Less|Equal|Greater)$", c)
        if m:
            return ["enum", m.group(1), []]
        return OPAQUE

    def boolean(self, v):
        if term(v) and is_bool(v):
            return v
        raise MirError("a condition that is no boolean")

    def ty(self, fr, o):
        o = re.sub(r"^(move|copy) ", "", o.strip())
        m = re.match(r"const -?\d+_(\w+)$", o)
        if m:
            return m.group(1)
        if o in fr.fn.types:
            return fr.fn.types[o]
        m = re.match(r"\(.+\.\d+: (\w+)\)$", o)
        if m:
            return m.group(1)
        m = re.match(r"\(\*(_\d+)\)$", o)
        if m:
            return re.sub(r"^&(?:'\w+ )?(?:mut )?", "", fr.fn.types[m.group(1)])
        m = re.match(r"const (.+)$", o)
        if m:
            c = m.group(1)
            for x, d in self.consts.items():
                if x == c or c.endswith("::" + x) or x.endswith("::" + c):
                    return d[1] if d[0] == "value" else d[1].ret
            m = re.match(r"(?:core|std)::num::<impl (\w+)>::", c) or re.match(r"(u\d+|i\d+|usize|isize)::", c)
            if m:
                return m.group(1)
        raise MirError(f"type of {o}")

    def wrap(self, v, t, path):
        lo, hi = rng(t)
        l, h = path.range(v)
        if l is not None and h is not None and lo <= l and h <= hi:
            return v
        if lo < 0:
            raise MirError("wrapping of a signed number")
        if l is not None and l >= 0:
            return op("mod", v, C(hi + 1))
        if l is not None and l >= -(hi + 1):
            return op("ite", op("<", v, C(0)), op("+", v, C(hi + 1)), v if h is not None and h <= hi else op("mod", v, C(hi + 1)))
        raise MirError("wrapping of a number of any size")

    def arith(self, o, a, b):
        return op({"Add": "+", "Sub": "-", "Mul": "*"}[o], a, b)

    def rvalue(self, fr, r, path, dest):
        m = re.match(r"(Add|Sub|Mul)WithOverflow\((.+)\)$", r)
        if m:
            x, y = split(m.group(2))
            t = self.ty(fr, x)
            v = self.arith(m.group(1), self.operand(fr, x, path), self.operand(fr, y, path))
            lo, hi = rng(t)
            over = op("or", op("<", v, C(lo)), op("<", C(hi), v))
            if path.decide(over) is False:
                over = FALSE
            elif not self.feasible(path, over):
                over = FALSE
                path.tight(v, lo, hi)
            # after the check that always follows, the plain value is the result
            return ["tuple", v, over]
        m = re.match(r"(Add|Sub|Mul|Div|Rem|AddUnchecked|SubUnchecked|MulUnchecked|Eq|Ne|Lt|Le|Gt|Ge|BitAnd|BitOr|BitXor|Shl|Shr|ShlUnchecked|ShrUnchecked)\((.+)\)$", r)
        if m:
            o = m.group(1)
            x, y = split(m.group(2))
            a, b = self.operand(fr, x, path), self.operand(fr, y, path)
            if not term(a) or not term(b):
                raise MirError(f"{o} of no number")
            if o in ("Add", "Sub", "Mul"):
                return self.wrap(self.arith(o, a, b), self.ty(fr, x), path)
            if o.endswith("Unchecked") and o[:3] in ("Add", "Sub", "Mul"):
                return self.arith(o[:3], a, b)
            if o in ("Div", "Rem"):
                return op("div" if o == "Div" else "mod", a, b)
            if o in ("Eq", "Ne"):
                e = NOT(op("xor", a, b)) if is_bool(a) else op("=", a, b)
                return e if o == "Eq" else NOT(e)
            if o == "Lt": return op("<", a, b)
            if o == "Le": return op("<=", a, b)
            if o == "Gt": return op("<", b, a)
            if o == "Ge": return op("<=", b, a)
            if is_bool(a):
                return op({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[o], a, b)
            if o.startswith("Shr") and b[0] == "c" and path.range(a)[0] is not None and path.range(a)[0] >= 0:
                return op("div", a, C(1 << b[1]))
            if o.startswith("Shl") and b[0] == "c":
                return self.wrap(op("*", a, C(1 << b[1])), self.ty(fr, x), path)
            if o == "BitAnd" and b[0] == "c" and b[1] & (b[1] + 1) == 0 and path.range(a)[0] is not None and path.range(a)[0] >= 0:
                return op("mod", a, C(b[1] + 1))
            raise MirError(f"{o} of unknown numbers")
        m = re.match(r"Not\((.+)\)$", r)
        if m:
            return NOT(self.boolean(self.operand(fr, m.group(1), path)))
        m = re.match(r"(?:copy|move|const) ", r)
        if m:
            m = re.match(r"(.+) as ([\w<>&\[\] ]+) \((\w+)(?:\(.*\))?\)$", r)
            if m:
                v = self.operand(fr, m.group(1), path)
                if m.group(3) == "IntToInt":
                    if term(v) and is_bool(v):
                        return op("ite", v, C(1), C(0))
                    return self.wrap(v, m.group(2), path)
                return v
            return self.operand(fr, r, path)
        m = re.match(r"(.+) as (\w+) \((\w+)\)$", r)
        if m and m.group(3) == "IntToInt":
            v = self.operand(fr, m.group(1), path)
            return op("ite", v, C(1), C(0)) if is_bool(v) else self.wrap(v, m.group(2), path)
        m = re.match(r"&(?:mut |raw const |fake shallow )?(.+)$", r)
        if m:
            p = m.group(1)
            if r.startswith("&mut"):
                return ["ref", fr, p]
            try:
                return ["val", self.place(fr, p)]
            except MirError:
                return OPAQUE
        m = re.match(r"discriminant\((.+)\)$", r)
        if m:
            return self.disc(self.place(fr, m.group(1)))
        m = re.match(r"\((.*)\)$", r)
        if m:
            return ["tuple"] + [self.operand(fr, x, path) for x in split(m.group(1))]
        m = re.match(r"(?:[\w:]+::)?(?:Option|Result|ControlFlow)::<.*>::(\w+)(?:\((.*)\))?$", r) or re.match(r"(?:[\w:]+::)?Ordering::(Less|Equal|Greater)()$", r)
        if m:
            return ["enum", m.group(1), [self.operand(fr, x, path) for x in split(m.group(2) or "")]]
        m = re.match(r"(?:\w+::)*(\w+)::(\w+)(?: \{ (.*) \}|\((.*)\))?$", r)
        if m and m.group(2) in self.enums.get(m.group(1), ()):
            if m.group(3) is not None:
                fs = [x.split(": ", 1)[1] for x in split(m.group(3))]
            else:
                fs = split(m.group(4) or "")
            return ["enum", m.group(2), [self.operand(fr, x, path) for x in fs], m.group(1)]
        m = re.match(r"[\w:<>, ]+ \{ (.*) \}$", r)
        if m:
            return ["tuple"] + [self.operand(fr, x.split(": ", 1)[1], path) for x in split(m.group(1))]
        if re.match(r"\[.*\]$|[\w:]+(::<.*>)?(\(.*\))?$", r):
            return OPAQUE
        raise MirError(f"rvalue {r}")

    # -- calls --
    def invoke(self, callee, a, args, fr, path, depth):
        name = re.sub(r"::<[^()]*>$", "", callee)
        m = re.match(r"vk::(?:imp::)?(u8|u16|u32|u64|u128|bool)$", name)
        if m:
            yield self.fresh(path, m.group(1)), path
            return
        if re.match(r"vk::(?:imp::)?assume$", name):
            c = self.boolean(a[0])
            if path.decide(c) is True or self.feasible(path, c):
                path.add(c)
                yield ["tuple"], path
            return
        if re.match(r"vk::cover$", name):
            k = (fr.fn.name, args[1] if len(args) > 1 else len(self.covers))
            self.covers.setdefault(k, False)
            if not self.covers[k] and self.feasible(path, self.boolean(a[0])):
                self.covers[k] = True
            yield ["tuple"], path
            return
        a = [x[1] if not term(x) and x[0] == "val" else x for x in a]
        a = [self.place(x[1], x[2]) if not term(x) and x[0] == "ref" and not name.endswith("_assign") else x for x in a]
        f = self.fns.get(name) or self.fns.get(callee)
        if f is None:
            h = [x for x in self.fns if name.endswith("::" + x) or x.endswith("::" + name)]
            f = self.fns[h[0]] if len(h) == 1 and not name.startswith(("core::", "std::", "<")) else None
        if f is None and not name.startswith(("core::", "std::", "<")) and "::" in name:
            last = name.rsplit("::", 1)[1]
            h = [x for x in self.fns if "<impl at " in x and x.endswith(">::" + last)]
            f = self.fns[h[0]] if len(h) == 1 else None
        if f is not None:
            yield from self.call(f, a, path, depth + 1)
            return
        yield from self.core(callee, name, a, args, fr, path, depth)

    def core(self, callee, name, a, args, fr, path, depth):
        if "fmt::Arguments" in name or "fmt::rt::" in name:
            yield (a[0] if a and not term(a[0]) and a[0][0] == "str" else OPAQUE), path
            return
        t = None
        m = re.match(r"(?:core|std)::num::<impl (\w+)>::(\w+)$", name)
        if m:
            t, o = m.groups()
            lo, hi = rng(t)
            x = a[0]
            y = a[1] if len(a) > 1 else None
            if o in ("pow", "saturating_pow", "checked_pow", "wrapping_pow"):
                if y[0] != "c" or y[1] > 64:
                    raise MirError("power of an unknown exponent")
                v = C(1)
                for _ in range(y[1]):
                    v = op("*", v, x)
                kind = o[:-3].rstrip("_")
                kind, b = kind or "plain", "pow"
            else:
                k = re.match(r"(saturating|checked|wrapping|overflowing|strict|unchecked)_(add|sub|mul|div|rem)$", o)
                kind, b = k.groups() if k else (o, None)
                if b in ("div", "rem"):
                    q = op("div" if b == "div" else "mod", x, y)
                    if kind == "checked":
                        c = NOT(op("=", y, C(0)))
                        yield self.alt(path, c, ["enum", "Some", [q]], ["enum", "None", []]), path
                        return
                    self.fails(path, op("=", y, C(0)), f"division by zero ({fr.fn.name})")
                    path.add(NOT(op("=", y, C(0))))
                    yield q, path
                    return
                if b:
                    v = self.arith(b.capitalize(), x, y)
            if b:
                ok = op("and", op("<=", C(lo), v), op("<=", v, C(hi)))
                if path.decide(ok) is True:
                    ok = TRUE
                if kind in ("plain", "strict", "unchecked"):
                    self.fails(path, NOT(ok), f"overflow in {o} ({fr.fn.name})")
                    path.add(ok)
                    yield v, path
                elif kind == "saturating":
                    s = op("ite", op("<", v, C(lo)), C(lo), C(hi))
                    if ok != TRUE and not self.feasible(path, NOT(ok)):
                        ok = TRUE
                    v = self.fit(op("ite", ok, v, s), path)
                    path.tight(v, lo, hi)
                    yield v, path
                elif kind == "checked":
                    yield self.alt(path, ok, ["enum", "Some", [v]], ["enum", "None", []]), path
                elif kind == "wrapping":
                    yield self.wrap(v, t, path), path
                elif kind == "overflowing":
                    yield ["tuple", self.wrap(v, t, path), NOT(ok)], path
                return
            if o == "abs_diff":
                yield op("ite", op("<", x, y), op("-", y, x), op("-", x, y)), path
                return
            if o == "div_ceil":
                self.fails(path, op("=", y, C(0)), "division by zero")
                path.add(NOT(op("=", y, C(0))))
                q = op("div", x, y)
                yield op("ite", op("=", op("mod", x, y), C(0)), q, op("+", q, C(1))), path
                return
            if o in ("min_value", "max_value"):
                yield C(lo if o[:3] == "min" else hi), path
                return
        m = re.match(r"<(\w+) as (?:\w+::)*Ord>::(min|max|cmp|clamp)$", name) or re.match(r"(?:core|std)::cmp::()(min|max)$", name)
        if m:
            o = m.group(2)
            x, y = a[0], a[1]
            if o == "cmp":
                yield ["alt", op("<", x, y), ["enum", "Less", []], ["alt", op("=", x, y), ["enum", "Equal", []], ["enum", "Greater", []]]], path
            elif o == "clamp":
                yield op("ite", op("<", x, y), y, op("ite", op("<", a[2], x), a[2], x)), path
            else:
                c = op("<=", x, y)
                yield op("ite", c, x, y) if o == "min" else op("ite", c, y, x), path
            return
        m = re.match(r"<(\w+) as (?:\w+::)*(?:TryInto<(\w+)>>::try_into|TryFrom<(\w+)>>::try_from)$", name)
        if m:
            to = m.group(2) or m.group(1)
            lo, hi = rng(to)
            ok = op("and", op("<=", C(lo), a[0]), op("<=", a[0], C(hi)))
            yield self.alt(path, ok, ["enum", "Ok", [a[0]]], ["enum", "Err", [OPAQUE]]), path
            return
        m = re.match(r"<(\w+) as (?:\w+::)*(?:Into<(\w+)>>::into|From<(\w+)>>::from)$", name)
        if m and m.group(1) in BITS:
            v = a[0]
            yield op("ite", v, C(1), C(0)) if is_bool(v) else v, path
            return
        m = re.match(r"<(\w+) as (?:\w+::)*(?:PartialOrd|PartialEq)(?:<\w+>)?>::(lt|le|gt|ge|eq|ne)$", name)
        if m and m.group(1) in BITS:
            yield self.rvalue_cmp(m.group(2), a[0], a[1]), path
            return
        m = re.match(r"<(\w+) as (?:\w+::)*Clone>::clone$", name)
        if m and m.group(1) in BITS:
            yield a[0], path
            return
        m = re.match(r"(?:[\w:]+::)?(?:Option|Result)::<.*>::(\w+)$", callee)
        if m:
            o, v = m.group(1), a[0]
            good = "Some" if "Option" in callee.split("::<")[0] else "Ok"
            c = self.is_variant(v, good)
            inner = self.pick(v, good, 0) if self.can(v, good) else None
            if o in ("is_some", "is_ok"):
                yield c, path
                return
            if o in ("is_none", "is_err"):
                yield NOT(c), path
                return
            if o in ("unwrap", "expect"):
                self.fails(path, NOT(c), f"{o} of nothing ({fr.fn.name})")
                if inner is None or not self.feasible(path, c):
                    return
                path.add(c)
                yield inner, path
                return
            if o in ("unwrap_or", "unwrap_or_default"):
                d = a[1] if o == "unwrap_or" else C(0)
                yield (op("ite", c, inner, d) if inner is not None else d), path
                return
            if o in ("ok", "ok_or"):
                g, bad = ("Some", ["enum", "None", []]) if o == "ok" else ("Ok", ["enum", "Err", [a[1]]])
                yield self.alt(path, c, ["enum", g, [inner]], bad), path
                return
        raise MirError(f"a call to {callee}")

    def rvalue_cmp(self, o, x, y):
        return {"lt": lambda: op("<", x, y), "le": lambda: op("<=", x, y), "gt": lambda: op("<", y, x), "ge": lambda: op("<=", y, x),
                "eq": lambda: op("=", x, y), "ne": lambda: NOT(op("=", x, y))}[o]()

    def fit(self, v, path):
        """Drop the branches of a choice that cannot be."""
        if v[0] == "ite":
            d = path.decide(v[1])
            if d is not None:
                return self.fit(v[2] if d else v[3], path)
        return v

    def alt(self, path, c, x, y):
        d = path.decide(c)
        return x if d is True else y if d is False else ["alt", c, x, y]

    def is_variant(self, v, name):
        if v[0] == "alt":
            return op("ite", v[1], self.is_variant(v[2], name), self.is_variant(v[3], name)) if True else None
        if v[0] == "enum":
            return B(v[1] == name)
        raise MirError(f"variant of {v[0]}")


def clone(env):
    return dict(env)


def mir_of(unit_dir, env):
    e = dict(env, CARGO_TARGET_DIR=os.path.join(unit_dir, "target-mir"))
    p = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--", "-Zunpretty=mir", "-Zmir-opt-level=0", "-Ztrim-diagnostic-paths=no"],
                       cwd=unit_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode != 0 or "fn " not in p.stdout:
        raise MirError("no MIR: " + p.stderr[-1500:])
    return p.stdout
