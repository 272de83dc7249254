"""Discharging obligations: z3 on (linear abstraction, then full) translations, and equality of real terms."""
import z3, time, random, math
from fractions import Fraction
from . import terms as T
from .terms import Node

class Stats: queries = 0; time = 0.0; unknown = 0; by = {}
def note(k): Stats.by[k] = Stats.by.get(k, 0) + 1

_z = {}
def _srt(s): return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]
_fn = {}
def to_z3(t, lin):
    """lin: monomials of degree >1 become opaque constants (sound for unsat)"""
    if isinstance(t, bool): return z3.BoolVal(t)
    if isinstance(t, int): return z3.IntVal(t)
    if isinstance(t, Fraction): return z3.RealVal(str(t))
    k = (t.id, lin)
    r = _z.get(k)
    if r is not None: return r
    g = lambda x: to_z3(x, lin)
    o = t.op
    if o == 'var': r = z3.Const(t.args[0], _srt(t.sort))
    elif o == 'app':
        key = (t.args[0], tuple(T.sort_of(a) for a in t.args[1:]), t.sort)
        f = _fn.get(key)
        if f is None: f = _fn[key] = z3.Function(t.args[0] + '#' + ''.join(key[1]), *[_srt(s) for s in key[1]], _srt(t.sort))
        r = f(*[g(a) for a in t.args[1:]]) if t.args[1:] else z3.Const(t.args[0], _srt(t.sort))
    elif o == 'add':
        xs = [g(n) * (z3.IntVal(q) if t.sort == 'I' else z3.RealVal(str(q))) if q != 1 else g(n) for n, q in t.args[1]]
        if t.args[0] != 0: xs.append(g(t.args[0]))
        r = z3.Sum(xs) if len(xs) > 1 else xs[0]
    elif o == 'mul':
        if lin: r = z3.Const('mono!%d' % t.id, _srt(t.sort))
        else:
            num = []; den = []
            for b, e in t.args: (num if e > 0 else den).extend([g(b)] * abs(e))
            r = z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1))
            if den: r = r / (z3.Product(den) if len(den) > 1 else den[0])
    elif o == 'ite': r = z3.If(g(t.args[0]), g(t.args[1]), g(t.args[2]))
    elif o in ('tdiv', 'tmod'):
        a, b = g(t.args[0]), g(t.args[1])
        q = z3.If(a >= 0, a / b, -((-a) / b))
        if lin and not isinstance(t.args[1], int): r = z3.Const('op!%d' % t.id, z3.IntSort())
        else: r = q if o == 'tdiv' else a - b * q
    elif o == 'toreal': r = z3.ToReal(g(t.args[0]))
    elif o == 'trunc': r = z3.ToInt(g(t.args[0]))
    elif o == 'not': r = z3.Not(g(t.args[0]))
    elif o == 'and': r = z3.And(*[g(a) for a in t.args])
    elif o == 'or': r = z3.Or(*[g(a) for a in t.args])
    elif o == 'le0': r = g(t.args[0]) <= 0
    elif o == 'lt0': r = g(t.args[0]) < 0
    elif o == 'eq0': r = g(t.args[0]) == 0
    elif o == 'forall': r = z3.ForAll([g(v) for v in t.args[0]], g(t.args[1]))
    else: raise TypeError(o)
    _z[k] = r
    return r

def _solve(fs, lin, timeout):
    s = z3.Solver(); s.set('timeout', int(timeout * 1000)); s.set('random_seed', 1)
    for f in fs: s.add(to_z3(f, lin))
    t0 = time.time(); r = s.check(); Stats.time += time.time() - t0; Stats.queries += 1
    return r, s
_cache = {}
def unsat(fs, timeout=4.0, nonlinear=True):
    """True: proved unsatisfiable. False: not proved."""
    if any(f is False for f in fs): return True
    fs = [f for f in fs if f is not True]
    key = (frozenset(f.id for f in fs), nonlinear)
    if key in _cache: return _cache[key]
    res = False
    r, _ = _solve(fs, True, timeout)
    if r == z3.unsat: note('z3-linear'); res = True
    elif nonlinear and any(T.contains(f, lambda x: x.op == 'mul') for f in fs):
        r, _ = _solve(fs, False, timeout)
        if r == z3.unsat: note('z3-nonlinear'); res = True
        elif r == z3.unknown: Stats.unknown += 1
    _cache[key] = res
    return res
def model(fs, timeout=4.0):
    """a model (z3, full translation) or None"""
    r, s = _solve([f for f in fs if f is not True], False, timeout)
    return s.model() if r == z3.sat else None

# ---- equality of real terms under assumptions
def split_conditions(t):
    return T.atoms(t, lambda x: x.op == 'ite')

def _cases(t):
    """the terms that the conditions of the if-then-elses in t compare with 0, up to sign"""
    out = set()
    for x in T.atoms(t, lambda x: x.op == 'ite'):
        for c in T.atoms(x.args[0], lambda y: y.op in ('le0', 'lt0', 'eq0')):
            out.add(min((u.id, u) for u in (c.args[0], T.neg(c.args[0])) if isinstance(u, Node))[1])
    return out
def _factor(t):
    """if-then-elses with what both branches add taken out: if c then a+r else b+r  =  r + (if c then a else b)"""
    memo = {}
    def go(x):
        if not isinstance(x, Node) or x.sort != 'R': return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'ite':
                a, b = go(x.args[1]), go(x.args[2])
                (ka, ta), (kb, tb) = T._addend(a), T._addend(b)
                both = [(n, q) for n, q in ta.items() if tb.get(n) == q]
                if both:
                    com = T.add(*[T.mul(q, n) for n, q in both])
                    r = T.add(com, T.ite(x.args[0], T.sub(a, com), T.sub(b, com)))
                else: r = T.ite(x.args[0], a, b)
            elif x.op == 'add': r = T.add(x.args[0], *[T.mul(q, go(n)) for n, q in x.args[1]])
            else: r = x
            memo[x.id] = r
        return r
    return go(t)
def _parts(d):
    """d as a list of sums whose cases are independent of each other (their total is d)"""
    if not (isinstance(d, Node) and d.op == 'add'): return [d]
    groups = []                      # (cases, terms)
    for n, q in d.args[1]:
        cs, ts = _cases(n), [(n, q)]
        if not cs: cs = {None}
        keep = []
        for g in groups:
            if g[0] & cs: cs = cs | g[0]; ts = g[1] + ts
            else: keep.append(g)
        groups = keep + [(cs, ts)]
    if len(groups) == 1: return [d]
    out = [T.add(*[T.mul(q, n) for n, q in ts]) for cs, ts in groups]
    if d.args[0] != 0: out[0] = T.add(out[0], d.args[0])
    return out
def real_eq(a, b, pc, depth=0, whole=False):
    """prove a == b (Real) under pc. returns 'proved' / 'unknown'"""
    d = T.sub(a, b)
    if d == 0: note('normal-form'); return True
    # decide if-then-else conditions
    its = [x for x in T.atoms(d, lambda x: x.op == 'ite')]
    its.sort(key=lambda x: x.id)
    for c in _conditions(its):
        h = pc if _hasreal(c) else [x for x in pc if not _hasreal(x)]
        if unsat(h + [T.lnot(c)], 2.0, nonlinear=not _realnl(c)): return real_eq(_setc(a, c, True), _setc(b, c, True), pc, depth, whole)
        if unsat(h + [c], 2.0, nonlinear=not _realnl(c)): return real_eq(_setc(a, c, False), _setc(b, c, False), pc, depth, whole)
    if its and not whole:
        e = _congr(d, pc)
        if e == 0: note('congruence'); return True
        if e is not d: return real_eq(e, Fraction(0), pc, depth)
        ps = _parts(_factor(d))
        if len(ps) > 1 and all(real_eq(p, Fraction(0), pc, depth) for p in ps): return True
        whole = True
    for c in _conditions(its):
        if depth > 10: return False
        return real_eq(_setc(a, c, True), _setc(b, c, True), pc + [c], depth + 1, whole) and real_eq(_setc(a, c, False), _setc(b, c, False), pc + [T.lnot(c)], depth + 1, whole)
    # congruence: applications that are provably equal
    d2 = _congr(d, pc)
    if d2 == 0: note('congruence'); return True
    e = ratnum(d2)
    if e is not None and e == 0: note('rational-normal-form'); return True
    if unsat(pc + [T.ne(a, b)], 3.0): return True
    return False
def _realnl(c): return T.contains(c, lambda y: y.op == 'mul' and y.sort == 'R')
def _conditions(its):
    """the atomic conditions of the if-then-elses; those over integers first"""
    out = []
    def go(c):
        if not isinstance(c, Node): return
        if c.op in ('and', 'or', 'not'):
            for y in c.args: go(y)
        elif c not in out and not T.contains(c, lambda y: y.op == 'ite'): out.append(c)
    for x in its: go(x.args[0])
    return [c for c in out if not _hasreal(c)] + [c for c in out if _hasreal(c)]
def _hasreal(t): return isinstance(t, Node) and T.contains(t, lambda y: y.sort == 'R')
def _setc(t, c, v):
    nc = T.lnot(c); m = {c: v}
    if isinstance(nc, Node): m[nc] = not v
    return T.subst(t, m)
def _congr(d, pc):
    """merge function applications whose integer arguments are equal under pc"""
    apps = [x for x in T.atoms(d, lambda x: x.op == 'app' and any(T.sort_of(a) == 'I' for a in x.args[1:]))]
    groups = {}; pc = [x for x in pc if not _hasreal(x)]
    for x in apps: groups.setdefault((x.args[0], len(x.args)), []).append(x)
    m = {}
    for g in groups.values():
        g.sort(key=lambda x: x.id); reps = []
        for x in g:
            for r in reps:
                if unsat(pc + [T.lor(*[T.ne(p, q) for p, q in zip(x.args[1:], r.args[1:])])], 2.0): m[x] = r; break
            else: reps.append(x)
    return T.subst(d, m) if m else d

def ratnum(t, limit=4000):
    """numerator of t as an expanded polynomial, or None if too big"""
    try:
        n, d = _rat(t, {}, limit)
        return n
    except OverflowError: return None
def _cnt(p): return len(p.args[1]) + 1 if isinstance(p, Node) and p.op == 'add' else 1
def _chk(p, limit):
    if _cnt(p) > limit: raise OverflowError
    return p
def _rat(t, memo, limit):
    if T.is_const(t): return t, Fraction(1)
    if t.id in memo: return memo[t.id]
    if t.op == 'add':
        n, d = t.args[0], Fraction(1)
        for x, k in t.args[1]:
            a, b = _rat(x, memo, limit)
            if b == d: n = T.add(n, T.scale(k, a))
            else:
                n = _chk(T.add(_chk(T._rmul_exp(n, b), limit), T.scale(k, _chk(T._rmul_exp(a, d), limit))), limit)
                d = T._rmul_exp(d, b)
    elif t.op == 'mul':
        n = d = Fraction(1)
        for x, e in t.args:
            a, b = _rat(x, memo, limit)
            if e < 0: a, b, e = b, a, -e
            for _ in range(e): n = _chk(T._rmul_exp(n, a), limit); d = _chk(T._rmul_exp(d, b), limit)
    else: n, d = t, Fraction(1)
    memo[t.id] = (n, d)
    return n, d
