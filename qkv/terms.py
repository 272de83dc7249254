"""Hash-consed terms with light algebraic normal forms.

Int terms are kept as expanded polynomials over atoms; Real terms as sums of products with integer
exponents (division is exponent -1; rational identities hold where denominators are non-zero).
Numeric constants are Python int (sort I) / Fraction (sort R); Bool constants are Python bool.
"""
from fractions import Fraction
from math import gcd
import itertools, random

class Node:
    __slots__ = ('op', 'args', 'sort', 'id', 'leaves')
    def __repr__(s): return show(s)

_tab = {}
_cnt = itertools.count(1)
def mk(op, args, sort):
    k = (op, args, sort)
    n = _tab.get(k)
    if n is None:
        n = Node(); n.op = op; n.args = args; n.sort = sort; n.id = next(_cnt); n.leaves = None; _tab[k] = n
    return n

def is_const(t): return not isinstance(t, Node)
def sort_of(t):
    if isinstance(t, Node): return t.sort
    if isinstance(t, bool): return 'B'
    if isinstance(t, int): return 'I'
    if isinstance(t, Fraction): return 'R'
    raise TypeError('not a term: %r' % (t,))

def var(name, sort): return mk('var', (name,), sort)
_fresh = itertools.count(1)
def fresh(name, sort): return mk('var', ('%s!%d' % (name, next(_fresh)),), sort)
def app(f, args, sort): return mk('app', (f,) + tuple(args), sort)

def _key(t): return t.id

def _addend(t):
    """t -> (const, {node: coef})"""
    if is_const(t): return t, {}
    if t.op == 'add': return t.args[0], dict(t.args[1])
    return (0 if t.sort == 'I' else Fraction(0)), {t: 1 if t.sort == 'I' else Fraction(1)}

def _mkadd(c, d, sort):
    d = {n: k for n, k in d.items() if k != 0}
    if not d: return c
    if len(d) == 1 and c == 0:
        (n, k), = d.items()
        if k == 1: return n
    return mk('add', (c, tuple(sorted(d.items(), key=lambda p: p[0].id))), sort)

def add(*ts):
    sort = 'R' if any(sort_of(t) == 'R' for t in ts) else 'I'
    c = 0 if sort == 'I' else Fraction(0); d = {}
    for t in ts:
        if sort == 'R': t = to_real(t)
        k, e = _addend(t); c += k
        for n, q in e.items(): d[n] = d.get(n, 0) + q
    return _mkadd(c, d, sort)

def scale(k, t):
    if is_const(t): return k * t
    c, d = _addend(t)
    return _mkadd(c * k, {n: q * k for n, q in d.items()}, t.sort)
def neg(t): return scale(-1, t)
def sub(a, b):
    if sort_of(a) == 'R' or sort_of(b) == 'R': a, b = to_real(a), to_real(b)
    return add(a, neg(b))

def _mkmul(coef, fac, sort):
    """fac: {base: exp}"""
    fac = {b: e for b, e in fac.items() if e != 0}
    if coef == 0: return 0 if sort == 'I' else Fraction(0)
    if not fac: return coef
    if len(fac) == 1:
        (b, e), = fac.items()
        if e == 1: return scale(coef, b)
    m = mk('mul', tuple(sorted(fac.items(), key=lambda p: p[0].id)), sort)
    return m if coef == 1 else mk('add', (0 if sort == 'I' else Fraction(0), ((m, coef),)), sort)

def _factors(t, exp=1):
    """Real t^exp -> coef, {base: exp}"""
    if is_const(t): return Fraction(t) ** exp, {}
    if t.op == 'mul': return Fraction(1), {b: e * exp for b, e in t.args}
    if t.op == 'add':
        c, ts = t.args
        if c == 0 and len(ts) == 1:
            n, k = ts[0]
            q, f = _factors(n, exp); return q * Fraction(k) ** exp, f
        lead = Fraction(ts[0][1])
        if lead != 1: return lead ** exp, {scale(1 / lead, t): exp}
    return Fraction(1), {t: exp}

def mul(*ts):
    sort = 'R' if any(sort_of(t) == 'R' for t in ts) else 'I'
    if sort == 'R':
        coef = Fraction(1); fac = {}
        for t in ts:
            q, f = _factors(to_real(t)); coef *= q
            for b, e in f.items(): fac[b] = fac.get(b, 0) + e
        return _mkmul(coef, fac, 'R')
    r = 1
    for t in ts: r = _imul(r, t)
    return r

def _imul(a, b):
    if is_const(a): return scale(a, b)
    if is_const(b): return scale(b, a)
    ca, da = _addend(a); cb, db = _addend(b)
    c = ca * cb; d = {}
    for n, k in da.items():
        if cb: d[n] = d.get(n, 0) + k * cb
    for n, k in db.items():
        if ca: d[n] = d.get(n, 0) + k * ca
    for n, k in da.items():
        for m, q in db.items():
            p = _mono(n, m); d[p] = d.get(p, 0) + k * q
    return _mkadd(c, d, 'I')
def _mono(n, m):
    f = {}
    for t in (n, m):
        for b, e in (t.args if t.op == 'mul' else ((t, 1),)): f[b] = f.get(b, 0) + e
    return mk('mul', tuple(sorted(f.items(), key=lambda p: p[0].id)), n.sort)

def div(a, b):
    """real division"""
    a, b = to_real(a), to_real(b)
    if b == 0: return app('div0', (a,), 'R')
    q, f = _factors(b, -1); p, g = _factors(a)
    for x, e in f.items(): g[x] = g.get(x, 0) + e
    return _mkmul(p * q, g, 'R')

def tdiv(a, b):
    """C++ integer division"""
    if is_const(a) and is_const(b) and b != 0:
        q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
    if b == 1: return a
    if is_const(b) and b != 0 and not is_const(a):
        c, d = _addend(a)
        if c % b == 0 and all(k % b == 0 for k in d.values()): return _mkadd(c // b, {n: k // b for n, k in d.items()}, 'I')
    return mk('tdiv', (a, b), 'I')
def tmod(a, b):
    if is_const(a) and is_const(b) and b != 0: return a - b * tdiv(a, b)
    if is_const(b) and b != 0:
        c, d = _addend(a)
        if c % b == 0 and all(k % b == 0 for k in d.values()): return 0
    return mk('tmod', (a, b), 'I')

def to_real(t):
    if isinstance(t, bool): return Fraction(int(t))
    if isinstance(t, int): return Fraction(t)
    if isinstance(t, Fraction): return t
    if t.sort == 'R': return t
    if t.sort == 'B': return ite(t, Fraction(1), Fraction(0))
    c, d = _addend(t)
    return _mkadd(Fraction(c), {_treal(n): Fraction(k) for n, k in d.items()}, 'R')
def _treal(n):
    if n.op == 'mul': return mk('mul', tuple(sorted(((_treal(b), e) for b, e in n.args), key=lambda p: p[0].id)), 'R')
    if n.op == 'ite': return ite(n.args[0], to_real(n.args[1]), to_real(n.args[2]))
    return mk('toreal', (n,), 'R')
def to_int(t):
    if isinstance(t, bool): return int(t)
    if isinstance(t, int): return t
    if isinstance(t, Node) and t.sort == 'B': return ite(t, 1, 0)
    if isinstance(t, Node) and t.sort == 'I': return t
    if isinstance(t, Fraction): return int(t)
    return mk('trunc', (t,), 'I')

def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b or (is_const(a) and is_const(b) and a == b and type(a) == type(b)): return a
    sa, sb = sort_of(a), sort_of(b)
    if sa != sb:
        if 'R' in (sa, sb): a, b = to_real(a), to_real(b)
        elif 'I' in (sa, sb): a, b = to_int(a), to_int(b)
    s = sort_of(a)
    if s == 'B': return lor(land(c, a), land(lnot(c), b))
    if c.op == 'not': c, a, b = c.args[0], b, a
    return mk('ite', (c, a, b), s)

# ---- booleans
def lnot(a):
    if isinstance(a, bool): return not a
    if a.op == 'not': return a.args[0]
    if a.op == 'and': return lor(*[lnot(x) for x in a.args])
    if a.op == 'or': return land(*[lnot(x) for x in a.args])
    if a.op == 'le0': return _le0(sub(1, a.args[0])) if sort_of(a.args[0]) == 'I' else _lt0(neg(a.args[0]))
    if a.op == 'lt0': return _le0(neg(a.args[0]))
    return mk('not', (a,), 'B')
def land(*xs):
    out = []; seen = set()
    for x in xs:
        if x is True: continue
        if x is False: return False
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id not in seen: seen.add(y.id); out.append(y)
    for y in out:
        n = lnot(y)
        if isinstance(n, Node) and n.id in seen: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return mk('and', tuple(sorted(out, key=_key)), 'B')
def lor(*xs):
    out = []; seen = set()
    for x in xs:
        if x is False: continue
        if x is True: return True
        for y in (x.args if x.op == 'or' else (x,)):
            if y.id not in seen: seen.add(y.id); out.append(y)
    for y in out:
        n = lnot(y)
        if isinstance(n, Node) and n.id in seen: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return mk('or', tuple(sorted(out, key=_key)), 'B')
def implies(a, b): return lor(lnot(a), b)
def iff(a, b):
    if isinstance(a, bool): return b if a else lnot(b)
    if isinstance(b, bool): return a if b else lnot(a)
    if a is b: return True
    return land(implies(a, b), implies(b, a))
def _norm(x, isle):
    c, d = _addend(x)
    if not d: return x
    if sort_of(x) == 'I':
        g = 0
        for k in d.values(): g = gcd(g, abs(k))
        if g > 1:
            if isle: c = -((-c) // g)
            elif c % g: return None
            else: c //= g
            d = {n: k // g for n, k in d.items()}
        return _mkadd(c, d, 'I')
    k0 = abs(min(d.items(), key=lambda p: p[0].id)[1])
    return scale(Fraction(1) / k0, x)
def _le0(x):
    if is_const(x): return x <= 0
    x = _norm(x, True)
    return mk('le0', (x,), 'B')
def _lt0(x):
    if is_const(x): return x < 0
    if sort_of(x) == 'I': return _le0(add(x, 1))
    return mk('lt0', (_norm(x, True),), 'B')
def le(a, b): return _le0(sub(a, b))
def lt(a, b): return _lt0(sub(a, b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    sa, sb = sort_of(a), sort_of(b)
    if sa == 'B' and sb == 'B': return iff(a, b)
    if sa == 'B': a = to_int(a)
    if sb == 'B': b = to_int(b)
    x = sub(a, b)
    if is_const(x): return x == 0
    x = _norm(x, False)
    if x is None: return False
    c, d = _addend(x)
    if min(d.items(), key=lambda p: p[0].id)[1] < 0: x = neg(x)
    return mk('eq0', (x,), 'B')
def ne(a, b): return lnot(eq(a, b))
def forall(vs, body):
    if isinstance(body, bool): return body
    return mk('forall', (tuple(vs), body), 'B')
def lmin(a, b): return ite(lt(b, a), b, a)      # std::min
def lmax(a, b): return ite(lt(a, b), b, a)      # std::max
def rabs(a):
    if is_const(a): return abs(a)
    return ite(lt(a, 0 if sort_of(a) == 'I' else Fraction(0)), neg(a), a)

# ---- traversal
def children(t):
    if not isinstance(t, Node): return ()
    if t.op == 'var': return ()
    if t.op == 'app': return t.args[1:]
    if t.op == 'add': return tuple(n for n, _ in t.args[1])
    if t.op == 'mul': return tuple(b for b, _ in t.args)
    if t.op == 'forall': return (t.args[1],)
    return t.args
def rebuild(t, f):
    """t with f applied to its children, renormalised"""
    o = t.op
    if o == 'var': return t
    if o == 'app': return app(t.args[0], [f(a) for a in t.args[1:]], t.sort)
    if o == 'add': return add(t.args[0], *[scale(k, f(n)) for n, k in t.args[1]])
    if o == 'mul':
        r = None
        for b, e in t.args:
            x = f(b)
            if e < 0: p = div(Fraction(1), _pow(x, -e))
            else: p = _pow(x, e)
            r = p if r is None else mul(r, p)
        return r
    if o == 'ite': return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if o == 'tdiv': return tdiv(f(t.args[0]), f(t.args[1]))
    if o == 'tmod': return tmod(f(t.args[0]), f(t.args[1]))
    if o == 'toreal': return to_real(f(t.args[0]))
    if o == 'trunc': return to_int(f(t.args[0]))
    if o == 'not': return lnot(f(t.args[0]))
    if o == 'and': return land(*[f(a) for a in t.args])
    if o == 'or': return lor(*[f(a) for a in t.args])
    if o == 'le0': return _le0(f(t.args[0]))
    if o == 'lt0': return _lt0(f(t.args[0]))
    if o == 'eq0': return eq(f(t.args[0]), 0 if sort_of(t.args[0]) == 'I' else Fraction(0))
    if o == 'forall': return forall(t.args[0], f(t.args[1]))
    raise TypeError(o)
def _pow(x, n):
    r = x
    for _ in range(n - 1): r = mul(r, x)
    return r
_leaf = itertools.count()
def leaves(t):
    """bit set of the nodes without children in t"""
    r = t.leaves
    if r is None:
        r = 0
        for c in children(t):
            if isinstance(c, Node): r |= leaves(c)
        if t.op == 'forall':
            for v in t.args[0]: r |= leaves(v)
        t.leaves = r = r or 1 << next(_leaf)
    return r
def subst(t, m):
    """m: {node: term}"""
    memo = {}; keys = set(leaves(k) for k in m)
    def go(x):
        if not isinstance(x, Node): return x
        r = memo.get(x.id)
        if r is None:
            if x in m: r = m[x]
            else:
                l = leaves(x)
                if all(k & ~l for k in keys): r = x
                elif x.op != 'forall' and all(go(c) is c for c in children(x)): r = x
                else: r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)
def atoms(t, pred, acc=None, seen=None):
    """all nodes of t (or of a list of terms) that satisfy pred"""
    acc = [] if acc is None else acc; seen = set() if seen is None else seen
    st = list(t) if isinstance(t, (list, tuple)) else [t]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen: continue
        seen.add(x.id)
        if pred(x): acc.append(x)
        st.extend(children(x))
    return acc
def contains(t, pred): return bool(atoms(t, pred))
def size(t):
    return len(atoms(t, lambda x: True))

def expand(t):
    """fully distribute a Real term (positive exponents) over sums"""
    if is_const(t) or t.sort != 'R': return t
    if t.op == 'add': return add(t.args[0], *[scale(k, expand(n)) for n, k in t.args[1]])
    if t.op == 'mul':
        num = Fraction(1); rest = []
        for b, e in t.args:
            if e > 0:
                for _ in range(e): num = _rmul_exp(num, expand(b))
            else: rest.append((b, e))
        if not rest: return num
        inv = _mkmul(Fraction(1), dict(rest), 'R')
        return _rmul_exp(num, inv)
    return t
def _rmul_exp(a, b):
    ca, da = _addend(a); cb, db = _addend(b)
    out = [ca * cb if True else 0]
    for n, k in da.items(): out.append(scale(k * cb, n)) if cb else None
    for n, k in db.items(): out.append(scale(k * ca, n)) if ca else None
    for n, k in da.items():
        for m, q in db.items(): out.append(scale(k * q, _mulnode(n, m)))
    return add(Fraction(0), *out)
def _mulnode(n, m):
    q, f = (Fraction(1), dict(n.args)) if n.op == 'mul' else (Fraction(1), {n: 1})
    for b, e in (m.args if m.op == 'mul' else ((m, 1),)): f[b] = f.get(b, 0) + e
    return _mkmul(Fraction(1), f, 'R')

def show(t, depth=6):
    if not isinstance(t, Node): return str(t)
    if depth == 0: return '...'
    g = lambda x: show(x, depth - 1)
    o = t.op
    if o == 'var': return t.args[0]
    if o == 'app': return '%s(%s)' % (t.args[0], ','.join(g(a) for a in t.args[1:]))
    if o == 'add': return '(' + ' + '.join(([str(t.args[0])] if t.args[0] != 0 else []) + [(('%s*' % k) if k != 1 else '') + g(n) for n, k in t.args[1]]) + ')'
    if o == 'mul': return '*'.join(g(b) + ('^%d' % e if e != 1 else '') for b, e in t.args)
    if o == 'le0': return g(t.args[0]) + '<=0'
    if o == 'lt0': return g(t.args[0]) + '<0'
    if o == 'eq0': return g(t.args[0]) + '==0'
    if o == 'forall': return 'forall %s. %s' % (','.join(v.args[0] for v in t.args[0]), g(t.args[1]))
    return '%s(%s)' % (o, ', '.join(g(a) for a in t.args))

# ---- numeric evaluation
import math
class EvalError(Exception): pass
def evaluate(t, env, funs, memo=None):
    """env: {node(var): value}; funs: name -> python function. Reals are floats or Fractions."""
    memo = {} if memo is None else memo
    def go(x):
        if not isinstance(x, Node): return x
        r = memo.get(x.id)
        if r is not None: return r
        o = x.op
        if o == 'var': r = env(x)
        elif o == 'app': r = funs(x, [go(a) for a in x.args[1:]])
        elif o == 'add':
            r = x.args[0]
            for n, k in x.args[1]: r = r + (go(n) * k)
        elif o == 'mul':
            r = 1
            for b, e in x.args:
                v = go(b)
                if e < 0 and v == 0: raise EvalError('division by zero')
                r = r * (v ** e if e > 0 else (1 / Fraction(v) if isinstance(v, (int, Fraction)) else 1.0 / v) ** (-e))
        elif o == 'ite': r = go(x.args[1]) if go(x.args[0]) else go(x.args[2])
        elif o == 'tdiv': r = tdiv(go(x.args[0]), go(x.args[1]))
        elif o == 'tmod': r = tmod(go(x.args[0]), go(x.args[1]))
        elif o == 'toreal': r = go(x.args[0])
        elif o == 'trunc': r = int(go(x.args[0]))
        elif o == 'not': r = not go(x.args[0])
        elif o == 'and': r = all(go(a) for a in x.args)
        elif o == 'or': r = any(go(a) for a in x.args)
        elif o == 'le0': r = go(x.args[0]) <= 0
        elif o == 'lt0': r = go(x.args[0]) < 0
        elif o == 'eq0': r = go(x.args[0]) == 0
        else: raise EvalError(o)
        memo[x.id] = r
        return r
    return go(t)

def linear_bound(c, t):
    """X such that the condition c is t < X (t an integer variable that X does not contain), or None"""
    if not isinstance(c, Node) or c.op != 'le0' or sort_of(c.args[0]) != 'I': return None
    k, d = _addend(c.args[0])
    if d.get(t) != 1: return None
    X = add(sub(t, c.args[0]), 1)
    if isinstance(X, Node) and contains(X, lambda x: x is t): return None
    return X
