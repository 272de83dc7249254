"""Counterexamples by evaluation: where the solver leaves an equality of reals undecided, sample assignments that satisfy
the hypotheses and evaluate both sides with 60 digits. A difference that is found is a counterexample; none proves nothing."""
import random, time
import mpmath, z3
from . import terms as T, smt
from .terms import Node, Fraction
mpmath.mp.dps = 60
MP = mpmath.mpf
FUN = {'sqrt': mpmath.sqrt, 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'exp': mpmath.exp, 'tanh': mpmath.tanh, 'cosh': mpmath.cosh, 'sinh': mpmath.sinh, 'log': mpmath.log}
INTERP = tuple(FUN) + ('pow',)
class Reject(Exception): pass
def has_real(t): return T.contains(t, lambda x: x.sort == 'R')
def has_interp(t): return isinstance(t, Node) and T.contains(t, lambda x: x.op == 'app' and x.args[0] in INTERP)
def num(v): return MP(v.numerator) / v.denominator if isinstance(v, Fraction) else v

class Sample:
    def __init__(w, m, rng, pos, scale): w.m = m; w.rng = rng; w.pos = pos; w.scale = scale; w.memo = {}; w.apps = {}; w.used = {}
    def real(w, name):
        k = w.rng.random()
        if k < .15: v = MP(w.rng.randint(-2, 2))
        else: v = MP(w.rng.uniform(.1, 1)) * MP(10) ** w.rng.uniform(-1, w.scale) * w.rng.choice((-1, 1))
        return v
    def go(w, x):
        if not isinstance(x, Node): return num(x) if isinstance(x, Fraction) else x
        r = w.memo.get(x.id)
        if r is not None: return r
        o = x.op
        if o == 'var' or o == 'app':
            if x.sort == 'R':
                if o == 'app' and x.args[0] in FUN:
                    a = w.go(x.args[1])
                    if x.args[0] in ('sqrt', 'log') and a <= 0 and not (a == 0 and x.args[0] == 'sqrt'): raise Reject()
                    if x.args[0] not in ('sqrt', 'log') and abs(a) > 200: raise Reject()
                    r = FUN[x.args[0]](MP(a))
                elif o == 'app' and x.args[0] == 'pow':
                    a, b = w.go(x.args[1]), w.go(x.args[2])
                    if a <= 0 or abs(b) > 100: raise Reject()
                    r = mpmath.power(MP(a), MP(b))
                else:
                    key = x.id if o == 'var' else (x.args[0],) + tuple(w.go(a) for a in x.args[1:])
                    if key not in w.apps:
                        v = w.real(key)
                        w.apps[key] = abs(v) + MP(1) / 16 if x in w.pos else v
                        w.used[x] = w.apps[key]
                    r = w.apps[key]
            else:
                v = w.m.eval(smt.to_z3(x, False), model_completion=True)
                if z3.is_true(v): r = True
                elif z3.is_false(v): r = False
                elif z3.is_int_value(v): r = v.as_long()
                else: raise Reject()
                w.used[x] = r
        elif o == 'add':
            r = num(x.args[0])
            for n, k in x.args[1]: r = r + w.go(n) * num(k)
        elif o == 'mul':
            r = 1
            for b, e in x.args:
                v = w.go(b)
                if e < 0 and v == 0: raise Reject()
                r = r * (v ** e if e > 0 else 1 / MP(v) ** (-e))
        elif o == 'ite': r = w.go(x.args[1]) if w.go(x.args[0]) else w.go(x.args[2])
        elif o == 'tdiv':
            d = w.go(x.args[1])
            if d == 0: raise Reject()
            r = T.tdiv(w.go(x.args[0]), d)
        elif o == 'tmod':
            d = w.go(x.args[1])
            if d == 0: raise Reject()
            r = T.tmod(w.go(x.args[0]), d)
        elif o == 'toreal': r = w.go(x.args[0])
        elif o == 'trunc': r = int(w.go(x.args[0]))
        elif o == 'not': r = not w.go(x.args[0])
        elif o == 'and': r = all(w.go(a) for a in x.args)
        elif o == 'or': r = any(w.go(a) for a in x.args)
        elif o == 'le0': r = w.go(x.args[0]) <= 0
        elif o == 'lt0': r = w.go(x.args[0]) < 0
        elif o == 'eq0': r = w.go(x.args[0]) == 0
        else: raise Reject()
        w.memo[x.id] = r
        return r

def positive(hyp):
    """atoms that the hypotheses make positive"""
    out = set()
    for h in hyp:
        if isinstance(h, Node) and h.op in ('lt0', 'le0') and T.sort_of(h.args[0]) == 'R':
            c, d = T._addend(h.args[0])
            if len(d) == 1:
                (n, k), = d.items()
                if k < 0 and c >= 0 and n.op in ('var', 'app'): out.add(n)
    return out

def search(hyp, bad, budget=3.0, tries=3000):
    """an assignment that satisfies hyp and for which bad(sample) holds, described, or None"""
    ints = [h for h in hyp if isinstance(h, Node) and not has_real(h)]
    real = [h for h in hyp if isinstance(h, Node) and has_real(h)]
    real.sort(key=lambda h: h.id)
    t0 = time.time(); rng = random.Random(1); pos = positive(hyp)
    m = smt.model(ints, 2.0)
    if m is None: return None
    for k in range(tries):
        if time.time() - t0 > budget: break
        w = Sample(m, rng, pos, rng.choice((.3, .3, 1, 2)))
        try:
            if all(w.go(h) for h in real) and bad(w):
                return '\n'.join('%s = %s' % (T.show(x, 6), mpmath.nstr(v, 8) if isinstance(v, mpmath.mpf) else v) for x, v in list(w.used.items())[:60])
        except (Reject, ZeroDivisionError, OverflowError): pass
        except Exception: return None
    return None

def differ(a, b, hyp, budget=3.0):
    def bad(w):
        x, y = w.go(a), w.go(b)
        return abs(x - y) > MP(10) ** -25 * (abs(x) + abs(y)) + MP(10) ** -40
    return search(hyp, bad, budget)
def falsify(goal, hyp, budget=3.0):
    if goal is False: return search(hyp, lambda w: True, budget)
    return search(hyp, lambda w: not w.go(goal), budget)
