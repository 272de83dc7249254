"""Loop rules: unrolling, indexer (box) loops, counter loops, list folds, parallel loops."""
from fractions import Fraction
import re, os
from . import terms as T, smt
from .terms import Node
from .values import *
from .frontend import qual, REPO
from .interp import Throw, Return, Break, Continue, PathEnd, Obligation

LIMIT = 4096

class Rec:
    """accesses of one iteration"""
    def __init__(s, roots): s.roots = roots; s.reads = []; s.writes = []; s.scal = []; s.bulks = []
    def read(s, run, ref, sp):
        if ref.root not in s.roots: return
        if sp is not None: s.reads.append((sp[0], key(run, sp[0], sp[1])))
    def write(s, run, ref, sp, val):
        if ref.root not in s.roots: return
        if sp is not None: s.writes.append((sp[0], key(run, sp[0], sp[1])))
        else: s.scal.append(ref)
    def bulk(s, run, ref):
        if ref.root in s.roots: s.bulks.append(ref)

def key(run, arr, i):
    v = run._get(run.store[arr.root], arr.path, arr)
    if isinstance(v, CVec):
        rec, run.rec = run.rec, []
        try: return run.coords(v, i)
        finally: run.rec = rec
    return i

def exists_refs(s, cond):
    """references to the indexers a condition of the form a.exists() && b.exists() ... tests, else None"""
    if cond is None: return None
    n = cond
    while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr'): n = n['inner'][0]
    if n['kind'] == 'BinaryOperator' and n.get('opcode') == '&&':
        a = exists_refs(s, n['inner'][0]); b = exists_refs(s, n['inner'][1])
        return None if a is None or b is None else a + b
    if n['kind'] == 'CXXMemberCallExpr' and n['inner'][0].get('name') == 'exists':
        me = n['inner'][0]
        b = s.ev(me['inner'][0])
        if me.get('isArrow'):
            if isinstance(b, Ref): b = s.load(b)
            b = s.deref(b)
        if isinstance(b, Ref):
            o = s._get(s.store[b.root], b.path, b)
            if isinstance(o, Obj) and '_sub_range' in o.f: return [b]
    return None

def concrete_box(o):
    r = o.f['_sub_range']
    return all(isinstance(x, int) for v in (r.f['_lower'], r.f['_upper']) if isinstance(v, LVec) for x in v.items) and isinstance(r.f['_lower'], LVec)

def step(s, body, inc):
    try: s.stmt(body)
    except Continue: pass
    if inc is not None: s.ev(inc)

def strip(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr') and len(n.get('inner', [])) == 1 and n.get('castKind') in (None, 'NoOp', 'LValueToRValue', 'IntegralToBoolean'): n = n['inner'][0]
    return n
FLIP = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
def negate(n):
    """the negation of a condition (the operands are evaluated as before)"""
    m = strip(n); op = m.get('opcode')
    if m['kind'] == 'UnaryOperator' and op == '!': return m['inner'][0]
    if m['kind'] == 'BinaryOperator' and op in ('&&', '||'): return dict(m, opcode='&&' if op == '||' else '||', inner=[negate(c) for c in m['inner']])
    if m['kind'] == 'BinaryOperator' and op in FLIP and all('int' in (c.get('type') or {}).get('qualType', '') for c in m['inner']): return dict(m, opcode=FLIP[op])
    return {'kind': 'UnaryOperator', 'opcode': '!', 'isPostfix': False, 'type': {'qualType': 'bool'}, 'valueCategory': 'prvalue', 'inner': [n]}
def leading_breaks(cond, body):
    """while(a){ if(b) break; rest } is while(a && !b){ rest }"""
    while body.get('kind') == 'CompoundStmt' and body.get('inner'):
        f = body['inner'][0]
        if f.get('kind') != 'IfStmt' or len(f['inner']) != 2: break
        t = f['inner'][1]
        while t.get('kind') == 'CompoundStmt' and len(t.get('inner', [])) == 1: t = t['inner'][0]
        if t.get('kind') != 'BreakStmt': break
        c = negate(f['inner'][0])
        if cond is None or strip(cond).get('kind') == 'CXXBoolLiteralExpr' and strip(cond).get('value') is True: cond = c
        else: cond = {'kind': 'BinaryOperator', 'opcode': '&&', 'type': {'qualType': 'bool'}, 'valueCategory': 'prvalue', 'inner': [cond, c]}
        body = dict(body, inner=body['inner'][1:])
    return cond, body

def run(s, n, cond, inc, body, omp=None):
    k = 0
    if omp is None: cond, body = leading_breaks(cond, body)
    while True:
        refs = exists_refs(s, cond)
        if refs is not None:
            objs = [s._get(s.store[r.root], r.path, r) for r in refs]
            if any(o.f['_exists'] is False for o in objs): return
            if all(o.f['_exists'] is True for o in objs) and not all(concrete_box(o) for o in objs):
                s.rules.add('box')
                return box_rule(s, refs, inc, body)
        c = True if cond is None else s.truth(s.rv(cond))
        if c is False: return
        if omp is not None and (c is True or concrete_part(s, cond)): s.rules.add('parallel loop unrolled')
        if c is True:
            try: step(s, body, inc)
            except Break: return
            k += 1
            if k > LIMIT: raise Unsupported('loop does not end')
            continue
        if concrete_part(s, cond):
            # bounded by a counter with known bounds: fork on the rest of the condition
            if not s.branch(c): return
            try: step(s, body, inc)
            except Break: return
            k += 1
            if k > 64: raise Unsupported('loop does not end')
            continue
        f = fold_for(s, c)
        if f is not None:
            if omp is not None: s.rules.add('parallel loop unrolled')
            return fold_rule(s, f, cond, inc, body)
        s.rules.add('counter')
        return linear_rule(s, cond, inc, body, omp)

def concrete_part(s, cond):
    n = cond
    while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr') and n.get('inner'): n = n['inner'][0]
    if n['kind'] == 'BinaryOperator' and n.get('opcode') == '&&':
        return any(concrete_part(s, c) for c in n['inner'])
    if n['kind'] == 'BinaryOperator' and n.get('opcode') in ('<', '<=', '>', '>=', '!='):
        return s.guardless(lambda: s.truth(s.rv(n))) is True
    return False

# ---------------------------------------------------------------- indexer loops
def lengths(r): return [T.sub(b, a) for a, b in zip(r.f['_lower'].items, r.f['_upper'].items)]
def prod(xs):
    r = 1
    for x in xs: r = T.mul(r, x)
    return r
def rank(lens, d):
    r = 0
    for l, x in zip(lens, d): r = T.add(T.mul(r, l), x)
    return r
def unrank(s, dst_lens, d, src_lens):
    """offsets of the point of a box with lengths src_lens that has the same row-major rank as d has in dst_lens"""
    if len(dst_lens) == len(src_lens) and all(T.sub(a, b) == 0 or s.decide(T.eq(a, b)) is True for a, b in zip(dst_lens, src_lens)): return list(d)
    # dimensions of length one do not matter
    e = [(i, l) for i, l in enumerate(dst_lens) if not (T.sub(l, 1) == 0 or s.decide(T.eq(l, 1)) is True)]
    g = [(i, l) for i, l in enumerate(src_lens) if not (T.sub(l, 1) == 0 or s.decide(T.eq(l, 1)) is True)]
    if len(e) == len(g) and all(T.sub(a[1], b[1]) == 0 or s.decide(T.eq(a[1], b[1])) is True for a, b in zip(e, g)):
        out = [0] * len(src_lens)
        for (i, _), (j, _) in zip(e, g): out[j] = d[i]
        return out
    k = rank(dst_lens, d)
    out = []
    for i in range(len(src_lens)):
        o = T.app('unrank%d' % i, list(src_lens) + [k], 'I')
        s.facts.append(T.implies(T.land(T.le(0, k), T.lt(k, prod(src_lens))), T.land(T.le(0, o), T.lt(o, src_lens[i]))))
        out.append(o)
    return out
def box_vars(s, lens, name='d'):
    d = [s.fresh('%s%d' % (name, i), 'I') for i in range(len(lens))]
    return d
def box_cond(d, lens): return [T.land(T.le(0, x), T.lt(x, l)) for x, l in zip(d, lens)]

def at_point(o, x, s):
    """indexer object o moved to the point x"""
    lo, hi = o.f['_lower'].items, o.f['_upper'].items
    f = dict(o.f)
    f['_index'] = LVec(x, 'int'); f['_linear_index'] = s.lin(lo, hi, x); f['_exists'] = True; f['ghost_next'] = 0
    return Obj(o.cls, f)

def havoc(s, refs):
    for r in refs:
        s.rawset(r, Unk('value carried between iterations'))

def affine(c, dvars):
    """c = d_i + const or const -> (index or None, const)"""
    hit = None
    cc, ts = T._addend(c)
    for n, k in ts.items():
        if n in dvars:
            if k != 1 or hit is not None: return False
            hit = n
        elif T.contains(n, lambda y: y in dvars): return False
    if hit is None: return (None, c)
    return (dvars.index(hit), T.sub(c, hit))

def box_rule(s, refs, inc, body):
    """enumerate by the last box tested; where its points do not address what is written, by another"""
    entry = dict(s.store); n = len(s.obs); k = len(s.pc); nf = len(s.facts)
    for j in range(len(refs) - 1, -1, -1):
        try: return box_rule_by(s, refs, inc, body, j)
        except Unsupported as e:
            if j == 0: raise
            if j == len(refs) - 1: first = e
            s.store = dict(entry); del s.obs[n:]; del s.pc[k:]; del s.facts[nf:]
def box_rule_by(s, refs, inc, body, prim):
    objs = [s.load(r) for r in refs]
    o0 = objs[0]
    lens = [lengths(o.f['_sub_range']) for o in objs]
    for o in objs:
        lo = o.f['_sub_range'].f['_lower'].items
        for a, b in zip(o.f['_index'].items, lo):
            if s.decide(T.eq(a, b)) is not True: raise Unsupported('indexer loop does not start at the first point')
    L = lens[prim]
    for l in lens:
        if T.sub(prod(l), prod(L)) != 0 and s.decide(T.eq(prod(l), prod(L))) is not True: raise Unsupported('indexers of different volumes in one loop')
    d = box_vars(s, L)
    nf = len(s.facts)
    pcond = box_cond(d, L)
    points = []
    s.pc.extend(pcond)
    for o, l in zip(objs, lens):
        off = unrank(s, L, d, l)
        points.append([T.add(a, b) for a, b in zip(o.f['_sub_range'].f['_lower'].items, off)])
    del s.pc[-len(pcond):]
    entry = dict(s.store)
    W = set()
    obs0 = len(s.obs)
    for attempt in range(4):
        del s.obs[obs0:]
        s.store = dict(entry)
        for r, o, x in zip(refs, objs, points): s.rawset(r, at_point(o, x, s))
        havoc(s, W)
        start = dict(s.store)
        k = len(s.pc)
        s.pc.extend(pcond)
        roots = set(start)
        outs = s.local_paths(lambda: step(s, body, inc), lambda: Rec(roots))
        del s.pc[k:]
        new = set()
        for o in outs:
            for r in o.rec.scal:
                if r.root in entry and not any(r.root == q.root and r.path[:len(q.path)] == q.path for q in refs): new.add(r)
            if o.rec.bulks: raise Unsupported('bulk write inside an indexer loop')
        new = {r for r in new if not any(r != q and r.root == q.root and r.path[:len(q.path)] == q.path for q in new | W)}
        if new <= W: break
        W = {r for r in W | new if not any(r != q and r.root == q.root and r.path[:len(q.path)] == q.path for q in W | new)}
    else: raise Unsupported('loop state does not settle')
    # every path must advance every indexer exactly once
    for o in outs:
        if o.exc is not None: raise Unsupported('jump out of an indexer loop')
        for r, ob, x in zip(refs, objs, points):
            got = s._get(o.store[r.root], r.path, r)
            if got.f.get('ghost_next') != 1: raise Unsupported('indexer not advanced exactly once')
            if got.f['_sub_range'] is not ob.f['_sub_range'] and False: raise Unsupported('indexer changed')
    arrs = check_independent(s, outs, d, L, pcond)
    # final state
    s.store = dict(entry)
    for arr in arrs:
        old = s._get(entry[arr.root], arr.path, arr)
        s.rawset(arr, layered_box(s, old, collect_layers(s, arr, outs, pcond), d, L, pcond))
    havoc(s, W)
    for r, o in zip(refs, objs):
        f = dict(o.f); f['_exists'] = False; f.pop('ghost_next', None)
        f['_index'] = LVec([Unk('index after the end')] * len(o.f['_index'].items), 'int'); f['_linear_index'] = Unk('linear index after the end')
        s.rawset(r, Obj(o.cls, f))

def same_key(a, b):
    if isinstance(a, tuple): return len(a) == len(b) and all(T.sub(x, y) == 0 for x, y in zip(a, b))
    return T.sub(a, b) == 0

def keyeq(a, b):
    if isinstance(a, tuple): return T.land(*[T.eq(x, y) for x, y in zip(a, b)])
    return T.eq(a, b)
def keysub(k, m):
    if isinstance(k, tuple): return tuple(T.subst(x, m) if isinstance(x, Node) else x for x in k)
    return T.subst(k, m) if isinstance(k, Node) else k

def check_independent(s, outs, d, L, pcond, label='iterations are independent', quiet=False, skip=(), dep=None):
    """no iteration touches an element another one writes; returns the written arrays"""
    arrs = []
    for o in outs:
        for a, _ in o.rec.writes:
            if a not in arrs and a not in skip: arrs.append(a)
    d2 = [s.fresh('o_' + x.args[0].split('~')[0], 'I') for x in d]
    m = dict(zip(d, d2))
    ok = True
    for arr in arrs:
        ws = []; acc = []
        for o in outs:
            for a, k in o.rec.writes:
                if a == arr:
                    if not any(same_key(k, q[0]) and q[1] == o.conds for q in ws): ws.append((k, o.conds))
            for a, k in o.rec.reads + o.rec.writes:
                if a == arr and not any(same_key(k, q[0]) and q[1] == o.conds for q in acc): acc.append((k, o.conds))
        if any(b == arr for o in outs for b in o.rec.bulks): raise Unsupported('bulk write')
        bad = []
        pc2 = [T.subst(c, m) for c in pcond]; goal = T.land(*[T.eq(x, y) for x, y in zip(d, d2)]); apart = {}
        base = s.hyp() + list(pcond) + pc2
        def disjoint(k1, k2):
            """whatever path the two iterations take"""
            q = (k1, k2)
            if q not in apart:
                e = keyeq(k1, keysub(k2, m))
                apart[q] = e is False or smt.unsat(base + [e, T.lnot(goal)], 3.0)
            return apart[q]
        for k1, c1 in acc:
            for k2, c2 in ws:
                if disjoint(k1, k2): continue
                hyps = list(pcond) + c1 + pc2 + [T.subst(c, m) if isinstance(c, Node) else c for c in c2]
                e = keyeq(k1, keysub(k2, m))
                if smt.unsat(s.hyp() + hyps + [e, T.lnot(goal)], 6.0): continue
                if quiet:
                    if dep is not None: dep.append(arr)
                    return None
                if not PARALLEL or not label.startswith('parallel'): raise Unsupported('two iterations of a loop touch one element of %s' % (arr,))
                mm = smt.model(s.hyp() + hyps + [e, T.lnot(goal)], 4.0)
                bad.append((mm, k1, k2))
        if bad:
            ok = False
            st = 'refuted' if any(x[0] is not None for x in bad) else 'unknown'
            s.obs.append(Obligation(label, st, 'array %s: two different iterations touch one element\nmodel: %s' % (arr, str(bad[0][0])[:1500]), s.name))
            raise PathEnd()
        s.obs.append(Obligation(label, 'proved', '', s.name))
    return arrs

class Cases:
    """a written value that depends on the path through the iteration; the last case is the rest"""
    def __init__(s, cases): s.cases = cases
def collect_layers(s, arr, outs, pcond):
    """(key, value, conditions) for each element written by one iteration"""
    per = []
    for o in outs:
        fin = s._get(o.store[arr.root], arr.path, arr); seen = []
        for a, kx in o.rec.writes:
            if a != arr or any(same_key(kx, q) for q, _ in seen): continue
            s.pc.extend(pcond + o.conds)
            seen.append((kx, fin.get(kx)))
            del s.pc[len(s.pc) - len(pcond) - len(o.conds):]
        per.append(seen)
    layers = []
    if len(outs) > 1:
        for kx, val in list(per[0]):
            hits = [next((w for w in l if same_key(kx, w[0])), None) for l in per]
            if any(h is None for h in hits): continue
            for l, h in zip(per, hits): l[:] = [w for w in l if w is not h]
            layers.append((kx, Cases([(o.conds, h[1]) for o, h in zip(outs, hits)]), []))
    for o, l in zip(outs, per): layers += [(kx, val, o.conds) for kx, val in l]
    return layers
def instance(s, val, m):
    """the value of a layer in the iteration m"""
    f = lambda y: T.subst(y, m) if isinstance(y, Node) else y
    if not isinstance(val, Cases): return map_terms(val, f)
    def go(i):
        cs, v = val.cases[i]
        if i == len(val.cases) - 1: return map_terms(v, f)
        return s.pick(T.land(*[f(c) for c in cs]), lambda: map_terms(v, f), lambda: go(i + 1))
    return go(0)

def layered_box(s, old, layers, d, L, pcond):
    dl = list(d)
    if not isinstance(old, CVec): return layered_flat(s, old, layers, d, L, pcond)
    prep = []
    for kx, val, conds in layers:
        aff = [affine(c, dl) for c in kx]
        if any(a is False for a in aff): raise Unsupported('written element is not a translation of the loop point')
        used = [a[0] for a in aff if a[0] is not None]
        if len(set(used)) != len(used): raise Unsupported('written element repeats a loop coordinate')
        fix = {}
        for i in range(len(d)):
            if i not in used:
                if T.sub(L[i], 1) == 0 or s.decide(T.eq(L[i], 1)) is True: fix[d[i]] = 0
                else: raise Unsupported('written element ignores a loop coordinate')
        prep.append((aff, val, conds, fix))
    def get(c):
        def go(i):
            if i < 0: return old.get(c)
            aff, val, conds, fix = prep[i]
            m = dict(fix); cs = []
            for (a, k), x in zip(aff, c):
                if a is None: cs.append(T.eq(x, k))
                else:
                    y = T.sub(x, k); m[d[a]] = y
                    cs.append(T.land(T.le(0, y), T.lt(y, L[a])))
            cond = T.land(*cs, *[T.subst(g, m) if isinstance(g, Node) else g for g in conds])
            return s.pick(cond, lambda: instance(s, val, m), lambda: go(i - 1))
        return go(len(prep) - 1)
    return CVec(old.lo, old.hi, get, old.ety)

def layered_flat(s, old, layers, d, L, pcond):
    raise Unsupported('indexer loop over a flat array')

# ---------------------------------------------------------------- counter loops
def loc_value(s, store, r):
    return s._get(store[r.root], r.path, r)

class Push:
    """marker for a vector or stream that only grows inside a loop"""

def trip_count(s, cterm, t):
    """X with (condition <=> t < X) and X >= 0, if it can be read off the condition"""
    if not isinstance(cterm, Node): return None
    d = T.linear_bound(cterm, t)
    if d is None or (isinstance(d, int) and d < 0): return None
    if isinstance(d, Node) and not smt.unsat(s.hyp() + [T.lt(d, 0)], 4.0): return None
    return d

def linear_rule(s, cond, inc, body, omp):
    entry = dict(s.store)
    obs0 = len(s.obs)
    def iteration():
        c = s.truth(s.rv(cond))
        if c is False: raise PathEnd()
        if c is not True:
            s.assume(c)
            if s.ghost.get('lens') and isinstance(s.ghost.get('t'), Node) and T.contains(c, lambda x: x is s.ghost['t']):
                # products of numbers that are not negative
                tt = s.ghost['t']; X = T.linear_bound(c, tt)
                for P in s.ghost['lens']:
                    s.assume(T.le(0, T.mul(tt, P)))
                    if X is not None: s.assume(T.le(0, T.mul(T.sub(T.sub(X, 1), tt), P)))
        step(s, body, inc)
    priv = set(omp['private']) if omp else set()
    privrefs = [v for fr in s.frames[-1:] for i, v in fr.vars.items() if any(fr.names.get(nm) == i for nm in priv)]
    def strip(store):
        st = dict(store)
        return st
    def undef(v):
        if isinstance(v, LVec): return LVec([undef(x) for x in v.items], v.ety)
        return UNDEF
    def setup(W, ind, t):
        s.store = dict(entry)
        for r in privrefs: s.rawset(r, undef(loc_value(s, entry, r)))
        for r in W:
            if r in ind:
                v0, dl = ind[r]
                s.rawset(r, Ptr(v0.base, T.add(v0.off, T.mul(dl, t))) if isinstance(v0, Ptr) else (T.add(v0, T.mul(dl, t))))
            else:
                v0 = loc_value(s, entry, r)
                if isinstance(v0, Stream): s.rawset(r, Stream(()))
                elif isinstance(v0, LVec) and r in pushes: s.rawset(r, LVec((), v0.ety))
                elif r in accs: s.rawset(r, accs[r](t))
                else: s.rawset(r, Unk('value carried between iterations'))
        for r, (a, F) in recs.items():
            old = loc_value(s, entry, r)
            s.rawset(r, AVec(old.n, lambda j, a=a, F=F, old=old: s.pick(T.land(T.le(T.sub(a, 1), j), T.lt(j, T.add(a, t))), lambda: F(j), lambda: old.get(j)), old.ety))
    def collect(outs):
        new = set()
        for o in outs:
            for r in o.rec.scal:
                if r.root in entry and not any(r.root == p.root for p in privrefs): new.add(r)
        return {r for r in new if not any(r != q and r.root == q.root and r.path[:len(q.path)] == q.path for q in new)}
    pushes = set(); accs = {}; recs = {}; tried = set()
    # dry run of the first iteration
    roots = set(entry)
    for r in privrefs: s.rawset(r, undef(loc_value(s, entry, r)))
    outs = s.local_paths(iteration, lambda: Rec(roots))
    s.store = dict(entry)
    if not outs:
        # the body never runs on a feasible path
        del s.obs[obs0:]
        raise Unsupported('loop without a feasible first iteration')
    W = collect(outs)
    ind = {}
    def find_ind():
        for r in W:
            if r in ind: continue
            v0 = loc_value(s, entry, r); dl = None; good = True
            for o in outs:
                if o.exc is not None: continue
                v1 = loc_value(s, o.store, r)
                if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.base == v1.base and v0.off is not None: x = T.sub(v1.off, v0.off)
                elif isinstance(v0, (int, Node)) and not isinstance(v0, bool) and T.sort_of(v0) == 'I' and isinstance(v1, (int, Node)) and T.sort_of(v1) == 'I': x = T.sub(v1, v0)
                else: good = False; break
                if dl is None: dl = x
                elif T.sub(dl, x) != 0: good = False; break
            if good and dl is not None and isinstance(dl, int) and dl != 0: ind[r] = (v0, dl)
            elif isinstance(v0, LVec) and all(isinstance(loc_value(s, o.store, r), LVec) and len(loc_value(s, o.store, r).items) == len(v0.items) + 1 for o in outs if o.exc is None): pushes.add(r)
    find_ind()
    t = s.fresh('t', 'I')
    # accumulators with a closed form offered by the contract
    for attempt in range(12):
        del s.obs[obs0:]
        setup(W, ind, t)
        k = len(s.pc)
        s.pc.append(T.le(0, t))
        s.ghost['t'] = t
        cterm = s.guardless(lambda: s.truth(s.rv(cond)))
        try: outs2 = s.local_paths(iteration, lambda: Rec(roots))
        except Unsupported as e:
            del s.pc[k:]
            if 'carried' in str(e) and try_acc(s, W, ind, accs, entry, outs, t, tried): continue
            if str(e) == 'ite' and probe_rec(s, setup, W, ind, t, iteration, roots, recs, entry, outs, tried): continue
            raise
        # a closed form must hold after one more iteration
        wrong = [r for r in accs if not all(o.exc is not None or closed_ok(s, loc_value(s, o.store, r), accs[r](T.add(t, 1)), o.conds) for o in outs2)]
        wrong += [r for r, (a, F) in recs.items() if not all(o.exc is not None or rec_ok(s, o, r, a, F, t) for o in outs2)]
        del s.pc[k:]
        if wrong:
            sc = [r for r in wrong if r in accs]
            for r in wrong: accs.pop(r, None); recs.pop(r, None)
            if sc and not try_acc(s, W, ind, accs, entry, outs, t, tried): raise Unsupported('no closed form for a value carried between iterations')
            continue
        W2 = collect(outs2)
        outs = outs2
        bad = [r for r in ind if any(o.exc is None and not induct_ok(s, r, ind, o, t) for o in outs2)]
        if bad:
            for r in bad: ind.pop(r)
            continue
        if W2 <= W:
            if omp is None and getattr(s, 'closed_forms', None):
                dep = []
                if check_independent(s, outs2, [t], [None], [T.le(0, t), cterm], quiet=True, skip=recs, dep=dep) is None and try_rec(s, dep[0], recs, entry, outs2, t, tried): continue
            break
        W = W | W2
    else: raise Unsupported('loop state does not settle')
    s.store = dict(entry)
    if isinstance(cterm, bool): raise Unsupported('loop condition independent of the counter')
    # the condition, once false, stays false
    tm = T.subst(cterm, {t: T.sub(t, 1)})
    if not smt.unsat(s.hyp() + [T.ge(t, 1), cterm, T.lnot(tm)], 6.0): raise Unsupported('a loop condition that is not monotone')
    s.obs.append(Obligation('loop condition is monotone', 'proved', '', s.name))
    for o in outs:
        if o.exc is not None: raise Unsupported('jump out of a counter loop')
    pcond = [T.le(0, t), cterm]
    # parallel loops: no shared scalar may be written
    if omp is not None:
        cnt = loop_counter(s, cond)
        for r in W:
            if r in cnt: continue
            s.obs.append(Obligation('parallel loop writes no shared variable', 'refuted', 'shared %s is written by every iteration' % (r,), s.name))
            raise PathEnd()
        s.obs.append(Obligation('parallel loop writes no shared variable', 'proved', '', s.name))
    one = [t]
    arrs = None
    add = None
    if omp is not None: arrs = check_independent(s, outs, one, [None], pcond, 'parallel iterations are independent')
    else:
        arrs = check_independent(s, outs, one, [None], pcond, quiet=True, skip=recs)
        if arrs is not None:
            for _ in arrs: s.obs.append(Obligation('iterations are independent', 'proved', '', s.name))
        else:
            if recs: raise Unsupported('dependent iterations')
            add = additive(s, setup, W, ind, t, iteration, roots, entry, outs)
    Tn = trip_count(s, cterm, t)
    if Tn is None:
        Tn = s.fresh('T', 'I')
        s.assume(T.le(0, Tn))
        s.assume(T.lnot(T.subst(cterm, {t: Tn})))
        s.assume(T.lor(T.eq(Tn, 0), T.subst(cterm, {t: T.sub(Tn, 1)})))
    s.store = dict(entry)
    if add is None:
        for arr in arrs:
            old = s._get(entry[arr.root], arr.path, arr)
            s.rawset(arr, layered_lin(s, old, collect_layers(s, arr, outs, pcond), t, Tn, pcond, False))
        for r, (a, F) in recs.items():
            old = loc_value(s, entry, r); s.rules.add('array recurrence')
            s.rawset(r, AVec(old.n, lambda j, a=a, F=F, old=old: s.pick(T.land(T.le(T.sub(a, 1), j), T.lt(j, T.add(a, Tn))), lambda: F(j), lambda: old.get(j)), old.ety))
            s.obs.append(Obligation('closed form of a recurrence: base and step', 'proved', '', s.name))
        for r in accs: s.rules.add('accumulator'); s.obs.append(Obligation('closed form of an accumulator: base and step', 'proved', '', s.name))
    else:
        for arr, layers in add.items():
            old = s._get(entry[arr.root], arr.path, arr)
            s.rawset(arr, layered_lin(s, old, layers, t, Tn, pcond, True))
    for r in W:
        if r in ind:
            v0, dl = ind[r]
            s.rawset(r, Ptr(v0.base, T.add(v0.off, T.mul(dl, Tn))) if isinstance(v0, Ptr) else T.add(v0, T.mul(dl, Tn)))
        elif r in accs: s.rawset(r, accs[r](Tn))
        else:
            v0 = loc_value(s, entry, r)
            if isinstance(v0, Stream):
                alts = [(o.conds, loc_value(s, o.store, r).trace) for o in outs]
                if len(alts) != 1: raise Unsupported('output depends on a branch inside a loop')
                s.rawset(r, Stream(v0.trace + (('loop', t, Tn, alts[0][1]),)))
            elif r in pushes:
                if len(outs) != 1 or len(v0.items): raise Unsupported('push_back in a branch')
                w = loc_value(s, outs[0].store, r)
                if len(w.items) != 1: raise Unsupported('push_back')
                x = w.items[0]
                s.rawset(r, AVec(Tn, lambda i, x=x: map_terms(x, lambda q: T.subst(q, {t: i}) if isinstance(q, Node) else q), v0.ety))
            else: s.rawset(r, Unk('value carried between iterations'))
    for r in privrefs: s.rawset(r, loc_value(s, entry, r))

def loop_counter(s, cond):
    """roots of the variables of the loop condition"""
    out = set()
    def go(n):
        if n.get('kind') == 'DeclRefExpr':
            i = n['referencedDecl']['id']
            v = s.fr.vars.get(i)
            if v is not None: out.add(v)
        for c in n.get('inner', []):
            if isinstance(c, dict): go(c)
    go(cond)
    return out

def induct_ok(s, r, ind, o, t):
    v0, dl = ind[r]
    try: v1 = loc_value(s, o.store, r)
    except Unsupported: return False
    w = T.add(v0.off if isinstance(v0, Ptr) else v0, T.mul(dl, T.add(t, 1)))
    x = v1.off if isinstance(v1, Ptr) else v1
    if not isinstance(x, (int, Node)): return False
    return T.sub(x, w) == 0

def closed_ok(s, v, w, conds):
    if not isinstance(v, (Fraction, Node)): return False
    if isinstance(v, Fraction) and isinstance(w, Fraction): return v == w
    return smt.real_eq(v, w, s.hyp() + conds)
def rec_ok(s, o, r, a, F, t):
    """element a + t receives F(a + t), and it is the only one written"""
    for b, kx in o.rec.writes:
        if b == r and T.sub(kx, T.add(a, t)) != 0: return False
    fin = loc_value(s, o.store, r)
    return closed_ok(s, fin.get(T.add(a, t)), F(T.add(a, t)), o.conds)
def try_acc(s, W, ind, accs, entry, outs, t, tried):
    """accumulators: closed forms offered by the active contract, checked for base and step"""
    forms = getattr(s, 'closed_forms', None)
    if not forms: return False
    hit = False
    for r in W:
        if r in ind or r in accs: continue
        v0 = loc_value(s, entry, r)
        if not isinstance(v0, (Fraction, Node)) or T.sort_of(v0) != 'R': continue
        for f in forms:
            cf = f(s)
            if cf is None or (r, f) in tried: continue
            tried.add((r, f))
            if closed_ok(s, v0, cf(0), []):
                accs[r] = cf; hit = True; break
    return hit
def try_rec(s, arr, recs, entry, outs, t, tried):
    """arrays filled by a recurrence: element a + t is computed from element a + t - 1"""
    keys = []
    for o in outs:
        for b, kx in o.rec.writes:
            if b == arr and not any(same_key(kx, q) for q in keys): keys.append(kx)
    if len(keys) != 1: return False
    ab = lin_in(keys[0], t)
    old = loc_value(s, entry, arr)
    if ab is None or ab[1] != 1 or not isinstance(old, AVec): return False
    a = ab[0]
    for f in s.closed_forms:
        F = f(s)
        if F is None or (arr, f) in tried: continue
        tried.add((arr, f))
        v0 = old.get(T.sub(a, 1))
        if isinstance(v0, (Fraction, Node)) and closed_ok(s, v0, F(T.sub(a, 1)), []):
            recs[arr] = (a, F); return True
    return False

def probe_rec(s, setup, W, ind, t, iteration, roots, recs, entry, outs, tried):
    """an iteration reads elements that only an earlier one has set: run it on opaque arrays to see which element it writes"""
    if not getattr(s, 'closed_forms', None): return False
    arrs = []
    for o in outs:
        for b, _ in o.rec.writes:
            if b not in arrs and b not in recs and isinstance(loc_value(s, entry, b), AVec): arrs.append(b)
    setup(W, ind, t)
    for j, b in enumerate(arrs): s.rawset(b, AVec(loc_value(s, entry, b).n, lambda i, j=j: T.app('probe%d' % j, [i], 'R'), loc_value(s, entry, b).ety))
    k = len(s.pc); n = len(s.obs)
    s.pc.append(T.le(0, t))
    try: got = s.local_paths(iteration, lambda: Rec(roots))
    except Unsupported: got = []
    del s.pc[k:], s.obs[n:]
    return any(try_rec(s, b, recs, entry, got, t, tried) for b in arrs)

def additive(s, setup, W, ind, t, iteration, roots, entry, outs):
    """every write adds to the old element: W[a] += e(t) with e independent of the written arrays"""
    arrs = []
    for o in outs:
        for a, _ in o.rec.writes:
            if a not in arrs: arrs.append(a)
    setup(W, ind, t)
    mark = {}
    for j, a in enumerate(arrs):
        v = s._get(s.store[a.root], a.path, a)
        if not isinstance(v, AVec): raise Unsupported('dependent iterations')
        nm = 'old!%d' % j; mark[a] = nm
        s.rawset(a, AVec(v.n, lambda i, nm=nm: T.app(nm, [i], 'R'), v.ety))
    k = len(s.pc); n0 = len(s.obs)
    s.pc.append(T.le(0, t))
    outs = s.local_paths(iteration, lambda: Rec(roots))
    del s.obs[n0:]
    del s.pc[k:]
    res = {a: [] for a in arrs}
    names = set(mark.values())
    for o in outs:
        for arr in arrs:
            fin = s._get(o.store[arr.root], arr.path, arr); seen = []
            for a, kx in o.rec.writes:
                if a != arr or any(same_key(kx, q) for q in seen): continue
                seen.append(kx)
                s.pc.append(T.le(0, t)); s.pc.extend(o.conds)
                e = T.sub(fin.get(kx), T.app(mark[arr], [kx], 'R'))
                del s.pc[len(s.pc) - len(o.conds) - 1:]
                if isinstance(e, Node) and T.contains(e, lambda x: x.op == 'app' and x.args[0] in names): raise Unsupported('dependent iterations')
                res[arr].append((kx, e, o.conds))
    s.rules.add('scatter-add')
    return res

def lin_in(p, t):
    """p = a + b*t -> (a, b)"""
    c, ts = T._addend(p)
    b = 0; rest = {}
    for n, k in ts.items():
        if n is t: b = k
        elif T.contains(n, lambda y: y is t): return None
        else: rest[n] = k
    return T._mkadd(c, rest, 'I'), b
def divide(x, b):
    """exact quotient of a polynomial by an integer, 'no' if it is certainly not divisible, None if unknown"""
    if isinstance(x, int): return x // b if x % b == 0 else 'no'
    c, ts = T._addend(x)
    if all(k % b == 0 for k in ts.values()):
        return T._mkadd(c // b, {n: k // b for n, k in ts.items()}, 'I') if c % b == 0 else 'no'
    return None

def layered_lin(s, old, layers, t, Tn, pcond, additive):
    if not isinstance(old, AVec): raise Unsupported('counter loop over an array with coordinates')
    prep = []
    for kx, val, conds in layers:
        ab = lin_in(kx, t)
        if ab is None or ab[1] == 0: raise Unsupported('written element is not affine in the counter')
        prep.append((ab[0], ab[1], val, conds))
    def get(p):
        def go(i):
            if i < 0: return old.get(p)
            a, b, val, conds = prep[i]
            x = T.sub(p, a)
            q = divide(x, b) if abs(b) > 1 else T.scale(b, x)
            if isinstance(q, str): return go(i - 1)
            extra = []
            if q is None:
                q = T.tdiv(x, b); extra = [T.eq(T.tmod(x, b), 0)]
            m = {t: q}
            cond = T.land(T.le(0, q), T.lt(q, Tn), *extra, *[T.subst(g, m) if isinstance(g, Node) else g for g in conds])
            v = lambda: instance(s, val, m)
            if additive: return T.add(go(i - 1), s.pick(cond, v, lambda: Fraction(0)))
            return s.pick(cond, v, lambda: go(i - 1))
        return go(len(prep) - 1)
    return AVec(old.n, get, old.ety)

# ---------------------------------------------------------------- folds over lists of unknown length
def fold_for(s, c):
    for ident, f in s.foldspec.items():
        if T.contains(c, lambda x: x is f.n): return f
    return None

class Fold:
    """a loop contract: for every element of a list, in order, the state is changed by step(s, elem index)"""
    def __init__(s, ident, n, step, generalise, finish, start=None, stride=1):
        s.ident = ident; s.n = n; s.step = step; s.generalise = generalise; s.finish = finish; s.stride = stride
        s.soft = False              # a loop that differs from the contract is undecided, not wrong
        s.start = start or (lambda run, entry: None)        # obligations on the state the loop starts from
    def apply(f, s):
        """the loop as a specification"""
        e = dict(s.store); f.finish(s, e)

LOOPS = ('ForStmt', 'CXXForRangeStmt', 'WhileStmt', 'DoStmt')
def top_loops(n):
    """loops of a body that are not inside of another loop"""
    if isinstance(n, list): return sum(top_loops(x) for x in n)
    if not isinstance(n, dict): return 0
    return 1 if n.get('kind') in LOOPS else top_loops(n.get('inner', []))
def fold_rule(s, f, cond, inc, body, bindvar=None):
    """prove that one iteration from an arbitrary state is f.step, then replace the loop by the fold"""
    s.rules.add('fold')
    if not f.soft and top_loops(s.fr.fn.body) > 1: f.soft = True       # work on the list may be spread over several loops
    from .verify import compare_stores
    entry = dict(s.store)
    obs0 = len(s.obs)
    def iteration():
        if cond is not None:
            c = s.truth(s.rv(cond))
            if c is False: raise PathEnd()
            if c is not True: s.assume(c)
        step(s, body, inc)
    # counter: found by a dry run
    roots = set(entry)
    f.start(s, entry)
    f.generalise(s, 0)
    outs = s.local_paths(iteration, lambda: Rec(roots))
    W = set()
    for o in outs:
        for r in o.rec.scal:
            if r.root.startswith('L_') and r.root in entry: W.add(r)
    W = {r for r in W if not any(r != q and r.root == q.root and r.path[:len(q.path)] == q.path for q in W)}
    ind = {}
    for r in W:
        v0 = loc_value(s, entry, r)
        ds = set()
        for o in outs:
            if o.exc is not None: continue
            v1 = loc_value(s, o.store, r)
            a = v1.off if isinstance(v1, Ptr) else v1; b = v0.off if isinstance(v0, Ptr) else v0
            if isinstance(a, (int, Node)) and isinstance(b, (int, Node)) and T.sort_of(a) == 'I' and T.sort_of(b) == 'I' and not isinstance(a, bool):
                ds.add(T.sub(a, b))
            else: ds.add(None)
        if len(ds) == 1 and isinstance(next(iter(ds)), int): ind[r] = (v0, next(iter(ds)))
    t = s.fresh('k', 'I')
    for attempt in range(4):
        del s.obs[obs0:]
        s.store = dict(entry)
        for r in W:
            if r in ind:
                v0, dl = ind[r]
                s.rawset(r, Ptr(v0.base, T.add(v0.off, T.mul(dl, t))) if isinstance(v0, Ptr) else T.add(v0, T.mul(dl, t)))
            else: s.rawset(r, Unk('value carried between iterations'))
        f.generalise(s, T.mul(t, f.stride))
        k = len(s.pc)
        s.pc.append(T.le(0, t)); s.pc.append(T.lt(T.mul(t, f.stride), f.n) if f.stride == 1 else T.le(T.add(T.mul(t, f.stride), f.stride), f.n))
        cterm = s.guardless(lambda: s.truth(s.rv(cond)))
        def both():
            saved = dict(s.store)
            out = None
            try: step(s, body, inc)
            except Throw as e: out = e
            code = s.store
            s.store = dict(saved)
            sp = None
            s.inspec += 0
            try: f.step(s, T.mul(t, f.stride))
            except Throw as e: sp = e
            if (out is None) != (sp is None):
                if f.soft: raise Unsupported('loop over %s differs from its contract (exit)' % f.ident)
                s.fail('loop over %s: %s' % (f.ident, 'throws' if out else 'does not throw'))
                raise PathEnd()
            ignore = {r.root for r in W}
            no = len(s.obs)
            compare_stores(s, code, s.store, [r for r in saved if r not in ignore], 'loop over %s, one element' % f.ident)
            if f.soft and any(o.status != 'proved' for o in s.obs[no:]): raise Unsupported('loop over %s differs from its contract: %s' % (f.ident, [o.label for o in s.obs[no:] if o.status != 'proved'][0]))
            s.store = code
            if out is not None: raise out
        try: outs = s.local_paths(both, lambda: Rec(roots))
        finally: del s.pc[k:]
        W2 = set()
        for o in outs:
            for r in o.rec.scal:
                if r.root.startswith('L_') and r.root in entry: W2.add(r)
        W2 = {r for r in W2 if not any(r != q and r.root == q.root and r.path[:len(q.path)] == q.path for q in W2)}
        bad = [r for r in ind if any(o.exc is None and not induct_ok(s, r, ind, o, t) for o in outs)]
        if bad:
            for r in bad: ind.pop(r)
            continue
        if W2 <= W: break
        W = W | W2
    else: raise Unsupported('loop state does not settle')
    # the loop runs exactly over the elements
    s.store = dict(entry)
    goal = T.iff(cterm, T.le(T.add(T.mul(t, f.stride), f.stride), f.n) if f.stride > 1 else T.lt(t, f.n))
    hy = [T.le(0, t), T.le(T.mul(t, f.stride), f.n)]          # kept by every iteration, and 0 <= n
    if f.stride > 1: hy.append(T.eq(T.tmod(f.n, f.stride), 0))
    if f.soft and not smt.unsat(s.hyp() + hy + [T.lnot(goal)], 6.0): raise Unsupported('loop over %s does not visit exactly its elements' % f.ident)
    if not s.oblige(goal, 'loop over %s visits exactly its elements' % f.ident, hy): raise PathEnd()
    if any(isinstance(o.exc, (Return, Break)) for o in outs): raise Unsupported('jump out of a list loop')
    f.finish(s, entry)
    for r in W: s.rawset(r, Unk('value after the loop'))

def range_for(s, n):
    inner = n['inner']
    decls = [c for c in inner if c.get('kind') == 'DeclStmt']
    rng, var, body = decls[0], decls[-1], inner[-1]
    s.stmt(rng)
    rd = rng['inner'][0]
    cont = s.fr.vars[rd['id']]
    v = s.load(cont)
    vd = var['inner'][0]
    byref = qual(vd).rstrip().endswith('&')
    def bindelem(i):
        r = cont.idx(i)
        if byref: s.fr.vars[vd['id']] = r
        else: s.fr.vars[vd['id']] = s.alloc(s.load(r), 'L_%s_' % vd.get('name', ''))
        if vd.get('name'): s.fr.names[vd['name']] = vd['id']
    if isinstance(v, LVec):
        for i in range(len(v.items)):
            bindelem(i)
            try: s.stmt(body)
            except Break: return
            except Continue: pass
        return
    if isinstance(v, SymList):
        f = next((f for f in s.foldspec.values() if f.ident is v.ident or f.n is v.n), None)
        if f is None: raise Unsupported('range for over a list without a loop contract')
        ctr = s.alloc(0, 'L_range_')
        # a synthetic counter loop
        cnode = {'kind': 'QK_cond', 'f': lambda: T.lt(s.load(ctr), v.n)}
        bnode = {'kind': 'QK_body', 'f': lambda: (bindelem(s.load(ctr)), s.stmt(body), None)}
        inode = {'kind': 'QK_inc', 'f': lambda: s.put(ctr, T.add(s.load(ctr), 1))}
        return fold_rule(s, f, cnode, inode, bnode)
    if isinstance(v, AVec):
        ctr = s.alloc(0, 'L_range_')
        cnode = {'kind': 'QK_cond', 'f': lambda: T.lt(s.load(ctr), v.n)}
        bnode = {'kind': 'QK_body', 'f': lambda: (bindelem(s.load(ctr)), s.stmt(body), None)}
        inode = {'kind': 'QK_inc', 'f': lambda: s.put(ctr, T.add(s.load(ctr), 1))}
        return linear_rule(s, cnode, inode, bnode, None)
    if isinstance(v, CVec):
        # every element in row-major order: the traversal of an indexer over the whole box
        from contracts.idx import idx_val, next_spec
        if not all(s.decide(T.le(a, b)) is True for a, b in zip(v.lo, v.hi)) or not v.lo: raise Unsupported('range for over an unknown box')
        if not s.branch(T.land(*[T.lt(a, b) for a, b in zip(v.lo, v.hi)])): return
        if concrete_box(idx_val(s, (v.lo, v.hi), (v.lo, v.hi), list(v.lo))): raise Unsupported('range for over a concrete box')
        it = s.alloc(idx_val(s, (v.lo, v.hi), (v.lo, v.hi), list(v.lo)), 'L_range_')
        bnode = {'kind': 'QK_body', 'f': lambda: (bindelem(s.load(it.at('_linear_index'))), s.stmt(body), None)}
        inode = {'kind': 'QK_inc', 'f': lambda: next_spec(s, it, [])}
        return box_rule(s, [it], inode, bnode)
    raise Unsupported('range for over %r' % (v,))

# ---------------------------------------------------------------- OpenMP
# The shipped build ignores the directives. PARALLEL is on for the property about parallel loops (C25): the loop must then
# also meet the obligations that make its result independent of the schedule.
PARALLEL = False
def omp(s, n):
    k = n['kind']
    if not PARALLEL and k in ('OMPParallelDirective', 'OMPCriticalDirective', 'OMPBarrierDirective', 'OMPAtomicDirective', 'OMPMasterDirective', 'OMPSingleDirective'):
        st = n
        while st.get('kind', '').startswith('OMP') or st.get('kind') in ('CapturedStmt', 'CapturedDecl'):
            nxt = [c for c in st.get('inner', []) if (c.get('kind', '').endswith('Stmt') or c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Operator') or c.get('kind') in ('CapturedDecl',) or c.get('kind', '').startswith('OMP') and c['kind'].endswith('Directive'))]
            if not nxt: return
            st = nxt[0]
            if st.get('kind', '').startswith('OMP'): return s.omp(st)
        return s.stmt(st)
    if k not in ('OMPParallelForDirective', 'OMPForDirective', 'OMPParallelForSimdDirective', 'OMPSimdDirective', 'OMPForSimdDirective'): raise Unsupported(k)
    line = pragma(s, n) if PARALLEL else ''
    if line is None: raise Unsupported('pragma text')
    if re.search(r'\b(reduction|firstprivate|lastprivate|collapse|critical|ordered)\b', line): raise Unsupported('OpenMP clause: ' + line)
    priv = []
    for m in re.finditer(r'\bprivate\s*\(([^)]*)\)', line): priv += [x.strip() for x in m.group(1).split(',')]
    st = n
    while st.get('kind') != 'ForStmt':
        nxt = [c for c in st.get('inner', []) if c.get('kind') in ('CapturedStmt', 'CapturedDecl', 'ForStmt', 'CompoundStmt')]
        if not nxt: raise Unsupported('parallel loop form')
        st = nxt[0]
    inner = st['inner']
    if inner[0].get('kind'): s.stmt(inner[0])
    if not PARALLEL: return run(s, st, inner[2], inner[3], inner[4])
    s.rules.add('parallel')
    s.ghost['omp'] = s.ghost.get('omp', 0) + 1
    run(s, st, inner[2], inner[3], inner[4], omp={'private': priv})

_src = {}
def pragma(s, n):
    b = n.get('range', {}).get('begin', {})
    b = b.get('expansionLoc', b)
    off = b.get('offset')
    if off is None: return None
    f = s.fr.fn.tu.path.split('#')[0]
    path = f if f.startswith('/') else os.path.join(REPO, 'src', f)
    if path not in _src: _src[path] = open(path, errors='replace').read()
    txt = _src[path]
    e = off
    while True:
        q = txt.find('\n', e)
        if q < 0: q = len(txt)
        if txt[q - 1] == '\\': e = q + 1; continue
        return txt[off:q]
