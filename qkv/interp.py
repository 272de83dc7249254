"""Symbolic execution of the extracted clang AST, one path at a time (paths are re-executed from the start).

Calls to functions with a contract use the contract; every other function with a body is inlined.
"""
import re, struct
from fractions import Fraction
from . import numeric, terms as T, smt
from .terms import Node
from .frontend import simple, simple_t, qual, Fn
from .values import *

class Throw(Exception):
    def __init__(s, cls, val=None): s.cls = cls; s.val = val
class Return(Exception):
    def __init__(s, v): s.v = v
class Break(Exception): pass
class Continue(Exception): pass
class PathEnd(Exception): pass           # infeasible or finished path
class Failed(Exception): pass

STD_THROW = 'std'

class Obligation:
    __slots__ = ('label', 'status', 'detail', 'fn')
    def __init__(s, label, status, detail='', fn=''): s.label = label; s.status = status; s.detail = detail; s.fn = fn

class Run:
    """one exploration (all paths) of one verification task"""
    def __init__(s, prog, contracts, name=''):
        s.prog = prog; s.contracts = contracts; s.name = name
        s.obs = []; s.paths = 0; s.used = set(); s.inlined = set(); s.assumed = set(); s.rules = set()
        s.notes = []
        s.noctr = set()                 # contracts switched off (the function being verified)
        s.deadline = None
    # ---- exploration
    def explore(s, body, max_paths=4000):
        stack = [[]]
        while stack:
            pre = stack.pop()
            s.dec = list(pre); s.pos = 0; s.alts = []
            s.store = {}; s.pc = []; s.facts = []; s.nroot = 0; s.frames = []; s.lintab = {}; s.rec = []; s.inspec = 0; s.uniq = 0
            s.boxes = []; s.foldspec = {}; s.ghost = {}
            s.paths += 1
            if s.paths > max_paths: raise Unsupported('too many paths')
            try: body(s)
            except PathEnd: pass
            stack.extend(s.alts)
    def fresh(s, name, sort):
        s.uniq += 1
        return T.var('%s~%d' % (name, s.uniq), sort)
    def assume(s, c):
        if c is True: return
        if c is False: raise PathEnd()
        s.pc.append(c)
    def hyp(s): return s.pc + s.facts
    def decide(s, c, nl=True):
        """True / False if c is settled by the path condition, else None"""
        if isinstance(c, bool): return c
        if c in s.pc: return True
        if smt.unsat(s.hyp() + [T.lnot(c)], 3.0, nl): return True
        if smt.unsat(s.hyp() + [c], 3.0, nl): return False
        return None
    def branch(s, c):
        """fork on c"""
        if isinstance(c, bool): return c
        if T.sort_of(c) != 'B': c = T.ne(c, 0 if T.sort_of(c) == 'I' else Fraction(0))
        if isinstance(c, bool): return c
        nl = not T.contains(c, lambda x: x.sort == 'R')
        if s.pos < len(s.dec):
            v = s.dec[s.pos]; s.pos += 1
            if v in (True, False):
                s.pc.append(c if v else T.lnot(c)); return v
            return v == 'T'
        d = s.decide(c, nl)
        if d is not None:
            s.dec.append('T' if d else 'F'); s.pos += 1
            return d
        s.alts.append(s.dec + [False])
        s.dec.append(True); s.pos += 1
        s.pc.append(c)
        return True
    # ---- obligations
    def oblige(s, c, label, hyps=()):
        """record the obligation pc => c"""
        if c is True: s.obs.append(Obligation(label, 'proved', '', s.name)); return True
        if smt.unsat(s.hyp() + list(hyps) + ([T.lnot(c)] if c is not False else []), 6.0):
            s.obs.append(Obligation(label, 'proved', '', s.name)); return True
        det = ''; st = 'unknown'
        if numeric.has_interp(c) or any(numeric.has_interp(h) for h in s.hyp()): m = numeric.falsify(c, s.hyp() + list(hyps))
        else: m = smt.model(s.hyp() + list(hyps) + ([T.lnot(c)] if c is not False else []), 4.0)
        if m is not None:
            st = 'refuted'; det = str(m)[:1500]
        s.obs.append(Obligation(label, st, 'goal: %s\npath: %s\nmodel: %s' % (T.show(c, 9)[:800], '; '.join(T.show(x, 7) for x in s.pc)[:1500], det), s.name))
        return False
    def fail(s, label, detail=''):
        """the path is feasible and its outcome is wrong"""
        m = numeric.falsify(False, s.hyp()) if any(numeric.has_interp(h) for h in s.hyp()) else smt.model(s.hyp(), 4.0)
        s.obs.append(Obligation(label, 'refuted' if m is not None else 'unknown', '%s\npath: %s\nmodel: %s' % (detail, '; '.join(T.show(x, 7) for x in s.pc)[:1500], str(m)[:1500]), s.name))
    def require(s, c, label):
        """precondition of a contract: an obligation for callers, an assumption for the function itself"""
        if s.inspec: s.assume(c)
        else:
            if not s.oblige(c, 'pre: ' + label):
                s.assume(c)
    # ---- store
    def alloc(s, v, tag='t'):
        s.nroot += 1
        r = '%s%d' % (tag, s.nroot)
        s.store[r] = v
        return Ref(r)
    def load(s, ref):
        if s.rec: s.note_read(ref)
        return s._get(s.store[ref.root], ref.path, ref)
    def _get(s, v, path, ref):
        for k, st in enumerate(path):
            if isinstance(st, tuple):
                if st[0] == 'map': v = v.entries[st[1]][2]
                else: v = s.elem(v, st[1])
            else:
                if isinstance(v, Unk): raise Unsupported(v.why)
                if not isinstance(v, Obj): raise Unsupported('field %s of %r' % (st, type(v).__name__))
                if st not in v.f: raise Unsupported('no field %s in %s' % (st, v.cls))
                v = v.f[st]
        return v
    def put(s, ref, val):
        if s.rec: s.note_write(ref, val)
        s.store[ref.root] = s._set(s.store[ref.root], ref.path, val)
    def _set(s, v, path, val):
        if not path: return val
        st = path[0]
        if isinstance(st, tuple):
            if st[0] == 'map':
                from .builtins import MapV
                e = list(v.entries); i, k, m = e[st[1]]; e[st[1]] = (i, k, s._set(m, path[1:], val))
                return MapV(tuple(e), v.rest)
            if len(path) > 1: val = s._set(s.elem(v, st[1]), path[1:], val)
            return s.set_elem(v, st[1], val)
        if not isinstance(v, Obj): raise Unsupported('store to field %s' % st)
        return v.put(st, s._set(v.f.get(st, UNDEF), path[1:], val))
    def conc(s, i, n):
        """make an index concrete, forking"""
        if isinstance(i, int): return i
        for k in range(n):
            if s.branch(T.eq(i, k)): return k
        return None
    def inb(s, c, what):
        if c is True: return
        s.rules.add('bounds')
        if not s.oblige(c, 'in bounds: ' + what): s.assume(c)
    def elem(s, v, i):
        if isinstance(v, LVec):
            k = s.conc(i, len(v.items))
            if k is None or not 0 <= k < len(v.items):
                s.fail('in bounds: element %s of %d' % (T.show(i), len(v.items))); raise PathEnd()
            return v.items[k]
        if isinstance(v, AVec):
            s.inb(T.land(T.le(0, i), T.lt(i, v.n)), 'element read')
            return v.get(i)
        if isinstance(v, CVec):
            c = s.coords(v, i)
            return v.get(c)
        if isinstance(v, SymList):
            s.inb(T.land(T.le(0, i), T.lt(i, v.n)), 'list element')
            return v.elem(i)
        raise Unsupported('element of %s' % type(v).__name__)
    def set_elem(s, v, i, val):
        if isinstance(v, LVec):
            k = s.conc(i, len(v.items))
            if k is None or not 0 <= k < len(v.items):
                s.fail('in bounds: element %s of %d written' % (T.show(i), len(v.items))); raise PathEnd()
            return LVec(v.items[:k] + (val,) + v.items[k + 1:], v.ety)
        if isinstance(v, AVec):
            s.inb(T.land(T.le(0, i), T.lt(i, v.n)), 'element write')
            return AVec(v.n, s.layer_point(v.get, i, val), v.ety)
        if isinstance(v, CVec):
            c = s.coords(v, i)
            return CVec(v.lo, v.hi, s.layer_point(v.get, c, val), v.ety)
        raise Unsupported('store to element of %s' % type(v).__name__)
    def pick(s, c, a, b):
        """ite over values (b lazy), decided by the path condition where possible"""
        d = c if isinstance(c, bool) else s.decide(c, not T.contains(c, lambda x: x.sort == 'R'))
        if d is True: return a()
        if d is False: return b()
        return val_ite(c, a(), b())
    def layer_point(s, old, at, val):
        def get(p):
            c = T.land(*[T.eq(x, y) for x, y in zip(p, at)]) if isinstance(p, tuple) else T.eq(p, at)
            return s.pick(c, lambda: val, lambda: old(p))
        return get
    # ---- row-major addresses
    def lin(s, lo, hi, x):
        """row-major address of x in the box [lo,hi), remembered for translation back to coordinates"""
        r = 0
        st = 1
        for a, b, c in reversed(list(zip(lo, hi, x))):
            r = T.add(r, T.mul(T.sub(c, a), st)); st = T.mul(st, T.sub(b, a))
        if isinstance(r, Node): s.lintab[r.id] = (tuple(lo), tuple(hi), tuple(x))
        return r
    def coords(s, v, i):
        got = None
        n = len(v.lo)
        if isinstance(i, int):
            if all(isinstance(a, int) and isinstance(b, int) for a, b in zip(v.lo, v.hi)):
                r = i; c = []
                for a, b in reversed(list(zip(v.lo, v.hi))):
                    if b - a <= 0: raise Unsupported('empty box')
                    c.append(a + r % (b - a)); r //= (b - a)
                if r != 0: s.fail('in bounds: element %d' % i); raise PathEnd()
                return tuple(reversed(c))
            got = (v.lo, v.hi, v.lo, i)           # small offsets from the first element
        else:
            for k in [0] + [q * g for q in range(1, 9) for g in (1, -1)]:
                e = s.lintab.get(getattr(T.sub(i, k), 'id', None)) if isinstance(T.sub(i, k), Node) else None
                if e is not None and len(e[0]) == n:
                    if all(a is b or a == b for a, b in zip(e[0] + e[1], v.lo + v.hi)) or s.decide(T.land(*[T.eq(a, b) for a, b in zip(e[0] + e[1], v.lo + v.hi)])) is True:
                        got = (v.lo, v.hi, e[2], k); break
                    # same lengths, other origin: translate
                    if all(s.decide(T.eq(T.sub(b, a), T.sub(d, c))) is True for a, b, c, d in zip(e[0], e[1], v.lo, v.hi)):
                        got = (v.lo, v.hi, tuple(T.add(T.sub(x, a), c) for x, a, c in zip(e[2], e[0], v.lo)), k); break
        if got is None: raise Unsupported('element at an index without coordinates: %s' % T.show(i))
        x = list(got[2]); x[-1] = T.add(x[-1], got[3])
        s.inb(T.land(*[T.land(T.le(a, c), T.lt(c, b)) for a, b, c in zip(v.lo, v.hi, x)]), 'element')
        return tuple(x)
    # ---- recording of accesses (loop rules)
    def split_ref(s, ref):
        """(array ref, index, rest) for the first symbolic-array step of the path, or None"""
        v = s.store.get(ref.root)
        for k, st in enumerate(ref.path):
            if isinstance(st, tuple):
                if isinstance(v, (AVec, CVec)): return Ref(ref.root, ref.path[:k]), st[1], ref.path[k + 1:]
                if isinstance(v, LVec):
                    if not isinstance(st[1], int) or not 0 <= st[1] < len(v.items): return None
                    v = v.items[st[1]]
                else: return None
            else:
                if not isinstance(v, Obj) or st not in v.f: return None
                v = v.f[st]
        return None
    def note_read(s, ref):
        sp = s.split_ref(ref)
        for r in s.rec: r.read(s, ref, sp)
    def note_write(s, ref, val):
        sp = s.split_ref(ref)
        for r in s.rec: r.write(s, ref, sp, val)
    def note_bulk(s, ref):
        for r in s.rec: r.bulk(s, ref)
    def local_paths(s, f, mkrec=None):
        """run f from the current state along all of its paths; returns outcomes and restores the state"""
        outer = (s.dec, s.pos, s.alts); base = s.store; k = len(s.pc); nf = len(s.facts); nroot = s.nroot; depth = len(s.frames); nrec = len(s.rec)
        gh = dict(s.ghost)
        outs = []; stack = [[]]
        fvars = [dict(fr.vars) for fr in s.frames]
        maxroot = nroot
        while stack:
            s.dec = list(stack.pop()); s.pos = 0; s.alts = []
            s.store = dict(base); del s.pc[k:]; s.nroot = nroot; s.ghost = dict(gh)
            for fr, v in zip(s.frames, fvars): fr.vars = dict(v)
            rec = mkrec() if mkrec else None
            if rec is not None: s.rec.append(rec)
            exc = None; skip = False
            try: f()
            except (Throw, Break, Continue, Return) as e: exc = e
            except PathEnd: skip = True
            finally:
                del s.rec[nrec:]; del s.frames[depth:]
            if not skip: outs.append(Outcome(list(s.pc[k:]), s.store, exc, rec, s.ghost))
            maxroot = max(maxroot, s.nroot)
            stack.extend(s.alts)
            if len(outs) > 200: raise Unsupported('too many paths in a loop body')
        s.dec, s.pos, s.alts = outer
        s.store = base; del s.pc[k:]; s.nroot = maxroot; s.ghost = gh
        for fr, v in zip(s.frames, fvars): fr.vars = v
        return outs
    # ---- functions
    def contract_for(s, fn):
        k = fn.qname + '(' + ','.join(simple_t(p) for p in fn.ptypes) + ')' + (' const' if fn.const else '')
        c = s.contracts.get(k)
        if c is None and fn.const: c = s.contracts.get(k[:-6])
        if c is None or c in s.noctr: return None
        return c
    def call(s, fn, this, args):
        """args: Refs for reference parameters, values otherwise"""
        if len(s.frames) > 60: raise Unsupported('recursion too deep')
        c = s.contract_for(fn)
        if c is not None:
            s.used.add(c)
            return c.apply(s, this, args)
        d = s.prog.definition(fn)
        if d is None:
            if s.prog.load_all(): d = s.prog.definition(fn)
        if d is None: raise Unsupported('no body for ' + fn.qname)
        s.inlined.add(fn.qname)
        return s.run_fn(d, this, args)
    def run_fn(s, fn, this, args):
        fr = Frame(fn, this)
        s.frames.append(fr)
        try:
            for p, a in zip(fn.params, args): s.bind(fr, p, a)
            if len(args) < len(fn.params): raise Unsupported('missing arguments for ' + fn.qname)
            try:
                if fn.body['kind'] == 'CXXTryStmt': raise Unsupported('function try block')
                s.stmt(fn.body)
                r = None
            except Return as e: r = e.v
            return r
        finally: s.frames.pop()
    def bind(s, fr, p, a):
        t = qual(p)
        if t.rstrip().endswith('&'):
            if not isinstance(a, Ref): a = s.alloc(a)
            fr.vars[p['id']] = a
        else:
            if isinstance(a, Ref): a = s.load(a)
            fr.vars[p['id']] = s.alloc(a, 'L_%s_' % p.get('name', ''))
        if p.get('name'): fr.names[p['name']] = p['id']
    @property
    def fr(s): return s.frames[-1]
    # ---- statements
    def stmt(s, n):
        k = n.get('kind')
        m = getattr(s, 'x_' + k, None) if k else None
        if m is not None: return m(n)
        if k is None: return
        if k in ('NullStmt',): return
        if k.startswith('OMP'): return s.omp(n)
        s.ev(n)
    def x_CompoundStmt(s, n):
        for c in n.get('inner', []): s.stmt(c)
    def x_DeclStmt(s, n):
        for c in n.get('inner', []):
            if c['kind'] == 'VarDecl': s.decl(c)
            elif c['kind'] in ('UsingDirectiveDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'EmptyDecl'): pass
            else: raise Unsupported('local ' + c['kind'])
    def decl(s, d):
        if d.get('storageClass') == 'static': raise Unsupported('static local')
        t = qual(d); init = next((c for c in d.get('inner', []) if c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal') or c.get('kind', '').endswith('Operator') or c.get('kind') == 'ExprWithCleanups'), None)
        fr = s.fr
        if d.get('name'): fr.names[d['name']] = d['id']
        if t.rstrip().endswith('&'):
            v = s.ev(init)
            if not isinstance(v, Ref): v = s.alloc(v)
            fr.vars[d['id']] = v; return
        if (simple(t) == 'ofstream' or simple(t).startswith('basic_ofstream')) and 'FS' in s.store:
            # the file of the pre-state stands for the file the stream writes
            fr.vars[d['id']] = Ref('FS', ('text',))
            args = [a for a in (init or {}).get('inner', []) if a['kind'] != 'CXXDefaultArgExpr'] if init is not None else []
            if args: s.open_file(s.rv(args[0]))
            return
        if init is not None:
            v = s.rv(init)
            m = re.match(r'^(.*?)\s*\[(.*)\]$', t)
            if m and isinstance(v, LVec):
                cnt = s.arrsize(m.group(2))
                if len(v.items) < cnt: v = LVec(v.items + (s.zero(m.group(1)),) * (cnt - len(v.items)), m.group(1))
        else:
            v = s.default(t)
        fr.vars[d['id']] = s.alloc(v, 'L_%s_' % d.get('name', ''))
    def open_file(s, name):
        from .builtins import text_of
        if isinstance(name, CStr): name = text_of(s, name)
        s.store['FS'] = Obj('file', {'name': name, 'text': Stream(())})
    def arrsize(s, txt):
        if re.fullmatch(r'\d+', txt): return int(txt)
        return s.miniexpr(txt)
    def miniexpr(s, txt):
        toks = re.findall(r'this->\w+|\w+|[-+*/()]', txt)
        if ''.join(toks) != txt.replace(' ', ''): raise Unsupported('array size ' + txt)
        pos = [0]
        def prim():
            if pos[0] >= len(toks): raise Unsupported('array size ' + txt)
            t = toks[pos[0]]; pos[0] += 1
            if t == '(':
                v = add(); pos[0] += 1; return v
            if t.isdigit(): return int(t)
            if t.startswith('this->'): return s.load(s.fr.this.at(t[6:]))
            i = s.fr.names.get(t)
            if i is None: raise Unsupported('array size ' + txt)
            return s.load(s.fr.vars[i])
        def mulx():
            v = prim()
            while pos[0] < len(toks) and toks[pos[0]] in '*/':
                o = toks[pos[0]]; pos[0] += 1; w = prim(); v = T.mul(v, w) if o == '*' else T.tdiv(v, w)
            return v
        def add():
            v = mulx()
            while pos[0] < len(toks) and toks[pos[0]] in '+-':
                o = toks[pos[0]]; pos[0] += 1; w = mulx(); v = T.add(v, w) if o == '+' else T.sub(v, w)
            return v
        return add()
    def sort(s, t):
        t = t.replace('const ', '').replace(' const', '').strip()
        if t in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'size_t', 'std::size_t', 'char', 'unsigned char', 'ptrdiff_t', 'unsigned short'): return 'I'
        if t in ('double', 'float', 'long double'): return 'R'
        if t == 'bool': return 'B'
        return None
    def unsigned(s, t): return t.replace('const ', '').strip() in ('unsigned int', 'unsigned long', 'unsigned long long', 'size_t', 'std::size_t', 'unsigned short', 'unsigned char')
    def zero(s, t):
        k = s.sort(t)
        if k == 'I': return 0
        if k == 'R': return Fraction(0)
        if k == 'B': return False
        if t.strip().endswith('*'): return Ptr(None, None)
        return s.default(t)
    def default(s, t):
        """default-initialised value of a type"""
        t = t.replace('const ', '').strip()
        if s.sort(t) or t.endswith('*') or t.endswith('* const') or t.endswith('*__restrict') or '*' in t.split('<')[0].split('[')[0]: return UNDEF
        m = re.match(r'^(.*?)\s*\[(.*)\]$', t)
        if m:
            cnt = s.arrsize(m.group(2))
            if not isinstance(cnt, int):
                return AVec(cnt, lambda i: UNDEF, m.group(1))
            if cnt < 0: raise Unsupported('negative array size')
            return LVec([s.default(m.group(1)) for _ in range(cnt)], m.group(1))
        b = s.builtin_default(t)
        if b is not None: return b
        return s.construct(simple(t), [], None)
    def builtin_default(s, t):
        st = simple(t)
        if st.startswith('vector<'): return LVec((), vec_elem(t))
        if st in ('string', 'basic_string<char>') or st.startswith('basic_string<char'): return Str(())
        if st.startswith('basic_stringstream') or st in ('stringstream', 'ostringstream', 'ofstream') or st.startswith('basic_ofstream') or st.startswith('basic_ostringstream'): return Stream()
        if st.startswith('map<'):
            from .builtins import MapV
            return MapV.empty()
        m = re.match(r'^array<(.*),(\d+)(?:UL|U|L)?>$', st)
        if m: return LVec([s.default(m.group(1)) for _ in range(int(m.group(2)))], m.group(1))
        return None
    def x_IfStmt(s, n):
        inner = n['inner']
        i = 0
        if n.get('hasInit') or n.get('hasVar'):
            s.stmt(inner[0]); i = 1
        c = s.truth(s.rv(inner[i]))
        if s.branch(c): s.stmt(inner[i + 1])
        elif n.get('hasElse'): s.stmt(inner[i + 2])
    def truth(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, Node):
            if v.sort == 'B': return v
            return T.ne(v, 0 if v.sort == 'I' else Fraction(0))
        if isinstance(v, Ptr): return v.base is not None
        if isinstance(v, Undef): raise Unsupported('branch on an uninitialised value')
        raise Unsupported('condition %r' % (v,))
    def x_ReturnStmt(s, n):
        inner = n.get('inner', [])
        if not inner: raise Return(None)
        e = inner[0]
        if s.fr.retref: v = s.ev(e)
        else: v = s.rv(e)
        raise Return(v)
    def x_BreakStmt(s, n): raise Break()
    def x_ContinueStmt(s, n): raise Continue()
    def x_ForStmt(s, n):
        inner = n['inner']          # init, condvar, cond, inc, body
        if inner[0].get('kind'): s.stmt(inner[0])
        from . import loops
        loops.run(s, n, inner[2] if inner[2].get('kind') else None, inner[3] if inner[3].get('kind') else None, inner[4])
    def x_WhileStmt(s, n):
        inner = n['inner']
        from . import loops
        if n.get('hasVar'): raise Unsupported('while with declaration')
        loops.run(s, n, inner[0], None, inner[1])
    def x_DoStmt(s, n):
        body, cond = n['inner']
        from . import loops
        for _ in range(64):
            try: s.stmt(body)
            except Break: return
            except Continue: pass
            c = s.truth(s.rv(cond))
            if c is True: continue
            if c is False: return
            return loops.run(s, n, cond, None, body)
        raise Unsupported('do loop')
    def x_CXXForRangeStmt(s, n):
        from . import loops
        loops.range_for(s, n)
    def x_SwitchStmt(s, n):
        inner = n['inner']
        v = s.rv(inner[0]); body = inner[1]
        labels = []; flat = []
        def flatten(c):
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labels.append((len(flat), s.rv(c['inner'][0]))); c = c['inner'][1]
                else:
                    labels.append((len(flat), None)); c = c['inner'][0]
            flat.append(c)
        for c in body.get('inner', []): flatten(c)
        start = None
        for i, l in labels:
            if l is not None and s.branch(T.eq(v, l)): start = i; break
        if start is None:
            d = [i for i, l in labels if l is None]
            if not d: return
            start = d[0]
        try:
            for c in flat[start:]: s.stmt(c)
        except Break: pass
    def x_CXXTryStmt(s, n):
        inner = n['inner']
        try: s.stmt(inner[0])
        except Throw as t:
            for h in inner[1:]:
                hi = h['inner']; decl = hi[0] if hi[0].get('kind') == 'VarDecl' else None
                cn = simple(qual(decl)) if decl else None
                if cn is None or cn == simple(t.cls) or (cn == 'exception' and simple(t.cls) == 'exception'):
                    if decl and decl.get('name'): s.fr.vars[decl['id']] = s.alloc(t.val)
                    s.stmt(hi[-1]); return
            raise
    def omp(s, n):
        from . import loops
        loops.omp(s, n)
    # ---- expressions
    def rv(s, n):
        """value of an expression (loads lvalues)"""
        v = s.ev(n)
        if isinstance(v, Ref): v = s.load(v)
        return v
    def num(s, n):
        v = s.rv(n)
        if isinstance(v, Undef):
            s.fail('read of an uninitialised value'); raise PathEnd()
        if isinstance(v, Unk): raise Unsupported(v.why)
        return v
    def ev(s, n):
        k = n.get('kind')
        m = getattr(s, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + str(k))
        return m(n)
    def _sub(s, n): return s.ev(n['inner'][0])
    e_ExprWithCleanups = _sub
    e_ParenExpr = _sub
    e_CXXBindTemporaryExpr = _sub
    e_ConstantExpr = _sub
    e_SubstNonTypeTemplateParmExpr = _sub
    def e_MaterializeTemporaryExpr(s, n):
        v = s.ev(n['inner'][0])
        return v if isinstance(v, Ref) else s.alloc(v)
    def e_IntegerLiteral(s, n): return int(n['value'])
    def e_CharacterLiteral(s, n): return Str((chr(int(n['value'])),))
    def e_FloatingLiteral(s, n):
        f = float(n['value'])
        return Fraction(repr(f)) if f == f and abs(f) != float('inf') else s._inf()
    def _inf(s): raise Unsupported('infinity')
    def e_CXXBoolLiteralExpr(s, n): return bool(n['value'])
    def e_StringLiteral(s, n):
        import json
        try: return Str((json.loads(n['value']),))
        except Exception: return Str((n['value'].strip('"'),))
    def e_CXXNullPtrLiteralExpr(s, n): return Ptr(None, None)
    def e_GNUNullExpr(s, n): return Ptr(None, None)
    def e_ImplicitValueInitExpr(s, n): return s.zero(qual(n))
    def e_CXXScalarValueInitExpr(s, n): return s.zero(qual(n))
    def e_InitListExpr(s, n):
        t = qual(n)
        inner = [c for c in n.get('inner', [])]
        m = re.match(r'^(.*?)\s*\[(.*)\]$', t)
        if 'array_filler' in n and not inner: inner = [c for c in n['array_filler'] if c.get('kind') not in ('ImplicitValueInitExpr',)]
        if m:
            items = [s.rv(c) for c in inner]
            cnt = s.arrsize(m.group(2))
            if not isinstance(cnt, int): raise Unsupported('initialised VLA')
            return LVec(items + [s.zero(m.group(1)) for _ in range(cnt - len(items))], m.group(1))
        if s.sort(t): return s.rv(inner[0]) if inner else s.zero(t)
        raise Unsupported('initialiser list of ' + t)
    def e_CXXThisExpr(s, n): return Ptr(s.fr.this, None)
    def e_DeclRefExpr(s, n):
        d = n['referencedDecl']; i = d['id']; k = d['kind']
        if k == 'EnumConstantDecl':
            tu = s.fr.fn.tu
            if i in tu.enums: return tu.enums[i]
            for t in s.prog.tus.values():
                for j, v in t.enums.items():
                    if t.ids[j].get('name') == d.get('name'): return v
            raise Unsupported('enum constant ' + d.get('name', ''))
        for fr in reversed(s.frames):
            if i in fr.vars: return fr.vars[i]
            if fr.lex is None: break
        if k in ('FunctionDecl', 'CXXMethodDecl'): return FnVal(d)
        if k == 'VarDecl':
            # global or static member
            nm = 'G_' + d.get('name', '')
            if nm in s.store: return Ref(nm)
            dd = s.fr.fn.tu.ids.get(i)
            if dd is not None and (qual(dd).startswith('const') or dd.get('constexpr')):
                ini = next((c for c in dd.get('inner', []) if 'Expr' in c.get('kind', '') or 'Literal' in c.get('kind', '') or 'Operator' in c.get('kind', '')), None)
                if ini is not None:
                    s.store[nm] = s.rv(ini); return Ref(nm)
            if d.get('name') in ('cout', 'cerr', 'clog'):
                s.store.setdefault(nm, Stream()); return Ref(nm)
            raise Unsupported('global variable ' + d.get('name', ''))
        raise Unsupported('reference to ' + k + ' ' + d.get('name', ''))
    def e_MemberExpr(s, n):
        b = s.ev(n['inner'][0])
        if n.get('isArrow'):
            if isinstance(b, Ref): b = s.load(b)
            if isinstance(b, Ptr): b = s.deref(b)
            elif isinstance(b, MapIt): b = s.mapit(b)
            else: raise Unsupported('-> on %r' % (b,))
        if not isinstance(b, Ref): b = s.alloc(b)
        nm = n['name']
        mid = n.get('referencedMemberDecl')
        if 'bound member function' in qual(n): return FnVal((n, mid, nm), b)
        d = s.fr.fn.tu.ids.get(mid)
        if d is not None and d.get('kind') == 'VarDecl':
            return s.e_DeclRefExpr({'referencedDecl': d})
        t = None
        v = s.store.get(b.root)
        # reference members hold a Ref
        try: w = s._get(s.store[b.root], b.path + (nm,), b)
        except Unsupported: raise
        if isinstance(w, Ref): return w
        return b.at(nm)
    def deref(s, p):
        if isinstance(p, Undef):
            s.fail('dereference of an uninitialised pointer'); raise PathEnd()
        if not isinstance(p, Ptr): raise Unsupported('dereference of %r' % (p,))
        if p.base is None:
            s.fail('null dereference'); raise PathEnd()
        return p.base if p.off is None else p.base.idx(p.off)
    def e_ImplicitCastExpr(s, n):
        ck = n.get('castKind'); c = n['inner'][0]
        if ck == 'LValueToRValue':
            v = s.ev(c)
            if isinstance(v, Ref): v = s.load(v)
            if isinstance(v, Undef):
                s.fail('read of an uninitialised value'); raise PathEnd()
            if isinstance(v, Unk): raise Unsupported(v.why)
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'BitCast', 'Dynamic', 'BuiltinFnToFnPtr', 'ToVoid', 'AtomicToNonAtomic', 'Dependent'):
            return s.ev(c)
        if ck == 'ArrayToPointerDecay':
            v = s.ev(c)
            if isinstance(v, Str): return v
            if isinstance(v, Ref): return Ptr(v, 0)
            raise Unsupported('array decay of %r' % (v,))
        if ck in ('NullToPointer',): return Ptr(None, None)
        v = s.num(c); t = qual(n)
        if ck == 'IntegralCast':
            if isinstance(v, Str): return v
            return s.wrap(v, t, qual(c))
        if ck == 'IntegralToFloating':
            v = T.to_real(T.to_int(v) if T.sort_of(v) == 'B' else v)
            return s.single(v) if t.replace('const ', '').strip() == 'float' else v
        if ck == 'FloatingToIntegral': return T.to_int(v)
        if ck == 'FloatingCast': return s.single(v) if t.replace('const ', '').strip() == 'float' and qual(c).replace('const ', '').strip() != 'float' else v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return s.truth(v)
        if ck == 'BooleanToSignedIntegral': return T.to_int(v)
        raise Unsupported('cast ' + str(ck))
    def single(s, v):
        """rounding to single precision: exact for representable constants, otherwise an unspecified function"""
        if isinstance(v, Fraction):
            f = struct.unpack('f', struct.pack('f', float(v)))[0] if abs(v) < 10**38 else None
            if f is not None and Fraction(f) == v: return v
        return T.app('single', [v], 'R')
    def wrap(s, v, t, frm=''):
        if T.sort_of(v) == 'B': v = T.to_int(v)
        if s.unsigned(t):
            if isinstance(v, int): return v % (1 << 64)
            if s.unsigned(frm): return v
            if s.decide(T.le(0, v)) is True: return v
            return T.ite(T.le(0, v), v, T.add(v, 1 << 64))
        return v
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    def e_CXXDynamicCastExpr(s, n): return s.ev(n['inner'][0])
    def e_UnaryOperator(s, n):
        o = n['opcode']; c = n['inner'][0]
        if o == '&':
            v = s.ev(c)
            if isinstance(v, FnVal): return v
            if not isinstance(v, Ref): raise Unsupported('address of a value')
            if v.path and isinstance(v.path[-1], tuple): return Ptr(Ref(v.root, v.path[:-1]), v.path[-1][1])
            return Ptr(v, None)
        if o == '*':
            v = s.rv(c)
            if isinstance(v, MapIt): return s.mapit(v)
            return s.deref(v)
        if o in ('++', '--'):
            r = s.ev(c)
            if not isinstance(r, Ref): raise Unsupported('++ on a value')
            v = s.load(r)
            if isinstance(v, Undef): s.fail('read of an uninitialised value'); raise PathEnd()
            one = 1 if o == '++' else -1
            if isinstance(v, Ptr): w = Ptr(v.base, T.add(v.off, one))
            else: w = s.wrap(T.add(v, one), qual(c)) if T.sort_of(v) == 'I' else T.add(v, Fraction(one))
            s.put(r, w)
            return v if n.get('isPostfix') else r
        v = s.num(c)
        if o == '-': return T.neg(T.to_int(v) if T.sort_of(v) == 'B' else v)
        if o == '+': return v
        if o == '!': return T.lnot(s.truth(v))
        raise Unsupported('unary ' + o)
    def arith(s, o, a, b, t):
        if isinstance(a, (Ptr, Undef)) or isinstance(b, (Ptr, Undef)): return s.ptr_arith(o, a, b)
        if isinstance(a, (Unk,)) or isinstance(b, Unk): raise Unsupported('unknown operand')
        if isinstance(a, (Str,)) or isinstance(b, Str): raise Unsupported('string arithmetic')
        if isinstance(a, MapIt) or isinstance(b, MapIt):
            c = a.key is None and b.key is None or (a.key is not None and b.key is not None)
            return c if o == '==' else not c
        if T.sort_of(a) == 'B' and o not in ('==', '!='): a = T.to_int(a)
        if T.sort_of(b) == 'B' and o not in ('==', '!='): b = T.to_int(b)
        if o in ('==', '!='):
            e = T.eq(a, b)
            return e if o == '==' else T.lnot(e)
        if o == '<': return T.lt(a, b)
        if o == '<=': return T.le(a, b)
        if o == '>': return T.gt(a, b)
        if o == '>=': return T.ge(a, b)
        if o == '+': r = T.add(a, b)
        elif o == '-': r = T.sub(a, b)
        elif o == '*': r = T.mul(a, b)
        elif o == '/':
            if T.sort_of(a) == 'R' or T.sort_of(b) == 'R':
                if T.is_const(b) and b == 0: raise Unsupported('division by zero')
                r = T.div(a, b)
            else:
                if b == 0: s.fail('division by zero'); raise PathEnd()
                if isinstance(b, Node): s.inb(T.ne(b, 0), 'divisor not zero')
                r = T.tdiv(a, b)
        elif o == '%':
            if b == 0: s.fail('division by zero'); raise PathEnd()
            if isinstance(b, Node): s.inb(T.ne(b, 0), 'divisor not zero')
            r = T.tmod(a, b)
        elif o in ('<<', '>>') and isinstance(a, int) and isinstance(b, int): r = a << b if o == '<<' else a >> b
        elif o in ('&', '|', '^') and isinstance(a, int) and isinstance(b, int): r = {'&': a & b, '|': a | b, '^': a ^ b}[o]
        else: raise Unsupported('operator ' + o)
        if o == '-' and s.unsigned(t): r = s.wrap(r, t)
        return r
    def ptr_arith(s, o, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            s.fail('read of an uninitialised value'); raise PathEnd()
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if o == '-' and a.base == b.base: return T.sub(a.off, b.off)
            if o in ('==', '!='):
                if a.base is None or b.base is None: e = a.base is None and b.base is None
                elif a.base != b.base: e = False
                else: e = T.eq(a.off, b.off) if a.off is not None else True
                return e if o == '==' else T.lnot(e)
            if a.base == b.base and o in ('<', '<=', '>', '>='): return s.arith(o, a.off, b.off, 'int')
            raise Unsupported('pointer ' + o)
        if isinstance(b, Ptr): a, b = b, a
        if a.off is None:
            if b == 0: return a
            raise Unsupported('pointer arithmetic')
        if o == '+': return Ptr(a.base, T.add(a.off, b))
        if o == '-': return Ptr(a.base, T.sub(a.off, b))
        raise Unsupported('pointer ' + o)
    def e_BinaryOperator(s, n):
        o = n['opcode']; l, r = n['inner']
        if o == '=':
            v = s.rv(r); ref = s.ev(l)
            if isinstance(v, Unk): raise Unsupported(v.why)
            s.put(ref, v); return ref
        if o == ',':
            s.ev(l); return s.ev(r)
        if o in ('&&', '||'):
            a = s.truth(s.num(l))
            if a is (o == '||'): return a
            if isinstance(a, bool): return s.truth(s.num(r))
            if pure(r):
                # evaluate the right operand under the assumption that it is reached
                b = s.guarded(a if o == '&&' else T.lnot(a), lambda: s.truth(s.num(r)))
                return T.land(a, b) if o == '&&' else T.lor(a, b)
            if s.branch(a): return s.truth(s.num(r)) if o == '&&' else True
            return False if o == '&&' else s.truth(s.num(r))
        a = s.num(l); b = s.num(r)
        t = qual(n)
        return s.arith(o, a, b, t)
    def guarded(s, c, f):
        k = len(s.pc); s.pc.append(c)
        try: r = f()
        except Throw:
            del s.pc[k]
            if s.branch(c): raise
            return False
        except BaseException:
            del s.pc[k]; raise
        del s.pc[k]
        return r
    def e_CompoundAssignOperator(s, n):
        o = n['opcode'][:-1]; l, r = n['inner']
        b = s.num(r); ref = s.ev(l); a = s.load(ref)
        if isinstance(a, Undef): s.fail('read of an uninitialised value'); raise PathEnd()
        if isinstance(a, Unk): raise Unsupported(a.why)
        lt = qual(l)
        v = s.arith(o, a, b, lt)
        k = s.sort(lt)
        if k == 'I' and T.sort_of(v) == 'R': v = T.to_int(v)
        if k == 'R' and T.sort_of(v) == 'I': v = T.to_real(v)
        s.put(ref, v)
        return ref
    def e_ConditionalOperator(s, n):
        c, a, b = n['inner']
        cv = s.truth(s.num(c))
        if isinstance(cv, bool): return s.ev(a if cv else b)
        if s.sort(qual(n)) not in (None, 'I') and pure(a) and pure(b):
            x = s.guarded(cv, lambda: s.rv(a)); y = s.guarded(T.lnot(cv), lambda: s.rv(b))
            if isinstance(x, Undef) or isinstance(y, Undef): raise Unsupported('conditional on an uninitialised value')
            return T.ite(cv, x, y)
        return s.ev(a if s.branch(cv) else b)
    def e_ArraySubscriptExpr(s, n):
        b = s.rv(n['inner'][0]); i = s.num(n['inner'][1])
        if isinstance(b, Undef): s.fail('use of an uninitialised pointer'); raise PathEnd()
        if not isinstance(b, Ptr): raise Unsupported('subscript of %r' % (b,))
        if b.base is None: s.fail('null dereference'); raise PathEnd()
        if b.off is None:
            if i == 0: return b.base
            raise Unsupported('subscript of an object pointer')
        return b.base.idx(T.add(b.off, i))
    def e_UnaryExprOrTypeTraitExpr(s, n):
        t = (n.get('argType') or {}).get('qualType', '')
        sz = {'double': 8, 'int': 4, 'float': 4, 'char': 1}.get(t)
        if sz is None: raise Unsupported('sizeof ' + t)
        return sz
    def e_CXXThrowExpr(s, n):
        inner = n.get('inner', [])
        if not inner: raise Unsupported('rethrow')
        v = s.throwval(inner[0])
        raise Throw(qual(inner[0]), v)
    def throwval(s, n):
        try: return s.rv(n)
        except Unsupported:
            return None
    def e_CXXDefaultArgExpr(s, n): raise Unsupported('default argument without context')
    def e_CXXDefaultInitExpr(s, n): return s._sub(n)
    def e_CXXNewExpr(s, n):
        inner = n.get('inner', [])
        if n.get('isArray'): raise Unsupported('new[]')
        v = s.rv(inner[0]) if inner else s.default(qual(n).rstrip('* '))
        return Ptr(s.alloc(v, 'new_'), None)
    def e_CXXDeleteExpr(s, n): return None
    def e_LambdaExpr(s, n): raise Unsupported('lambda')
    def e_QK_cond(s, n): return n['f']()
    e_QK_body = e_QK_cond
    e_QK_inc = e_QK_cond
    def guardless(s, f):
        rec, s.rec = s.rec, []
        try: return f()
        finally: s.rec = rec
    # ---- construction
    def e_CXXConstructExpr(s, n):
        t = qual(n)
        args = n.get('inner', [])
        m = re.match(r'^(.*?)\s*\[(\d+)\]$', t)
        if m: return LVec([s.default(m.group(1)) for _ in range(int(m.group(2)))], m.group(1))
        from . import builtins
        b = builtins.construct(s, t, n, args)
        if b is not NotImplemented: return b
        ct = (n.get('ctorType') or {}).get('qualType')
        return s.construct(simple(t), args, ct)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def ctors(s, cls):
        out = {}
        for tu in [s.fr.fn.tu] + [t for t in s.prog.tus.values()] if s.frames else s.prog.tus.values():
            for f in tu.fns.values():
                if f.kind == 'CXXConstructorDecl' and f.cls == cls:
                    o = out.get(f.mangled)
                    if o is None or (o.body is None and f.body is not None): out[f.mangled] = f
            if out: break
        return list(out.values())
    def construct(s, cls, args, ctype, this=None):
        """a new object of class cls; args are AST nodes"""
        cs = s.ctors(cls)
        f = None
        if ctype is not None:
            c = [x for x in cs if x.type == ctype]
            if not c: c = [x for x in cs if norm_sig(x.type) == norm_sig(ctype)]
            if len(c) >= 1: f = c[0]
        else:
            c = [x for x in cs if not x.params or all('init' in p for p in x.params)]
            if c: f = c[0]
        ref = this if this is not None else s.alloc(Obj(cls, {}), 'o_' + cls.split('<')[0])
        if f is None:
            if len(args) == 1 and simple(qual(args[0])) == cls:
                src = s.ev(args[0])
                if isinstance(src, Obj): v = src if src.cls == cls else s.slice(src, cls)
                else: v = s.copy_obj(src, cls)
                s.merge(ref, cls, v)
            elif not args: s.init_fields(ref, cls, None)
            else: raise Unsupported('no constructor of %s for %s' % (cls, ctype))
        else:
            vals = s.args(f, args)
            s.run_ctor(f, ref, vals)
        return s.store[ref.root] if this is None else None
    def merge(s, ref, cls, v):
        if not ref.path and not s._isderived(ref, cls): s.store[ref.root] = v
        else:
            o = s._get(s.store[ref.root], ref.path, ref)
            f = dict(o.f); f.update(v.f)
            s.store[ref.root] = s._set(s.store[ref.root], ref.path, Obj(o.cls, f))
    def _isderived(s, ref, cls):
        o = s.store.get(ref.root)
        return isinstance(o, Obj) and o.cls != cls
    def all_fields(s, cls):
        c = s.prog.classes(cls)
        if c is None: return []
        out = []
        for b in c.bases:
            if b != cls: out += s.all_fields(b)
        return out + c.fields
    def slice(s, o, cls):
        fs = s.all_fields(cls)
        return Obj(cls, {k: o.f[k] for k in fs if k in o.f})
    def derives(s, cls, base):
        if cls == base: return True
        c = s.prog.classes(cls)
        return c is not None and any(s.derives(b, base) for b in c.bases if b != cls)
    def run_ctor(s, f, ref, vals):
        c = s.contract_for(f)
        if c is not None:
            s.used.add(c)
            return c.apply(s, ref, vals)
        d = s.prog.definition(f)
        if d is None and s.prog.load_all(): d = s.prog.definition(f)
        if d is None or d.body is None or d.defaulted:
            if f.params and len(f.params) == 1 and simple(f.ptypes[0]) == f.cls:
                src = vals[0]
                s.merge(ref, f.cls, s.copy_obj(src, f.cls) if isinstance(src, Ref) else src); return
            if not f.params:
                s.init_fields(ref, f.cls, None); return
            raise Unsupported('no body for constructor of ' + f.cls)
        s.inlined.add(f.qname)
        fr = Frame(d, ref); s.frames.append(fr)
        try:
            for p, a in zip(d.params, vals): s.bind(fr, p, a)
            s.init_fields(ref, d.cls, d)
            try: s.stmt(d.body)
            except Return: pass
        finally: s.frames.pop()
    def init_fields(s, ref, cls, fn):
        C = s.prog.classes(cls)
        if C is None: raise Unsupported('class ' + cls)
        binit = {}; finit = {}
        for i in (fn.inits if fn else []):
            e = (i.get('inner') or [None])[0]
            if 'anyInit' in i: finit[i['anyInit']['name']] = e
            elif 'baseInit' in i: binit[simple(i['baseInit'].get('desugaredQualType') or i['baseInit']['qualType'])] = e
            else: raise Unsupported('delegating constructor')
        cur = s._get(s.store[ref.root], ref.path, ref)
        mycls = cur.cls if isinstance(cur, Obj) else cls
        for b in C.bases:
            if b == 'exception' and s.prog.classes(b) is None or b == cls: continue
            if s.prog.classes(b) is None: continue
            s.setcls(ref, b)
            e = binit.get(b)
            if e is not None: s.base_init(ref, b, e)
            else: s.construct_default(ref, b)
        s.setcls(ref, cls)
        for k in C.fields:
            t = C.ftypes[k]
            e = finit.get(k)
            if e is None and k in C.finit: e = C.finit[k]
            if e is not None:
                v = s.ev(e) if t.rstrip().endswith('&') else s.rv(e)
            else:
                v = s.default(t)
            s.rawset(ref.at(k), v)
        s.setcls(ref, cls)
    def rawset(s, ref, v): s.store[ref.root] = s._set(s.store[ref.root], ref.path, v)
    def setcls(s, ref, cls):
        o = s._get(s.store[ref.root], ref.path, ref)
        s.rawset(ref, Obj(cls, o.f if isinstance(o, Obj) else {}))
    def base_init(s, ref, b, e):
        while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'): e = e['inner'][0]
        if e['kind'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): raise Unsupported('base initialiser ' + e['kind'])
        s.construct(b, e.get('inner', []), (e.get('ctorType') or {}).get('qualType'), this=ref)
    def construct_default(s, ref, b):
        s.construct(b, [], None, this=ref)
    def copy_obj(s, src, cls):
        """implicit memberwise copy of the object at src"""
        C = s.prog.classes(cls)
        o = s.load(src)
        if C is None: return o
        tmp = s.alloc(Obj(cls, {}), 'c_')
        for b in C.bases:
            if s.prog.classes(b) is None or b == cls: continue
            uc = [f for f in s.ctors(b) if len(f.params) == 1 and simple(f.ptypes[0]) == b and not f.defaulted and not f.ptypes[0].rstrip().endswith('&&')]
            s.setcls(tmp, b)
            if uc: s.run_ctor(uc[0], tmp, [src])
            else: s.merge2(tmp, s.copy_obj(src, b))
        s.setcls(tmp, cls)
        for k in C.fields:
            t = C.ftypes[k]; v = o.f[k]
            if isinstance(v, Obj) and s.prog.classes(v.cls) is not None and not t.rstrip().endswith('*'):
                v = s.copy_val(src.at(k), v.cls)
            s.rawset(tmp.at(k), v)
        return s.store[tmp.root]
    def merge2(s, ref, v):
        o = s.store[ref.root]; f = dict(o.f); f.update(v.f); s.store[ref.root] = Obj(o.cls, f)
    def copy_val(s, src, cls):
        uc = [f for f in s.ctors(cls) if len(f.params) == 1 and simple(f.ptypes[0]) == cls and not f.defaulted and not f.ptypes[0].rstrip().endswith('&&')]
        if uc:
            t = s.alloc(Obj(cls, {}), 'c_'); s.run_ctor(uc[0], t, [src]); return s.store[t.root]
        return s.copy_obj(src, cls)
    # ---- calls
    def args(s, fn, nodes):
        out = []
        for k, a in enumerate(nodes):
            if k >= len(fn.params): raise Unsupported('variadic call')
            t = fn.ptypes[k]
            if a['kind'] == 'CXXDefaultArgExpr':
                v = s.default_arg(fn, k)
            elif t.rstrip().endswith('&'):
                v = s.ev(a)
                if not isinstance(v, Ref): v = s.alloc(v)
            else: v = s.rv(a)
            out.append(v)
        for k in range(len(nodes), len(fn.params)): out.append(s.default_arg(fn, k))
        return out
    def default_arg(s, fn, k):
        cands = [fn] + [g for tu in s.prog.tus.values() for g in tu.fns.values() if g.mangled and g.mangled == fn.mangled] + [g for tu in s.prog.tus.values() for g in tu.fns.values() if g.qname == fn.qname and len(g.params) == len(fn.params)]
        for g in cands:
            e = [c for c in g.params[k].get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
            if e:
                s.frames.append(Frame(g, s.frames[-1].this if s.frames else None))
                try:
                    v = s.ev(e[0])
                    if isinstance(v, Ref) and not fn.ptypes[k].rstrip().endswith('&'): v = s.load(v)
                    return v
                finally: s.frames.pop()
        raise Unsupported('default argument of ' + fn.qname)
    def fn_by_id(s, d):
        tu = s.fr.fn.tu
        i = d['id'] if isinstance(d, dict) else d
        f = tu.fns.get(i)
        return f
    def e_CallExpr(s, n):
        callee = n['inner'][0]; args = n['inner'][1:]
        v = s.ev(callee)
        if not isinstance(v, FnVal): raise Unsupported('indirect call')
        d = v.fn
        f = s.fn_by_id(d) if isinstance(d, dict) else None
        if f is None and isinstance(d, dict):
            from . import builtins
            r = builtins.call(s, d.get('name', ''), d, n, args)
            if r is not NotImplemented: return r
            f = s.global_fn(d)
        if f is None: raise Unsupported('call of ' + str(d.get('name') if isinstance(d, dict) else d))
        s.loopfn(f)
        return s.finish(f, s.call(f, None, s.args(f, args)), n)
    def loopfn(s, f): pass
    def global_fn(s, d):
        nm = d.get('name', '')
        tu = s.fr.fn.tu
        base = s.prog.tus.get(tu.path.split('#')[0], tu)
        sub = s.prog.fetch_global(base, nm) or s.prog.tus.get(base.path + '#' + nm)
        want = norm_sig((d.get('type') or {}).get('qualType', ''))
        for t in ([sub] if sub else []):
            c = [f for f in t.fns.values() if f.name == nm and norm_sig(f.type) == want]
            b = [f for f in c if f.body is not None]
            if b: return b[0]
        return None
    def finish(s, f, v, n):
        return v
    def dispatch(s, f, this, qualified):
        if qualified or not isinstance(this, Ref): return f
        try: o = s._get(s.store[this.root], this.path, this)
        except Unsupported: return f
        if not isinstance(o, Obj) or o.cls == f.cls: return f
        if not (f.virtual or s.is_virtual(f)): return f
        # most derived override
        def look(cls):
            c = s.prog.classes(cls)
            if c is None: return None
            for tu in s.prog.tus.values():
                for g in tu.fns.values():
                    if g.cls == cls and g.name == f.name and norm_sig(g.type) == norm_sig(f.type): return g
            for b in c.bases:
                if b != cls and s.derives(b, f.cls):
                    g = look(b)
                    if g is not None: return g
            return None
        if not s.derives(o.cls, f.cls): return f
        g = look(o.cls)
        return g or f
    def is_virtual(s, f):
        def up(cls):
            c = s.prog.classes(cls)
            if c is None: return False
            for tu in s.prog.tus.values():
                for g in tu.fns.values():
                    if g.cls == cls and g.name == f.name and norm_sig(g.type) == norm_sig(f.type) and g.virtual: return True
            return any(up(b) for b in c.bases if b != cls)
        return up(f.cls)
    def e_CXXMemberCallExpr(s, n):
        me = n['inner'][0]; args = n['inner'][1:]
        while me['kind'] == 'ParenExpr': me = me['inner'][0]
        v = s.ev(me)
        if not isinstance(v, FnVal): raise Unsupported('member call')
        node, mid, nm = v.fn
        f = s.fr.fn.tu.fns.get(mid)
        if f is None: f = s.method_by_name(v.this, nm, args, mid)
        if f is None:
            from . import builtins
            return builtins.method(s, v.this, nm, n, args)
        q = False
        base = node['inner'][0]
        b = base
        while b.get('kind') == 'ImplicitCastExpr': b = b['inner'][0]
        if b.get('kind') == 'CXXThisExpr' and b.get('implicit'):
            rg = node.get('range', {})
            bo, eo = off(rg.get('begin')), off(rg.get('end'))
            q = bo is not None and eo is not None and bo != eo
        f = s.dispatch(f, v.this, q)
        return s.call(f, v.this, s.args(f, args))
    def method_by_name(s, this, nm, args, mid):
        """a member of a class of the library called from a separately extracted function"""
        if '#' not in s.fr.fn.tu.path: return None
        o = s._get(s.store[this.root], this.path, this)
        if not isinstance(o, Obj): return None
        def look(cls):
            c = s.prog.classes(cls)
            if c is None: return None
            out = {}
            for tu in s.prog.tus.values():
                for g in tu.fns.values():
                    if g.cls == cls and g.name == nm and len(g.params) == len(args):
                        if g.mangled not in out or g.body is not None: out[g.mangled] = g
            if len(out) == 1: return next(iter(out.values()))
            if out: raise Unsupported('overloaded member ' + nm)
            for b in c.bases:
                g = look(b)
                if g is not None: return g
        return look(o.cls)
    def e_CXXOperatorCallExpr(s, n):
        c = n['inner'][0]; args = n['inner'][1:]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        d = c['referencedDecl']
        f = s.fn_by_id(d)
        nm = d.get('name', '')
        if f is None:
            from . import builtins
            r = builtins.operator(s, nm, n, args)
            if r is not NotImplemented: return r
            f = s.global_fn(d)
        if f is None: raise Unsupported(nm)
        if f.kind == 'CXXMethodDecl':
            this = s.ev(args[0])
            if not isinstance(this, Ref): this = s.alloc(this)
            if nm == 'operator=' and (f.defaulted or (s.prog.definition(f) is None and f.node.get('isImplicit'))):
                src = s.ev(args[1])
                s.assign(this, src, f.cls); return this
            f = s.dispatch(f, this, False)
            return s.call(f, this, s.args(f, args[1:]))
        return s.call(f, None, s.args(f, args))
    def assign(s, dst, src, cls):
        """implicit copy assignment"""
        v = s.copy_val_simple(src, cls)
        o = s.load(dst)
        f = dict(o.f); f.update(v.f)
        s.put(dst, Obj(o.cls, f))
    def copy_val_simple(s, src, cls):
        o = s.load(src) if isinstance(src, Ref) else src
        return s.slice(o, cls) if o.cls != cls else o

class Outcome:
    def __init__(s, conds, store, exc, rec, ghost): s.conds = conds; s.store = store; s.exc = exc; s.rec = rec; s.ghost = ghost

class Frame:
    def __init__(s, fn, this):
        s.fn = fn; s.this = this; s.vars = {}; s.names = {}; s.lex = None
        rt = fn.type.split('(')[0].strip() if fn is not None else ''
        s.retref = rt.endswith('&')

def off(l):
    if not l: return None
    if 'offset' in l: return l['offset']
    for k in ('expansionLoc', 'spellingLoc'):
        if k in l and 'offset' in l[k]: return l[k]['offset']
    return None
def vec_elem(t):
    m = re.search(r'vector<(.*)>', t)
    if not m: return '?'
    from .frontend import split_args
    return split_args(m.group(1))[0]
def norm_sig(t):
    t = t.replace(' noexcept', '')
    m = re.match(r'^(.*?)\((.*)\)\s*(const)?', t)
    if not m: return t
    from .frontend import split_args
    return '(' + ','.join(simple_t(a) for a in split_args(m.group(2))) + ')' + (m.group(3) or '')
IMPURE = ('CXXThrowExpr', 'CompoundAssignOperator', 'CXXNewExpr', 'CXXDeleteExpr', 'LambdaExpr')
def pure(n):
    """no side effects that must not happen when the operand is not reached"""
    k = n.get('kind')
    if k in IMPURE: return False
    if k == 'BinaryOperator' and n.get('opcode') == '=': return False
    if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): return False
    if k in ('CallExpr', 'CXXOperatorCallExpr'):
        pass
    if k == 'CXXMemberCallExpr':
        nm = n['inner'][0].get('name', '')
        if nm in ('next', 'push_back', 'clear', 'resize', 'increment', 'decrement'): return False
    return all(pure(c) for c in n.get('inner', []) if isinstance(c, dict))
