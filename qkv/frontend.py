"""Extraction: /repo's current sources -> clang AST (JSON) -> function and class tables.

Nothing is cached between runs: every run parses the working tree again.
Dropped by the extraction: destructors, comments, `__restrict__`, alignment hints,
and the text of std:: (modelled by qkv/builtins.py).
"""
import json, os, re, subprocess, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('QK_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = '/usr/lib/llvm-18/bin/clang++'
if not os.path.exists(CLANG):
    CLANG = '/usr/bin/clang++'

class ExtractionError(Exception):
    pass

def clang_cmd(f, flt='qk', defs=('-D_QK_RANGE_CHECK_=1',), extra=()):
    return [CLANG, '-std=c++11', '-fsyntax-only', '-w', '-fopenmp', *defs, '-I' + HERE + '/stub', '-I' + REPO + '/src',
            '-include', HERE + '/inst.h', *extra, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, f]

_dec = json.JSONDecoder()
def _docs(t):
    i = 0; n = len(t)
    while True:
        while i < n and t[i] in ' \n\r\t': i += 1
        if i >= n: return
        if t[i] != '{':                       # "Dumping qk:" headers
            i = t.index('\n', i) + 1 if '\n' in t[i:] else n
            continue
        o, i = _dec.raw_decode(t, i)
        yield o

FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

def simple(name):
    """last component of a (possibly templated, qualified) type name, without cv/ref"""
    t = name.strip()
    for k in ('const ', 'volatile ', 'struct ', 'class '):
        t = t.replace(k, '')
    t = t.replace(' const', '').strip()
    t = t.rstrip('&* ').strip()
    # split template args
    m = re.match(r'^([\w:]+)\s*<(.*)>$', t)
    if m:
        base = m.group(1).split('::')[-1]
        if base == 'basic_string': return 'string'
        return base + '<' + ','.join(simple(a) for a in split_args(m.group(2))) + '>'
    return t.split('::')[-1]

def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch == '<': d += 1
        if ch == '>': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def qual(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''

class Fn:
    def __init__(s, tu, node, cls, ns):
        s.tu = tu; s.node = node; s.cls = cls; s.ns = ns
        s.name = node.get('name', ''); s.mangled = node.get('mangledName', '')
        s.kind = node['kind']
        s.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        s.body = next((c for c in node.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        s.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        s.virtual = node.get('virtual', False)
        s.const = s.type.rstrip().endswith('const')
        s.defaulted = node.get('explicitlyDefaulted') or node.get('isImplicit')
    @property
    def type(s): return (s.node.get('type') or {}).get('qualType', '')
    @property
    def qname(s): return (s.cls + '::' if s.cls else '') + s.name
    @property
    def ptypes(s): return [qual(p) for p in s.params]
    def loc(s):
        l = s.node.get('loc', {}); l = l.get('expansionLoc', l)
        return l.get('line')

class Cls:
    def __init__(s, name): s.name = name; s.fields = []; s.bases = []; s.methods = []; s.ftypes = {}; s.finit = {}

class TU:
    def __init__(s, path, text):
        s.path = path; s.ids = {}; s.fns = {}; s.cls = {}; s.bymangled = {}; s.enums = {}
        n = 0
        for d in _docs(text):
            s._walk(d, None, ()); n += 1
        if n == 0: raise ExtractionError('empty AST for ' + path)
    def _walk(s, n, cls, ns):
        k = n.get('kind')
        if 'id' in n and k and (k.endswith('Decl')):
            s.ids[n['id']] = n
        if k in ('NamespaceDecl',):
            for c in n.get('inner', []): s._walk(c, None, ns + (n.get('name', ''),))
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        t = c.get('type') or {}
                        args.append(simple(t.get('desugaredQualType') or t.get('qualType') or '?'))
                name = name + '<' + ','.join(args) + '>'
            if n.get('completeDefinition'):
                C = s.cls.setdefault(name, Cls(name))
                C.fields = []; C.bases = [simple((b['type'].get('desugaredQualType') or b['type']['qualType'])) for b in n.get('bases', [])]
                for c in n.get('inner', []):
                    if c.get('kind') == 'FieldDecl':
                        C.fields.append(c['name']); C.ftypes[c['name']] = qual(c)
                        if c.get('inner'): C.finit[c['name']] = c['inner'][0]
            for c in n.get('inner', []): s._walk(c, name, ns)
            return
        if k in ('ClassTemplateDecl',):
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl': s._walk(c, cls, ns)
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') in FN and any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])): s._walk(c, cls, ns)
            return
        if k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    s.ids[c['id']] = c
                    val = _constval(c)
                    v = val if val is not None else v + 1
                    s.enums[c['id']] = v
            return
        if k in FN:
            c2 = cls
            if not c2:
                par = n.get('parentDeclContextId')
                if par and par in s.ids: c2 = s.ids[par].get('_clsname') or s.ids[par].get('name')
                prev = n.get('previousDecl')
                if prev and prev in s.fns: c2 = s.fns[prev].cls
                elif par and par in s.ids and s.ids[par].get('kind') == 'NamespaceDecl': c2 = None
                if k == 'FunctionDecl' and not (prev and prev in s.fns): c2 = None
            f = Fn(s, n, c2, ns)
            s.fns[n['id']] = f
            if f.mangled:
                old = s.bymangled.get(f.mangled)
                if old is None or (old.body is None and (f.body is not None)): s.bymangled[f.mangled] = f
            for p in f.params: s.ids[p['id']] = p
            s._locals(n)
            return
        if k == 'FriendDecl':
            for c in n.get('inner', []): s._walk(c, None, ns)
            return
        if k in ('LinkageSpecDecl',):
            for c in n.get('inner', []): s._walk(c, cls, ns)
            return
        if k == 'VarDecl':
            s.ids[n['id']] = n
    def _locals(s, n):
        st = list(n.get('inner', []))
        while st:
            c = st.pop()
            if 'id' in c and c.get('kind', '').endswith('Decl'): s.ids[c['id']] = c
            st.extend(x for x in c.get('inner', []) if isinstance(x, dict))

def _constval(n):
    if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        return int(n['value'])
    for c in n.get('inner', []):
        v = _constval(c)
        if v is not None: return v
    return None

def parse(path, flt='qk', defs=('-D_QK_RANGE_CHECK_=1',)):
    p = subprocess.run(clang_cmd(path, flt, defs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s:\n%s' % (path, p.stderr[-2000:]))
    return p.stdout

class Program:
    """all translation units needed by one check"""
    def __init__(s, files, defs=('-D_QK_RANGE_CHECK_=1',)):
        s.defs = defs; s.tus = {}; s.missing = set()
        s.add(files)
    def add(s, files):
        files = [f for f in files if f not in s.tus]
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda f: parse(os.path.join(REPO, 'src', f) if not f.startswith('/') else f, 'qk', s.defs), files))
        for f, t in zip(files, texts):
            s.tus[f] = TU(f, t)
    def all_sources(s):
        out = []
        for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)):
            r = os.path.relpath(f, REPO + '/src')
            if r.startswith('example/') or r == 'main.cpp': continue
            out.append(r)
        return out
    def classes(s, name):
        for tu in s.tus.values():
            c = tu.cls.get(name)
            if c and (c.fields or c.bases): return c
        for tu in s.tus.values():
            if name in tu.cls: return tu.cls[name]
        return None
    def definition(s, f):
        """the Fn with a body for a declaration"""
        if f.body is not None: return f
        for tu in s.tus.values():
            g = tu.bymangled.get(f.mangled)
            if g is not None and g.body is not None: return g
        return None
    def load_all(s):
        n = len(s.tus); s.add(s.all_sources()); return len(s.tus) > n
    def find(s, qname, ptypes=None, const=None):
        """functions (with a body if there is one) by Class::name and parameter types"""
        out = {}
        for tu in s.tus.values():
            for f in tu.fns.values():
                if f.qname == qname and (ptypes is None or [simple_t(p) for p in f.ptypes] == list(ptypes)) and (const is None or f.const == const):
                    o = out.get(f.mangled)
                    if o is None or (o.body is None and f.body is not None): out[f.mangled] = f
        return list(out.values())
    def fetch_global(s, tu, name):
        """a function outside of namespace qk, fetched on demand"""
        key = (tu.path, name)
        if key in s.missing: return None
        s.missing.add(key)
        path = os.path.join(REPO, 'src', tu.path) if not tu.path.startswith('/') else tu.path
        sub = TU.__new__(TU)
        sub.path = tu.path + '#' + name; sub.ids = {}; sub.fns = {}; sub.cls = {}; sub.bymangled = {}; sub.enums = {}
        for d in _docs(parse(path, name, s.defs)):
            sub._walk(d, None, ())
        s.tus[sub.path] = sub
        return sub

def simple_t(t):
    """compact parameter type for matching: keeps * and &"""
    t = t.replace('const ', '').replace(' const', '').replace('__restrict__', '').replace('__restrict', '').strip()
    suf = ''
    while t and t[-1] in '*& ':
        if t[-1] != ' ': suf = t[-1] + suf
        t = t[:-1]
    return simple(t) + suf
