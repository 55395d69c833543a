"""Mechanical translation of C++ functions (clang AST of /repo's current sources) to Verus
exec functions, with contracts spliced in from /verif/contracts/*.vc.
See DESIGN.md section 'What the extraction keeps and drops'."""
import re, sys, os, json, hashlib
import cppast

class Unsupported(Exception): pass

RUST_KW = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try old int nat real choose forall exists assert assume proof spec exec ghost tracked open closed requires ensures invariant decreases h Hp'.split())

INT = {'int': 'i32', 'long': 'i64', 'long long': 'i64', 'unsigned int': 'u32', 'unsigned long': 'u64',
       'unsigned long long': 'u64', 'bool': 'bool', 'char': 'i8', 'signed char': 'i8', 'unsigned char': 'u8', 'short': 'i16', 'unsigned short': 'u16',
       'size_t': 'u64', 'std::size_t': 'u64', 'std::vector::size_type': 'u64', 'size_type': 'u64', 'uint': 'u32', 'unsigned': 'u32'}
INTS = {'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'}

def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r'^(const|volatile|struct|class|enum)\s+', '', t)
        t = re.sub(r'\s*(const|volatile)$', '', t)
        t = t.strip()
        if o == t: return t

def split_targs(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch == '<' or ch == '(': d += 1
        if ch == '>' or ch == ')': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Types:
    def __init__(self, unit):
        self.u = unit
        self.alias = {'ZZ': 'NTL::ZZ', 'Integer': '__gmp_expr<mpz_t, mpz_t>', 'mpz_class': '__gmp_expr<mpz_t, mpz_t>',
                      'mpq_class': '__gmp_expr<mpq_t, mpq_t>', 'vec_ZZ': 'NTL::Vec<NTL::ZZ>', 'mat_ZZ': 'NTL::Mat<NTL::ZZ>',
                      'vec_vec_ZZ': 'NTL::Vec<NTL::Vec<NTL::ZZ>>', 'mpz_vector': 'std::vector<mpz_class>', 'mpq_vector': 'std::vector<mpq_class>',
                      'mpz_matrix': 'std::vector<std::vector<mpz_class>>', 'mpq_matrix': 'std::vector<std::vector<mpq_class>>'}
        self.alias.update(unit.typealias)

    def rust(self, q, d=None):
        """C++ type (qualType, desugared) -> Rust model type (references stripped)."""
        for cand in ([d] if d else []) + [q]:
            if cand is None: continue
            r = self._rust(cand)
            if r: return r
        raise Unsupported('type %r (%r)' % (q, d))

    def _rust(self, t):
        t = strip_cv(t)
        if t.endswith('&&'): t = strip_cv(t[:-2])
        if t.endswith('&'): t = strip_cv(t[:-1])
        if t in self.u.typemap: return self.u.typemap[t]
        if t in self.alias: return self._rust(self.alias[t])
        if t in INT: return INT[t]
        if t == 'void': return '()'
        if t == 'char *': return 'Str'
        if t == 'NTL::ZZ': return 'Z'
        m = re.match(r'^__gmp_expr<(.*)>$', t)
        if m:
            a = split_targs(m.group(1))[0]
            if a in ('mpz_t', '__mpz_struct[1]', 'mpz_srcptr'): return 'Z'
            if a in ('mpq_t', '__mpq_struct[1]'): return 'Q'
            return None
        m = re.match(r'^(?:NTL::|std::)?(?:Vec|vector)<(.*)>$', t)
        if m:
            a = split_targs(m.group(1))[0]
            r = self._rust(a)
            return 'Vc<%s>' % r if r else None
        if re.match(r'^(?:NTL::)?Mat<(NTL::)?ZZ>$', t): return 'Mt'
        if t.endswith('*'):
            e = strip_cv(t[:-1])
            if e in self.u.ptr_heap: return 'usize'
            if e in self.u.ptr_ref: return self._rust(e)
            if e in self.u.ptr_arr or e in ('int', 'long', 'bool', 'unsigned int', 'unsigned char') or self._rust(e) in ('Z', 'Q'):
                r = self._rust(e)
                return 'Vc<%s>' % r if r else None
            if e.endswith('*') and strip_cv(e[:-1]) in self.u.ptr_heap: return 'Vc<usize>'
            if e.endswith('*'):
                r = self._rust(e)
                return 'Vc<%s>' % r if r else None
            return None
        m = re.match(r'^(.*)\[\d*\]$', t)
        if m:
            r = self._rust(m.group(1))
            return 'Vc<%s>' % r if r else None
        if t in self.u.structs: return self.u.structs[t]['rust']
        if t in self.u.enums: return 'i32'
        b = t.split('::')[-1]
        if b != t and b in self.u.structs: return self.u.structs[b]['rust']
        return None

def is_ref(t): return t.strip().endswith('&')
def is_const_ref(t):
    t = t.strip()
    if not t.endswith('&'): return False
    b = t.rstrip('&').strip()
    return b.startswith('const ') or b.endswith(' const')

class Place:
    def __init__(self, root, path=(), ty=None, pre=()):
        self.root, self.path, self.ty, self.pre = root, tuple(path), ty, list(pre)
        # root: ('var', name, mutable) | ('heap', tyname, ptrname) | ('val', expr)
    def ext(self, *p, ty=None, pre=()):
        return Place(self.root, self.path + p, ty, self.pre + list(pre))
    def key(self):
        return (self.root[:2], tuple(x[1] if x[0] == 'f' else '#' for x in self.path)) if self.root[0] != 'heap' else (self.root, tuple(x[1] if x[0]=='f' else '#' for x in self.path))

def overlap(p, q):
    if p.root[0] == 'val' or q.root[0] == 'val': return False
    if p.root[0] != q.root[0]: return False
    if p.root[0] == 'var' and p.root[1] != q.root[1]: return False
    if p.root[0] == 'heap' and p.root[1] != q.root[1]: return False
    a = [x for x in p.key()[1]]; b = [x for x in q.key()[1]]
    n = min(len(a), len(b))
    return a[:n] == b[:n]

class Fn:
    """contract for one C++ function"""
    def __init__(self, cls, name, params, rust):
        self.cls, self.name, self.params, self.rust = cls, name, params, rust
        self.requires, self.ensures, self.loops, self.hooks = [], [], {}, []
        self.aliases = []     # list of (rustname, {param: 'this'|...}, overrides)
        self.trusted = False; self.assumed = None; self.heap = False; self.aborts = 'false'
        self.node = None; self.decreases = None; self.attrs = []; self.src = None
        self.defaults = {}; self.const = None; self.returns_this = False; self.opts = {}
        self.note = ''
        self.aliasmap = {}
        self.thispure = False

def parse_params(s):
    s = s.strip()
    return [re.sub(r'\s+', ' ', x).strip() for x in split_targs(s)] if s else []

def normt(t):
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r'\s*([&*])', r' \1', t)
    t = t.replace('* *', '**').replace('& &', '&&')
    return t.strip()

class Unit:
    def __init__(self, name):
        self.name = name; self.sources = []; self.structs = {}; self.enums = {}; self.typealias = {}; self.typemap = {}
        self.ptr_heap = {}; self.ptr_ref = set(); self.ptr_arr = set()
        self.fns = []; self.rs = []; self.inline_src = []; self.filters = {}
        self.drops = []; self.consts = {}; self.assumptions = []
        self.inlines = []; self.attrs = []; self.merges = []; self.ghostfields = []

    # ---- parse the sidecar ------------------------------------------------
    @staticmethod
    def load(path, unit=None):
        base = os.path.dirname(path)
        u = unit or Unit(os.path.basename(path).split('.')[0])
        cur = None; sec = None; src = None
        lines = open(path).read().split('\n')
        buf = None
        def flush():
            nonlocal buf, sec
            if buf is None: return
            text = '\n'.join(buf).rstrip()
            k = sec[0]
            if k == 'rs': u.rs.append(text)
            elif k == 'ring':
                import ring
                hyps = []; concl = None; req = []
                for l in text.split('\n'):
                    l = l.strip()
                    if l.startswith('hyp '):
                        cof, _, h = l[4:].partition(':'); hyps.append((cof.strip(), h.strip()))
                    elif l.startswith('concl '): concl = l[6:].strip()
                mm = re.match(r'^(\w+)\((.*)\)$', sec[1])
                ps = mm.group(2) if ':' in mm.group(2) else ', '.join(x.strip() + ': int' for x in mm.group(2).split(','))
                u.rs.append(ring.lemma(mm.group(1), ps, concl, hyps))
            elif k == 'requires': cur.requires.append(text)
            elif k == 'ensures': cur.ensures.append(text)
            elif k == 'decreases': cur.decreases = text
            elif k == 'aborts': cur.aborts = text.strip()
            elif k == 'loop': cur.loops.setdefault(sec[1], {})['inv'] = text
            elif k == 'loopdec': cur.loops.setdefault(sec[1], {})['dec'] = text
            elif k == 'loopens': cur.loops.setdefault(sec[1], {})['ens'] = text
            elif k == 'hook': cur.hooks.append((sec[1], text))
            elif k == 'assume_note': u.assumptions.append(text.strip())
            buf = None; sec = None
        for ln in lines:
            m = re.match(r'^@(\w+)\s*(.*)$', ln)
            if not m:
                if buf is not None: buf.append(ln)
                continue
            flush()
            k, a = m.group(1), m.group(2).strip()
            if k == 'source': src = a; u.sources.append(a)
            elif k == 'include':
                # '@include x.vc proved': contracts of x are used, their bodies are discharged by the unit x itself
                fn0, _, mode = a.partition(' ')
                u.included = getattr(u, "included", set())
                if fn0 in u.included: continue
                u.included.add(fn0)
                n0 = len(u.fns); r0 = len(u.rs)
                Unit.load(os.path.join(base, fn0), u)
                if mode.strip() == 'proved':
                    # lemmas of the included unit are discharged by that unit as well
                    u.rs[r0:] = [re.sub(r'(?m)^pub proof fn', '#[verifier::external_body] /*discharged by the unit %s*/\npub proof fn' % fn0.split('.')[0], x) for x in u.rs[r0:]]
                    for g in u.fns[n0:]:
                        if not g.trusted and not g.assumed: g.assumed = fn0.split('.')[0]
            elif k == 'struct':
                # @struct Name [as Rust] [filter F]
                mm = re.match(r'^(\S+)(?:\s+as\s+(\S+))?(?:\s+from\s+(\S+))?$', a)
                n = mm.group(1)
                u.structs[n] = {'rust': mm.group(2) or n.replace('::', '_'), 'src': mm.group(3) or src, 'fields': None}
            elif k == 'enum': u.enums[a] = {}
            elif k == 'typealias':
                x, y = a.split('=', 1); u.typealias[x.strip()] = y.strip()
            elif k == 'typemap':
                x, y = a.split('=', 1); u.typemap[x.strip()] = y.strip()
            elif k == 'ptr':
                mode, n = a.split()
                {'heap': lambda: u.ptr_heap.__setitem__(n, 1), 'ref': lambda: u.ptr_ref.add(n), 'array': lambda: u.ptr_arr.add(n)}[mode]()
            elif k == 'merge':
                # @merge Derived Base: one record carries the fields of both
                x, y = a.split(); u.merges.append((x, y)); u.typealias[x] = y; u.structs[x] = {'rust': '', 'src': src, 'fields': None}
            elif k == 'ghostfield':
                # @ghostfield Struct name Type: specification-only state attached to a record
                x, y, z = a.split(None, 2); u.ghostfields.append((x, y, z))
            elif k == 'hidden': u.hidden = a.split()
            elif k == 'const':
                x, y = a.split('=', 1); u.consts[x.strip()] = y.strip()
            elif k in ('fn', 'extern'):
                mm = re.match(r'^(?:(\S+)::)?([\w~]+|operator\S*)\s*\((.*)\)\s*(const)?\s*as\s+(\w+)\s*(.*)$', a)
                if not mm: raise Exception('bad @fn: ' + a)
                cur = Fn(mm.group(1), mm.group(2), [normt(x) for x in parse_params(mm.group(3))], mm.group(5))
                cur.const = bool(mm.group(4))
                cur.src = src
                if getattr(u, 'hidden', None): cur.hooks.append(('ghost head', ' '.join('hide(%s);' % h for h in u.hidden)))
                cur.opts = dict.fromkeys(mm.group(6).split())
                cur.trusted = (k == 'extern')
                cur.heap = 'heap' in cur.opts
                cur.static = 'static' in cur.opts
                u.fns.append(cur)
            elif k == 'inline':
                # @inline Class::name  -- allow inlining of this (or any function matching) from src
                u.inlines.append((a, src))
            elif k == 'alias':
                # @alias rustname rhs=this num=this.numerator
                p = a.split(); cur.aliases.append((p[0], dict(x.split('=') for x in p[1:])))
            elif k == 'note': cur.note = a
            elif k in ('rs', 'requires', 'ensures', 'decreases', 'aborts', 'assume_note'):
                sec = (k,); buf = [a] if a else []
            elif k == 'ring': sec = ('ring', a); buf = []
            elif k == 'attr': cur.attrs.append(a)
            elif k == 'uattr': u.attrs.append(a)
            elif k == 'invariant': sec = ('loop', int(a)); buf = []
            elif k in ('loopdec', 'loopens'):
                n, _, rest = a.partition(' '); sec = (k, int(n)); buf = [rest]
            elif k == 'at': sec = ('hook', a); buf = []
            elif k == 'end': pass
            else: raise Exception('unknown directive @' + k)
        flush()
        return u

# ---------------------------------------------------------------------------
SPEC_ARITH = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem'}

def annotate_lines(obj, state, cache):
    """assign _line by traversing in document order (clang prints loc deltas)"""
    def loc(l):
        if not l: return None
        for k in ('expansionLoc', 'spellingLoc'):
            if k in l:
                r = None
                if 'spellingLoc' in l: loc(l['spellingLoc'])
                if 'expansionLoc' in l: r = loc(l['expansionLoc'])
                return r
        if 'file' in l: state['file'] = l['file']
        if 'line' in l: state['line'] = l['line']
        if 'offset' in l: return (state.get('file'), state.get('line'))
        return None
    def walk(n):
        if not isinstance(n, dict): return
        r = loc(n.get('loc'))
        rg = n.get('range') or {}
        b = loc(rg.get('begin')); loc(rg.get('end'))
        n['_loc'] = b or r
        for c in n.get('inner', []) or []: walk(c)
    walk(obj)

class Program:
    def __init__(self, unit, log=None):
        self.u = unit; self.types = Types(unit); self.decls = {}   # rust-key -> node
        self.report = {'functions': [], 'inlined': set(), 'dropped': set()}
        self.fnindex = {}
        self.out = []; self.linemap = []
        self.bodies = {}  # (cls,name)-> list of nodes with bodies
        self.const_decls = {}; self.enumvals = {}
        self.lock = {}

    def load(self):
        u = self.u
        pairs = []
        for n, s in u.structs.items():
            if s['src'] and s['src'] != '-': pairs.append((s['src'], n.split('::')[-1]))
        for f in u.fns:
            if not f.trusted:
                pairs.append((f.src, self.filt(f)))
        for a, s in u.inlines: pairs.append((s, a.split('::')[0] if '::' in a and a.split('::')[0] in u.structs else a.split('::')[-1]))
        res = cppast.dump_all(pairs)
        for (src, filt), objs in res.items():
            st = {}
            for o in objs: annotate_lines(o, st, {})
            ids = {}
            def index(n, cls=None):
                if n.get('kind') == 'CXXRecordDecl':
                    ids[n['id']] = n.get('name')
                    for c in n.get('inner', []): index(c, n.get('name'))
                elif n.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl'):
                    n['_cls'] = cls
                elif n.get('kind') in ('NamespaceDecl', 'LinkageSpecDecl', 'ClassTemplateDecl'):
                    for c in n.get('inner', []): index(c, cls)
            for o in objs: index(o)
            def collect(n):
                k = n.get('kind')
                if k == 'CXXRecordDecl':
                    nm = n.get('name')
                    if nm in u.structs and n.get('completeDefinition') and u.structs[nm]['fields'] is None:
                        fs = []
                        for c in n.get('inner', []):
                            if c.get('kind') == 'FieldDecl':
                                fs.append((c['name'], c['type']['qualType'], c['type'].get('desugaredQualType')))
                        u.structs[nm]['fields'] = fs
                        u.structs[nm]['bases'] = [b['type']['qualType'] for b in n.get('bases', [])]
                    for c in n.get('inner', []): collect(c)
                elif k == 'EnumDecl':
                    v = 0
                    for c in n.get('inner', []):
                        if c.get('kind') != 'EnumConstantDecl': continue
                        for e in c.get('inner', []):
                            if e.get('kind') == 'ConstantExpr' and 'value' in e: v = int(e['value'])
                        self.enumvals[c['name']] = v if self.enumvals.get(c['name'], v) == v else None; v += 1
                elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl'):
                    cls = n.get('_cls')
                    if cls is None and 'parentDeclContextId' in n: cls = ids.get(n['parentDeclContextId'])
                    if cls is None and k != 'FunctionDecl':
                        cls = n.get('name') if k == 'CXXConstructorDecl' else None
                    if cppast.has_body(n):
                        n['_cls'] = cls
                        self.bodies.setdefault(n['name'], [])
                        loc = src if n.get('storageClass') == 'static' and k == 'FunctionDecl' else None     # file-local
                        if not any(x['_sig'] == (cls, n['type']['qualType'], loc) for x in self.bodies[n['name']]):
                            n['_sig'] = (cls, n['type']['qualType'], loc)
                            self.bodies[n['name']].append(n)
                elif k in ('NamespaceDecl', 'LinkageSpecDecl', 'ClassTemplateDecl', 'FunctionTemplateDecl'):
                    for c in n.get('inner', []): collect(c)
            for o in objs: collect(o)
        for f in u.fns:
            if f.trusted: continue
            f.node = self.find(f)

    def filt(self, f):
        if f.cls and f.cls in self.u.structs: return f.cls.split('::')[-1]
        if f.cls: return f.cls.split('::')[-1] + '::' + f.name
        return f.name

    def params_of(self, n):
        return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def find(self, f):
        cands = self.bodies.get(f.name, [])
        ok = []
        for n in cands:
            if f.cls is not None and n['_cls'] not in (None, f.cls.split('::')[-1]): continue
            if f.cls is None and n['_cls'] is not None: continue
            if n['_sig'][2] not in (None, f.src): continue
            ps = [normt(p['type']['qualType']) for p in self.params_of(n)]
            if ps == f.params or len(ps) == len(f.params) and all(self.tsame(a, b) for a, b in zip(ps, f.params)):
                if n['kind'] == 'CXXMethodDecl':
                    isconst = n['type']['qualType'].rstrip().endswith('const')
                    if isconst != f.const and 'anyconst' not in f.opts and len([1 for x in cands if x['_cls'] == n['_cls']]) > 1 and any(
                        [normt(p['type']['qualType']) for p in self.params_of(x)] == ps and x['type']['qualType'].rstrip().endswith('const') == f.const for x in cands if x is not n):
                        continue
                ok.append(n)
        ok.sort(key=lambda n: [normt(p['type']['qualType']) for p in self.params_of(n)] != f.params)
        if not ok: raise Unsupported('function %s::%s(%s) not found (have %s)' % (f.cls, f.name, ', '.join(f.params), [(n['_cls'], [normt(p['type']['qualType']) for p in self.params_of(n)]) for n in cands]))
        return ok[0]

    def tsame(self, a, b):
        try:
            return self.types._rust(a) == self.types._rust(b) and self.types._rust(a) is not None and is_ref(a) == is_ref(b)
        except Exception: return False

    # -- contract lookup at calls -------------------------------------------
    def lookup(self, cls, name, argtys, alias=None):
        r = self.lookup1(cls, name, argtys)
        if cls is not None and name != cls:
            for x, y in self.u.merges:      # one record for both classes: a method of either
                if cls == y:
                    r2 = self.lookup1(x, name, argtys)
                    if r2 is not None and r is not None: raise Unsupported('%s in both %s and %s' % (name, x, y))
                    if r is None: r = r2
        return r

    def lookup1(self, cls, name, argtys):
        cand = [f for f in self.u.fns if f.name == name]
        loc = [f for f in cand if f.node is not None and f.node['_sig'][2] is not None]
        if loc:      # file-local functions are visible in their own file only
            here = getattr(self, 'cursrc', None)
            cand = [f for f in loc if f.src == here] + [f for f in cand if f not in loc]
        for f in cand:
            if f.cls and f.cls.split('::')[-1] != cls: continue
            if f.cls is None and cls is not None: continue
            pts = [self.types.rust(p) for p in f.params]
            if len(argtys) > len(pts): continue
            if argtys and argtys[-1] is None and len(argtys) == len(pts) and f.node is not None:
                k = len(argtys)
                while k and argtys[k - 1] is None: k -= 1
                if list(argtys[:k]) == pts[:k]: return f
            if len(argtys) < len(pts) and not all('=' in p for p in f.params[len(argtys):]) and 'defaults' not in f.opts: continue
            if list(argtys) == pts[:len(argtys)]: return f
        return None

    def find_body(self, cls, name, argtys):
        for n in self.bodies.get(name, []):
            if n['_cls'] != cls: continue
            if n['_sig'][2] not in (None, getattr(self, 'cursrc', None)): continue
            try: pts = [self.types.rust(p['type']['qualType'], p['type'].get('desugaredQualType')) for p in self.params_of(n)]
            except Unsupported: continue
            if pts == list(argtys): return n
            if len(argtys) < len(pts) and pts[:len(argtys)] == list(argtys) and all('init' in p for p in self.params_of(n)[len(argtys):]): return n
        return None

    # -- emission ------------------------------------------------------------
    def default_value(self, ty):
        if ty in INTS or ty == 'bool' or ty == 'usize': return 'havoc_%s()' % ty
        if ty == 'Z': return 'zi(0)'
        if ty == 'Q': return 'q_zero()'
        if ty == 'Mt': return 'mt_new()'
        if ty.startswith('Vc<'): return 'vnew::<%s>()' % ty[3:-1]
        for n, s in self.u.structs.items():
            if s['rust'] == ty:
                return '%s { %s }' % (ty, ', '.join('%s: %s' % (self.fld(fn), self.default_value(self.types.rust(q, d))) for fn, q, d in s['fields']))
        if ty in self.u.typemap.values(): return 'default_%s()' % ty
        if ty == 'Str': return 'mkstr()'
        raise Unsupported('default of ' + ty)

    def fld(self, n): return n + '_' if n in RUST_KW else n

    def emit_structs(self):
        o = []
        for x, y in self.u.merges:
            if self.u.structs[x]['fields'] is None: raise Unsupported('struct %s not found' % x)
            self.u.structs[y]['fields'] = self.u.structs[y]['fields'] + self.u.structs[x]['fields']
            self.u.structs[x]['src'] = '-'
        for n, s in self.u.structs.items():
            if s['src'] == '-': continue
            if s['fields'] is None: raise Unsupported('struct %s not found' % n)
            fs = []
            keep = []
            for fn, q, d in s['fields']:
                try:
                    fs.append('pub %s: %s' % (self.fld(fn), self.types.rust(q, d))); keep.append((fn, q, d))
                except Unsupported:
                    self.report['dropped'].add('field %s::%s of unmodelled type %s' % (n, fn, q))
            s['fields'] = keep
            for gs, gn, gt in self.u.ghostfields:
                if gs == n: fs.append('pub %s: Ghost<%s>' % (gn, gt))
            o.append('pub struct %s { %s }' % (s['rust'], ', '.join(fs)))
            o.append('impl Copy for %s {}\n#[verifier::external]\nimpl Clone for %s { fn clone(&self) -> Self { *self } }' % (s['rust'], s['rust']))
        return '\n'.join(o)

    def translate(self, vac=False):
        self.load()
        out = [self.emit_structs()]
        if self.u.ptr_heap:
            out.append(self.emit_heap())
        for t in self.u.rs: out.append(t)
        metas = []
        for f in self.u.fns:
            if f.trusted:
                out.append(self.emit_extern(f)); continue
            variants = [(f.rust, {})] + f.aliases
            if 'onlyalias' in f.opts: variants = f.aliases
            for rn, am in variants:
                self.cursrc = f.src
                tr = FnTr(self, f, rn, am)
                text, meta = tr.emit()
                out.append(text); metas.append(meta)
                meta['assumed'] = f.assumed
        return out, metas

    def emit_heap(self):
        o = []
        names = list(self.u.ptr_heap)
        o.append('pub struct Hp { %s }' % ', '.join('pub %s: Ghost<Map<usize, %s>>' % (self.hn(n), self.u.structs[n]['rust']) for n in names))
        for n in names:
            r = self.u.structs[n]['rust']; f = self.hn(n)
            others = ' '.join('&& final(hp).%s@ == old(hp).%s@' % (self.hn(x), self.hn(x)) for x in names if x != n)
            o.append(f'''
#[verifier::external_body]
pub fn ld_{f}(hp: &Hp, p: usize) -> (r: {r}) requires hp.{f}@.dom().contains(p), ensures r == hp.{f}@[p] {{ unimplemented!() }}
#[verifier::external_body]
pub fn st_{f}(hp: &mut Hp, p: usize, v: {r}) requires old(hp).{f}@.dom().contains(p), ensures final(hp).{f}@ == old(hp).{f}@.insert(p, v) {others} {{ unimplemented!() }}
#[verifier::external_body]
pub fn new_{f}(hp: &mut Hp, v: {r}) -> (p: usize) ensures p != 0, !old(hp).{f}@.dom().contains(p), final(hp).{f}@ == old(hp).{f}@.insert(p, v) {others} {{ unimplemented!() }}
#[verifier::external_body]
pub fn free_{f}(hp: &mut Hp, p: usize) requires p == 0 || old(hp).{f}@.dom().contains(p), ensures final(hp).{f}@ == (if p == 0 {{ old(hp).{f}@ }} else {{ old(hp).{f}@.remove(p) }}) {others} {{ unimplemented!() }}
''')
        return '\n'.join(o)

    def mutptr(self, p):
        p = p.strip()
        if not p.endswith('*') or p.startswith('const ') : return False
        e = strip_cv(p[:-1])
        return e in self.u.ptr_ref

    def hn(self, n): return n.split('::')[-1]

    def emit_extern(self, f):
        # trusted contract: signature from the sidecar
        ps = []
        names = f.opts.get('names')
        pn = ['a%d' % i for i in range(len(f.params))]
        sig = []
        if f.heap: sig.append('hp: &mut Hp')
        if f.cls and not getattr(f, 'static', False) and f.name != f.cls.split('::')[-1]:
            sr = self.types.rust(f.cls)
            sig.append('this: %s%s' % ('' if f.const else '&mut ', sr))
        muts = set(['hp']) if f.heap else set()
        if f.cls and not f.const: muts.add('this')
        for i, p in enumerate(f.params):
            r = self.types.rust(p)
            m = is_ref(p) and not is_const_ref(p) or self.mutptr(p)
            if m: muts.add(pn[i])
            sig.append('%s: %s%s' % (pn[i], '&mut ' if m else '', r))
        ret = [k for k in f.opts if k.startswith('->')]
        rt = ret[0][2:] if ret else '()'
        c = '#[verifier::external_body]\npub fn %s(%s) -> (ret: %s)\n' % (f.rust, ', '.join(sig), rt)
        if f.requires: c += '  requires\n' + ',\n'.join(fixpre(x, muts) for x in f.requires).rstrip().rstrip(',') + ',\n'
        if f.ensures: c += '  ensures\n' + ',\n'.join(fixpost(x, muts) for x in f.ensures).rstrip().rstrip(',') + ',\n'
        return c + '{ unimplemented!() }'

def subst_ids(text, mp):
    if not mp: return text
    return re.sub(r'(?<![\w.])(?<!old\()(?<!final\()(?<!let ghost )(' + '|'.join(re.escape(k) for k in sorted(mp, key=len, reverse=True)) + r')(?!\w)', lambda m: mp[m.group(1)], text)

def fixpre(t, muts):
    return subst_ids(t, {**{m: '(*old(%s))' % m for m in muts}, **{m + '0': '(*old(%s))' % m for m in muts}})
def fixpost(t, muts):
    return subst_ids(t, {**{m: '(*final(%s))' % m for m in muts}, **{m + '0': '(*old(%s))' % m for m in muts}})
def fixbody(t, muts, vals):
    return subst_ids(t, {**{m + '0': 'old(%s)' % m for m in muts}})

from fntr import FnTr
