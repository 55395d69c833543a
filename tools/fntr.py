import math, re
import cpp2verus as C
from cpp2verus import (Unsupported, Place, overlap, INTS, RUST_KW, is_ref, is_const_ref, strip_cv, subst_ids, normt)

WIDTH = {'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1),
         'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1)}

TRANSPARENT = {'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'FullExpr', 'SubstNonTypeTemplateParmExpr'}

def contains_kind(n, kinds, stop=()):
    if n.get('kind') in kinds: return True
    return any(contains_kind(c, kinds, stop) for c in n.get('inner', []) or [] if c.get('kind') not in stop)

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')

class FnTr:
    def __init__(self, prog, f, rustname, alias, inl=None):
        self.p, self.f, self.rn, self.alias = prog, f, rustname, alias
        self.T = prog.types; self.u = prog.u
        self.vars = {}     # decl id -> ('var', name, ty, mutref) | ('alias', Place)
        self.used = set(RUST_KW) | {'this', 'hp', 'ret'}
        self.loopno = 0
        self.lines = []
        self.loopstack = []
        self.decl_log = []   # (origname, type, finalname)
        self.inline_depth = 0
        self.tmpn = 0
        self.thisplace = None
        self.rename = {}
        self.meta_calls = set()

    def fresh(self, base='t'):
        self.tmpn += 1
        return '%s__%d' % (base, self.tmpn)

    def newname(self, n, ty):
        want = n
        if not self.inline_depth and n in self.rename: want = self.rename[n]
        b = want + '_' if want in RUST_KW else want
        c = b; k = 2
        while c in self.used:
            c = '%s_%d' % (b, k); k += 1
        self.used.add(c)
        if not self.inline_depth: self.decl_log.append((n, ty, c))
        return c

    def ty(self, n):
        t = n['type']
        return self.T.rust(t['qualType'], t.get('desugaredQualType'))

    def tyor(self, n):
        try: return self.ty(n)
        except Unsupported: return None

    def ctype(self, n):
        t = n['type']; return t.get('desugaredQualType') or t['qualType']

    # ---------------------------------------------------------------- places
    def read(self, pl):
        r = pl.root
        if r[0] == 'var': b = '(*%s)' % r[1] if (r[2] == 'refmut' and not (pl.path and pl.path[0][0] == 'f')) else r[1]
        elif r[0] == 'heap': b = 'ld_%s(hp, %s)' % (r[1], r[2])
        elif r[0] == 'cursor':
            b = 'ld_%s(hp, %s).%s' % (r[3], r[1], r[4])
            if r[2]: b = '(if %s == 0 { %s } else { %s })' % (r[1], r[2], b)
        else: b = r[1]
        for kd, x in pl.path:
            if kd == 'f': b = '%s.%s' % (b, x)
            elif kd == 'i': b = 'vget(%s, %s)' % (b, x)
            elif kd == 'mi': b = 'mt_row(%s, %s)' % (b, x)
        return b

    def updated(self, base, path, v):
        """expression: base value with path updated to v"""
        if not path: return v
        (kd, x), rest = path[0], path[1:]
        if kd == 'f':
            t = self.fresh('u')
            inner = self.updated('%s.%s' % (base, x), rest, v)
            return '{ let mut %s = %s; %s.%s = %s; %s }' % (t, base, t, x, inner, t)
        if kd == 'i':
            return 'vset(%s, %s, %s)' % (base, x, self.updated('vget(%s, %s)' % (base, x), rest, v))
        if kd == 'mi':
            return 'mt_setrow(%s, %s, %s)' % (base, x, self.updated('mt_row(%s, %s)' % (base, x), rest, v))

    def write(self, pl, v):
        r = pl.root
        if r[0] == 'var':
            fs = []; path = list(pl.path)
            while path and path[0][0] == 'f': fs.append(path.pop(0)[1])
            lhs = '.'.join([r[1]] + fs)
            if not path:
                return '%s%s = %s;' % ('*' if r[2] == 'refmut' and not fs else '', lhs, v)
            base = self.read(Place(r, [('f', x) for x in fs]))
            if not re.match(r'^\w+$', v):
                w = self.fresh('w'); return 'let %s = %s; %s%s = %s;' % (w, v, '*' if r[2] == 'refmut' and not fs else '', lhs, self.updated(base, path, w))
            return '%s%s = %s;' % ('*' if r[2] == 'refmut' and not fs else '', lhs, self.updated(base, path, v))
        if r[0] == 'heap':
            if pl.path:
                t = self.fresh('n'); w = self.fresh('w')
                return 'let %s = %s; let %s = ld_%s(hp, %s); st_%s(hp, %s, %s);' % (w, v, t, r[1], r[2], r[1], r[2], self.updated(t, pl.path, w))
            w = self.fresh('w')
            return 'let %s = %s; st_%s(hp, %s, %s);' % (w, v, r[1], r[2], w)
        if r[0] == 'cursor' and not pl.path:
            w = self.fresh('w')
            hs = self.write(Place(('heap', r[3], r[1]), (('f', r[4]),)), w)
            return 'let %s = %s; ' % (w, v) + ('if %s == 0 { %s = %s; } else { %s }' % (r[1], r[2], w, hs) if r[2] else hs)
        raise Unsupported('write to temporary')

    def blk(self, pre, e):
        return '{ %s %s }' % (' '.join(pre), e) if pre else e

    def atom(self, code):
        return re.match(r'^[\w.]+$', code) is not None or re.match(r'^\(\w+ as \w+\)$', code) is not None

    def freeze(self, pl):
        """evaluate index/pointer expressions once into temporaries"""
        pre = list(pl.pre); path = []
        root = pl.root
        if root[0] == 'heap' and not re.match(r'^\w+__\d+$', root[2]):
            t = self.fresh('p'); pre.append('let %s = %s;' % (t, root[2])); root = ('heap', root[1], t)
        for kd, x in pl.path:
            if kd in ('i', 'mi') and not re.match(r'^(\w+__\d+|\d+\w*)$', x):
                t = self.fresh('ix'); pre.append('let %s = %s;' % (t, x)); path.append((kd, t))
            else: path.append((kd, x))
        return Place(root, path, pl.ty), pre

    def skip(self, n):
        while n['kind'] in TRANSPARENT or (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp',)) or \
              (n['kind'] in ('CXXStaticCastExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and n.get('castKind') == 'NoOp'):
            n = [c for c in n['inner'] if 'kind' in c][-1]
        return n

    def place(self, n):
        n = self.skip(n); k = n['kind']
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('DerivedToBase', 'UncheckedDerivedToBase') and n.get('valueCategory') == 'lvalue':
            return self.place(n['inner'][0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']; 
            v = self.vars.get(d['id'])
            if v is None:
                return self.global_place(d, n)
            if v[0] == 'alias': return v[1]
            return Place(('var', v[1], v[3]), (), v[2])
        if k == 'CXXThisExpr':
            return self.thisplace
        if k == 'MemberExpr':
            b = n['inner'][0]
            fld = self.p.fld(n['name'])
            if n.get('isArrow'): bp = self.deref(b)
            else: bp = self.place(b)
            return bp.ext(('f', fld), ty=self.ty(n))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return self.deref(n['inner'][0])
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            pl = self.place(n['inner'][0]); pl, pre = self.freeze(pl)
            s = self.incdec_stmt(pl, n['opcode'], self.ty(n['inner'][0]))
            return Place(pl.root, pl.path, pl.ty, pre + [s])
        if k == 'ArraySubscriptExpr':
            a, i = n['inner'][0], n['inner'][1]
            bp = self.place_arr(a)
            ic, it = self.expr(i)
            return bp.ext(('i', self.toi64(ic, it)), ty=self.ty(n))
        if k == 'CXXOperatorCallExpr':
            op = self.calleename(n); args = n['inner'][1:]
            if op == 'operator*' and len(args) == 1 and self.isiter(args[0]):
                c, pl = self.iterexpr(args[0])
                return pl.ext(('i', c), ty=self.ty(n))
            if op == 'operator[]' or op == 'operator()':
                bt = self.tyor(args[0])
                if bt and bt.startswith('Vc<') or bt == 'Mt':
                    bp = self.place(args[0]); ic, it = self.expr(args[1])
                    ic = self.toi64(ic, it)
                    if op == 'operator()':
                        if bt == 'Mt' and len(args) == 3:
                            jc, jt = self.expr(args[2])
                            return bp.ext(('mi', '(%s - 1)' % ic), ('i', '(%s - 1)' % self.toi64(jc, jt)), ty='Z')
                        ic = '(%s - 1)' % ic
                    return bp.ext(('mi' if bt == 'Mt' else 'i', ic), ty=self.ty(n))
                pl = self.inline_place(n, bt, op, args[0], args[1:])
                if pl is not None: return pl
            if op in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%='):
                pl, pre = self.freeze(self.place(args[0]))
                st = self.stmt_expr(n, placeover=(pl, pre))
                return Place(pl.root, pl.path, pl.ty, pre + [st])
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            obj = me['inner'][0]
            bt = self.objtype(me)
            if bt and bt.startswith('Vc<'):
                if me['name'] in ('at',):
                    bp = self.place(obj); ic, it = self.expr(n['inner'][1])
                    return bp.ext(('i', self.toi64(ic, it)), ty=self.ty(n))
                if me['name'] == 'back':
                    bp, pre = self.freeze(self.place(obj))
                    return Place(bp.root, bp.path, bp.ty, pre).ext(('i', '(vlen(%s) - 1)' % self.read(bp)), ty=self.ty(n))
                if me['name'] == 'front':
                    return self.place(obj).ext(('i', '0'), ty=self.ty(n))
            if n.get('valueCategory') == 'lvalue':
                pl = self.inline_place(n, bt, me['name'], obj, n['inner'][1:], arrow=me.get('isArrow'))
                if pl is not None: return pl
                # non-const method returning *this
                argtys = [self.expr(a)[1] for a in n['inner'][1:]]
                f = self.p.lookup(self.clsname(bt), me['name'], argtys)
                if f is not None and 'returns_this' in f.opts:
                    op = self.deref(obj) if me.get('isArrow') else self.place(obj)
                    pl, pre = self.freeze(op)
                    code, _ = self.expr(n)
                    return Place(pl.root, pl.path, pl.ty, pre + ['let _ = %s;' % code])
        if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator':
            pl, pre = self.freeze(self.place(n['inner'][0]))
            st = self.stmt_expr(n, placeover=(pl, pre))
            return Place(pl.root, pl.path, pl.ty, pre + [st])
        # anything else: a temporary value
        if k in ('ConditionalOperator',) or n.get('valueCategory') != 'lvalue' or k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'StringLiteral', 'ImplicitCastExpr'):
            c, t = self.expr(n, noplace=True)
            return Place(('val', c, 'lv') if n.get('valueCategory') == 'lvalue' else ('val', c), (), t)
        raise Unsupported('lvalue %s' % k)

    def place_arr(self, n):
        m = n
        while m['kind'] in ('ImplicitCastExpr', 'ParenExpr') and m.get('castKind') in ('LValueToRValue', 'ArrayToPointerDecay', 'NoOp', None):
            m = m['inner'][0]
        return self.place(m)

    def deref(self, n):
        m = self.skip(n)
        cu = self.cursor_var(m)
        if cu: return Place(('cursor',) + cu[1:5], (), 'usize')
        pt = strip_cv(self.ctype(m))
        if not pt.endswith('*'):
            pt = strip_cv(m['type']['qualType'])
        e = strip_cv(pt[:-1]) if pt.endswith('*') else None
        if m['kind'] == 'CXXThisExpr': return self.thisplace
        if e in self.u.ptr_heap:
            c, t = self.expr(m)
            return Place(('heap', self.p.hn(e), c), (), self.T.rust(e))
        # pointer to object owned by value
        if m['kind'] == 'UnaryOperator' and m['opcode'] == '&': return self.place(m['inner'][0])
        while m['kind'] == 'ImplicitCastExpr' and m.get('castKind') in ('LValueToRValue', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'): m = m['inner'][0]
        t = self.tyor(m)
        pl = self.place(m)
        if t and t.startswith('Vc<') and e not in self.u.ptr_ref:
            return pl.ext(('i', '0'), ty=t[3:-1])
        return pl

    # a local 'T **p' that points to a local variable or to one fixed field of heap objects
    def cursor_var(self, m):
        while m['kind'] in ('ImplicitCastExpr', 'ParenExpr'): m = m['inner'][0]
        if m['kind'] != 'DeclRefExpr': return None
        v = self.vars.get(m['referencedDecl'].get('id'))
        return v if v and v[0] == 'cursor' else None

    def cursor_target(self, e):
        """&local -> ('local', place); &p->field -> ('field', pointer code, T, field)"""
        e = self.skip(e)
        if e['kind'] != 'UnaryOperator' or e['opcode'] != '&': return None
        t = self.skip(e['inner'][0])
        if t['kind'] == 'DeclRefExpr': return ('local', t)
        if t['kind'] == 'MemberExpr' and t.get('isArrow'):
            pt = strip_cv(self.ctype(self.skip(t['inner'][0])))
            if pt.endswith('*') and strip_cv(pt[:-1]) in self.u.ptr_heap:
                return ('field', t['inner'][0], self.p.hn(strip_cv(pt[:-1])), self.p.fld(t['name']))
        return None

    # a local std::vector iterator: the position (i64) in one fixed container
    def isiter(self, n): return '__normal_iterator<' in self.ctype(n).split('(')[0]

    def iterkey(self, pl): return (pl.root, tuple(pl.path))

    def iterexpr(self, n):
        """iterator expression -> (position code, container place)"""
        n = self.skip(n)
        while n['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            real = [c for c in n.get('inner', []) if 'kind' in c and c['kind'] != 'CXXDefaultArgExpr']
            if len(real) != 1: raise Unsupported('iterator construction')
            n = self.skip(real[0])
        if n['kind'] == 'DeclRefExpr':
            v = self.vars.get(n['referencedDecl'].get('id'))
            if not v or v[0] != 'iter' or v[2] is None: raise Unsupported('iterator ' + str(n['referencedDecl'].get('name')))
            return v[1], v[2]
        if n['kind'] == 'CXXMemberCallExpr':
            me = n['inner'][0]
            if me.get('name') in ('begin', 'end', 'cbegin', 'cend') and (self.objtype(me) or '').startswith('Vc<'):
                pl = self.deref(me['inner'][0]) if me.get('isArrow') else self.place(me['inner'][0])
                if pl.pre: raise Unsupported('iterator of a temporary')
                return ('0i64' if 'begin' in me['name'] else 'vlen(%s)' % self.read(pl)), pl
        if n['kind'] == 'CXXOperatorCallExpr':
            op = self.calleename(n); args = n['inner'][1:]
            if op in ('operator++', 'operator--') and len(args) == 1:
                c, pl = self.iterexpr(args[0])
                if re.match(r'^\w+$', c): return '{ %s = %s %s 1; %s }' % (c, c, op[-1], c), pl
            if op in ('operator+', 'operator-') and len(args) == 2 and not self.isiter(args[1]):
                c, pl = self.iterexpr(args[0]); i, t = self.expr(args[1])
                return '(%s %s %s)' % (c, op[-1], self.toi64(i, t)), pl
        raise Unsupported('iterator expression ' + n['kind'])

    def iter_assign(self, v, e):
        c, pl = self.iterexpr(e)
        path = []; out = ''
        for kd, x in pl.path:
            if kd != 'f' and not re.match(r'^\d+\w*$', x) and x != v[1] + '_k':
                if out: raise Unsupported('iterator into nested containers')
                out = '%s_k = %s; ' % (v[1], x); x = v[1] + '_k'
            path.append((kd, x))
        npl = Place(pl.root, path, pl.ty)
        if pl.root[0] not in ('var', 'heap'): raise Unsupported('iterator of a temporary')
        if v[2] is not None and self.iterkey(v[2]) != self.iterkey(npl): raise Unsupported('iterator over two containers')
        v[2] = npl
        return out + '%s = %s;' % (v[1], c)

    def iterop(self, n):
        """operator call on iterators -> (kind, code[, type]) or None"""
        op = self.calleename(n); args = n['inner'][1:]
        if not args or not self.isiter(args[0]): return None
        if op == 'operator=':
            v = self.vars.get(self.skip(args[0]).get('referencedDecl', {}).get('id'))
            if not v or v[0] != 'iter': raise Unsupported('iterator assignment')
            return 'stmt', self.iter_assign(v, args[1])
        if op in ('operator++', 'operator--') and len(args) <= 2:
            c, pl = self.iterexpr(args[0])
            return 'stmt', '%s = %s %s 1;' % (c, c, op[-1])
        if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a, p = self.iterexpr(args[0]); b, q = self.iterexpr(args[1])
            if self.iterkey(p) != self.iterkey(q): raise Unsupported('comparison of iterators of two containers')
            return 'bool', '(%s %s %s)' % (a, op[8:], b)
        if op == 'operator-' and self.isiter(args[1]):
            a, p = self.iterexpr(args[0]); b, q = self.iterexpr(args[1])
            if self.iterkey(p) != self.iterkey(q): raise Unsupported('difference of iterators of two containers')
            return 'i64', '(%s - %s)' % (a, b)
        return None

    def decl_iter(self, d, init):
        nm = self.newname(d['name'], 'i64')
        self.used.add(nm + '_k')
        v = ['iter', nm, None]
        self.vars[d['id']] = v
        r = 'let mut %s: i64 = 0; let mut %s_k: i64 = 0;' % (nm, nm)
        i = self.skip(init) if init else None
        if i is not None and not (i['kind'] == 'CXXConstructExpr' and not i.get('inner')): r += ' ' + self.iter_assign(v, i)
        self.p.report['dropped'].add('iterator invalidation in ' + self.rn)
        return r

    def bsearch(self, args):
        """binary_search(v.begin(), v.end(), x) over the whole of one vector of integers"""
        def end(a, names):
            while a.get('kind') in ('CXXConstructExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr') and len(a.get('inner', [])) == 1: a = a['inner'][0]
            if a.get('kind') != 'CXXMemberCallExpr' or a['inner'][0].get('name') not in names: raise Unsupported('binary_search over a range')
            pl = self.place(a['inner'][0]['inner'][0])
            return self.blk(pl.pre, self.read(pl)), pl.ty
        b, bt = end(args[0], ('begin', 'cbegin')); e, et = end(args[1], ('end', 'cend'))
        if b != e or bt != 'Vc<Z>': raise Unsupported('binary_search over a range')
        x, xt = self.expr(args[2])
        return 'vz_bsearch(%s, %s)' % (b, self.coerce(x, xt, 'Z')), 'bool'

    def neglit(self, c): return '%di32' % c if c >= 0 else '(%di32)' % c

    def row_guard(self, node):
        """rows of a rational matrix are values here: a function may copy row pointers or write entries, not both"""
        ROW = ('mpq_class *', 'const mpq_class *', 'mpq_class *const', '__gmp_expr<mpq_t, mpq_t> *')
        cp = wr = False
        def lv(n): return n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue' or n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp' and lv(n['inner'][0])
        def walk(n):
            nonlocal cp, wr
            k = n.get('kind'); q = n.get('type', {}).get('qualType', '') if isinstance(n.get('type'), dict) else ''
            inner = [c for c in n.get('inner', []) or [] if isinstance(c, dict)]
            if k == 'BinaryOperator' and n.get('opcode') == '=' and q in ROW and lv(inner[1]): cp = True
            if k == 'VarDecl' and q.replace('const ', '') in ROW and inner and lv(inner[-1]): cp = True
            if k == 'CXXOperatorCallExpr' and len(inner) >= 2:
                o = inner[0]
                while o.get('kind') == 'ImplicitCastExpr': o = o['inner'][0]
                nm = (o.get('referencedDecl') or {}).get('name', '')
                a = inner[1]
                while a.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): a = a['inner'][0]
                if nm.endswith('=') and nm not in ('operator==', 'operator!=', 'operator<=', 'operator>=') and a.get('kind') in ('ArraySubscriptExpr', 'UnaryOperator'): wr = True
            for c in inner: walk(c)
        walk(node)
        if cp and wr: raise Unsupported('row pointers are copied in a function that writes entries')

    def decl_cursor(self, d, init):
        uses = []
        def walk(n):
            if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
                l = n['inner'][0]
                while l['kind'] in ('ImplicitCastExpr', 'ParenExpr'): l = l['inner'][0]
                if l['kind'] == 'DeclRefExpr' and l['referencedDecl'].get('id') == d['id']: uses.append(n['inner'][1])
            for c in n.get('inner', []) or []: walk(c)
        walk(self.f.node)
        tg = [self.cursor_target(x) for x in ([init] if init else []) + uses]
        if any(t is None for t in tg): raise Unsupported('pointer to pointer ' + d['name'])
        loc = set(t[1]['referencedDecl']['id'] for t in tg if t[0] == 'local')
        fld = set(t[2:] for t in tg if t[0] == 'field')
        if len(loc) > 1 or len(fld) != 1: raise Unsupported('pointer to pointer ' + d['name'])
        T, F = fld.pop()
        lv = None
        if loc:
            v = self.vars[loc.pop()]
            if v[0] != 'var' or v[3] != 'val': raise Unsupported('pointer to pointer ' + d['name'])
            lv = v[1]
        nm = self.newname(d['name'], 'usize')
        self.vars[d['id']] = ('cursor', nm, lv, T, F)
        if not init: return 'let mut %s: usize = havoc_usize();' % nm
        t = tg[0]
        return 'let mut %s: usize = %s;' % (nm, '0' if t[0] == 'local' else self.expr(t[1])[0])

    def global_place(self, d, n):
        nm = d.get('name')
        if nm in self.u.consts:
            return Place(('val', self.u.consts[nm]), (), self.tyor(n) or 'i32')
        raise Unsupported('global %s' % nm)

    def clsname(self, rt):
        if rt is None: return None
        for n, s in self.u.structs.items():
            if s['rust'] == rt: return n.split('::')[-1]
        for n, r in self.u.typemap.items():
            if r == rt: return n.split('::')[-1].split('<')[0]
        return rt

    def objtype(self, me):
        obj = me['inner'][0]
        if me.get('isArrow'):
            pt = strip_cv(self.ctype(self.skip(obj)))
            if pt.endswith('*'):
                e = strip_cv(pt[:-1])
                return self.T._rust(e)
            return None
        return self.tyor(obj)

    def toi64(self, c, t):
        m = re.match(r'^\(?(\d+)(i32|i64|u64|u32)\)?$', c)
        if m: return m.group(1) + 'i64'
        m = re.match(r'^\((\d+)(?:i32|i64|u64|u32) as i64\)$', c)
        if m: return m.group(1) + 'i64'
        return self.coerce(c, t, 'i64')

    # ------------------------------------------------------------ coercions
    def coerce(self, c, a, b):
        if a == b: return c
        if a in INTS and b in INTS:
            m = re.match(r'^(\d+)%s$' % a, c)
            if m and WIDTH[b][0] <= int(m.group(1)) <= WIDTH[b][1]: return m.group(1) + b
            la, ha = WIDTH[a]; lb, hb = WIDTH[b]
            if lb <= la and ha <= hb: return '(%s as %s)' % (c, b)
            return 'ck_%s_%s(%s)' % (a, b, c)
        if a == 'bool' and b in INTS: return '(b2i(%s) as %s)' % (c, b) if b != 'i32' else 'b2i(%s)' % c
        if a in INTS and b == 'bool': return '(%s != 0)' % c
        if a == 'bool' and b == 'Z': return 'zi(b2i(%s) as i64)' % c
        if a in INTS and b == 'Z':
            if a == 'u64': return 'zu(%s)' % c
            return 'zi(%s)' % self.toi64(c, a)
        if a == 'Z' and b == 'Q': return 'q_of_z(%s)' % c
        if a in INTS and b == 'Q': return 'q_of_z(%s)' % self.coerce(c, a, 'Z')
        if a == 'usize' and b == 'bool': return '(%s != 0)' % c
        if b == 'usize' and c in ('0i32', '0i64'): return '0usize'
        if c == '0usize' and b and b.startswith('Vc<'): return 'vnew::<%s>()' % b[3:-1]
        raise Unsupported('coerce %s -> %s (%s)' % (a, b, c))

    # ----------------------------------------------------------- expressions
    def calleename(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl'].get('name') if 'referencedDecl' in c else c.get('name')
        if c['kind'] == 'MemberExpr': return c['name']
        return None

    def calleedecl(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        return c.get('referencedDecl', {})

    def isstream(self, n):
        t = self.ctype(n)
        return any(x in t for x in ('basic_ostream', 'ofstream', 'ostream', 'basic_istream', 'ios_base'))

    def expr(self, n, noplace=False):
        k = n['kind']
        if k in TRANSPARENT:
            return self.expr([c for c in n['inner'] if 'kind' in c][0], noplace)
        if k == 'IntegerLiteral':
            t = self.ty(n); v = n['value']
            return '%s%s' % (v, t), t
        if k == 'CXXBoolLiteralExpr':
            return ('true' if n['value'] in (True, 'true') else 'false'), 'bool'
        if k == 'StringLiteral': return 'mkstr()', 'Str'
        if k == 'CharacterLiteral':
            return '%di8' % n['value'], 'i8'
        if k == 'CXXNullPtrLiteralExpr' or k == 'GNUNullExpr': return '0usize', 'usize'
        if k == 'CXXThisExpr':
            return self.read(self.thisplace), None
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'):
            if k == 'ImplicitCastExpr' and n.get('castKind') == 'ArrayToPointerDecay' and self.skip(n['inner'][0])['kind'] == 'StringLiteral': return 'mkstr()', 'Str'
            return self.cast(n)
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr') and not noplace:
            if k == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'EnumConstantDecl':
                return self.enumconst(n)
            pl = self.place(n)
            return self.blk(pl.pre, self.read(pl)), pl.ty or self.ty(n)
        if k == 'UnaryOperator': return self.unary(n)
        if k == 'BinaryOperator': return self.binary(n)
        if k == 'CompoundAssignOperator':
            pl, pre = self.freeze(self.place(n['inner'][0]))
            return '{ %s %s }' % (' '.join(pre) + ' ' + self.stmt_expr(n, placeover=(pl, [])), self.read(pl)), self.ty(n)
        if k == 'ConditionalOperator':
            c = self.cond(n['inner'][0])
            a, ta = self.expr(n['inner'][1]); b, tb = self.expr(n['inner'][2])
            if ta != tb:
                t = self.ty(n); a = self.coerce(a, ta, t); b = self.coerce(b, tb, t); ta = t
            return '(if %s { %s } else { %s })' % (c, a, b), ta
        if k == 'CallExpr': return self.call(n)
        if k == 'CXXMemberCallExpr': return self.membercall(n)
        if k == 'CXXOperatorCallExpr': return self.opcall(n)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return self.construct(n)
        if k == 'CXXDefaultArgExpr': raise Unsupported('default argument')
        if k == 'CXXNewExpr': return self.new(n)
        if k == 'CXXScalarValueInitExpr' or k == 'ImplicitValueInitExpr':
            t = self.ty(n)
            return ('0' + t if t in INTS else self.p.default_value(t)), t
        if k == 'UnaryExprOrTypeTraitExpr': raise Unsupported('sizeof')
        raise Unsupported('expr kind %s' % k)

    def enumconst(self, n):
        nm = n['referencedDecl']['name']
        if nm in self.u.consts: return self.u.consts[nm], 'i32'
        v = self.p.enumvals.get(nm)
        if v is None: raise Unsupported('enum constant ' + nm)
        return '%di32' % v, 'i32'

    def cond(self, n):
        c, t = self.expr(n)
        return self.coerce(c, t, 'bool')

    def cast(self, n):
        ck = n.get('castKind'); sub = [c for c in n['inner'] if 'kind' in c][0]
        if ck in ('LValueToRValue',):
            pl = self.place(sub)
            return self.blk(pl.pre, self.read(pl)), pl.ty or self.ty(n)
        if ck == 'NullToPointer':
            return '0usize', 'usize'
        if ck in ('NoOp', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return self.expr(sub)
        if ck == 'IntegralCast':
            c, t = self.expr(sub); b = self.ty(n)
            if t == 'bool' : return c, t     # comparison results (NTL's long) stay boolean until used as int
            m = re.match(r'^\(?\s*(-?)\s*(\d+)(?:[iu](?:8|16|32|64|size))?\s*\)?$', c) or re.match(r'^\(\s*(-)\s*\(?(\d+)(?:[iu](?:8|16|32|64|size))?\)?\s*\)$', c)
            if m and b[0] == 'i' and b[1:].isdigit() and int(m.group(2)) < (1 << (int(b[1:]) - 1)):
                return ('(-%s%s)' if m.group(1) else '%s%s') % (m.group(2), b), b
            return self.coerce(c, t, b), b
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            c, t = self.expr(sub)
            if ck == 'PointerToBoolean' and t and t.startswith('Vc<'): return '(vlen(%s) != 0)' % c, 'bool'   # a null array is the empty one
            if ck == 'PointerToBoolean' and t != 'usize': return 'true', 'bool'
            return self.coerce(c, t, 'bool'), 'bool'
        if ck == 'ToVoid':
            return '{ %s }' % self.stmt_expr(sub), '()'
        raise Unsupported('cast ' + str(ck))

    def incdec_stmt(self, pl, op, t):
        v = self.read(pl)
        if t == 'Z': e = 'zz_%s(%s, zi(1))' % ('add' if op == '++' else 'sub', v)
        elif t == 'Q': e = 'q_%s(%s, q_of_z(zi(1)))' % ('add' if op == '++' else 'sub', v)
        elif t in INTS: e = '(%s %s 1)' % (v, op[0])
        else: raise Unsupported('++ on ' + str(t))
        return self.write(pl, e)

    def unary(self, n):
        op = n['opcode']; s = n['inner'][0]
        if op in ('++', '--'):
            t = self.ty(s)
            pl, pre = self.freeze(self.place(s))
            st = self.incdec_stmt(pl, op, t)
            if n.get('isPostfix'):
                o = self.fresh('o')
                return '{ %s let %s = %s; %s %s }' % (' '.join(pre), o, self.read(pl), st, o), t
            return '{ %s %s %s }' % (' '.join(pre), st, self.read(pl)), t
        if op == '!':
            return '(!%s)' % self.cond(s), 'bool'
        if op == '-':
            c, t = self.expr(s)
            if t in INTS:
                m = re.match(r'^(\d+)(\w+)$', c)
                if m: return '(-%s)' % c, t
                return '(-%s)' % c, t
        if op == '+': return self.expr(s)
        if op == '*':
            pl = self.deref(s); return self.blk(pl.pre, self.read(pl)), pl.ty or self.ty(n)
        if op == '&':
            pt = strip_cv(self.ctype(n))
            e = strip_cv(pt[:-1])
            if e in self.u.ptr_heap: raise Unsupported('address of heap object')
            pl = self.place(s); return self.blk(pl.pre, self.read(pl)), pl.ty
        raise Unsupported('unary ' + op)

    def binary(self, n):
        op = n['opcode']; a, b = n['inner']
        if op == '=':
            pl, pre = self.freeze(self.place(a))
            return '{ %s %s }' % (' '.join(pre) + ' ' + self.stmt_expr(n, placeover=(pl, [])), self.read(pl)), self.ty(n)
        if op == ',':
            e, t = self.expr(b)
            return '{ %s %s }' % (self.stmt_expr(a), e), t
        if op in ('&&', '||'):
            return '(%s %s %s)' % (self.cond(a), op, self.cond(b)), 'bool'
        # pointer identity of 'this' and a by-reference parameter
        if op in ('==', '!='):
            r = self.addrcmp(a, b)
            if r is not None: return ('true' if r == (op == '==') else 'false'), 'bool'
        if op in ('<', '<=', '>', '>='):    # a 32-bit integer against a floating-point literal (both exact in a double)
            def strip(q):
                while q['kind'] == 'ParenExpr': q = q['inner'][0]
                return q
            fa, fb = strip(a), strip(b)
            for l, r, o in ((fa, fb, op), (fb, fa, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
                if l['kind'] == 'ImplicitCastExpr' and l.get('castKind') == 'IntegralToFloating' and r['kind'] == 'FloatingLiteral':
                    v = float(r['value']); x, tx = self.expr(l['inner'][0])
                    if tx != 'i32' or abs(v) > 2 ** 30: raise Unsupported('floating-point comparison')
                    c = math.ceil(v) if o in ('<', '>=') else math.floor(v)
                    return '(%s %s %s)' % (x, o, self.neglit(c)), 'bool'
        x, tx = self.expr(a); y, ty_ = self.expr(b)
        if op in ('==', '!='):
            nx, ny = self.isnull(a), self.isnull(b)
            if nx and ty_ != 'usize' or ny and tx != 'usize':
                return ('false' if op == '==' else 'true'), 'bool'
        if tx == 'bool' and ty_ in INTS: x = self.coerce(x, 'bool', ty_); tx = ty_
        if ty_ == 'bool' and tx in INTS: y = self.coerce(y, 'bool', tx); ty_ = tx
        if tx != ty_: raise Unsupported('binary %s on %s,%s' % (op, tx, ty_))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if tx in INTS or tx == 'usize' or tx == 'bool': return '(%s %s %s)' % (x, op, y), 'bool'
        if op == '*' and tx in INTS and tx[0] == 'i':     # times -1 overflows exactly when negation does
            for a, b in ((x, y), (y, x)):
                if re.match(r'^\(*-1(i\d+)?\)*$', b): return '(-%s)' % a, tx
        if op in ('+', '-', '*') and tx in INTS: return '(%s %s %s)' % (x, op, y), tx
        if op in ('/', '%') and tx in INTS:
            return '%s_%s(%s, %s)' % (tx, 'div' if op == '/' else 'rem', x, y), tx
        if op in ('&', '|', '^') and tx == 'bool': return '(%s %s %s)' % (x, op, y), 'bool'
        if op in ('<<', '>>', '&', '|', '^') and tx in INTS: return '%s_%s(%s, %s)' % (tx, {'<<': 'shl', '>>': 'shr', '&': 'and', '|': 'or', '^': 'xor'}[op], x, y), tx
        raise Unsupported('binary %s on %s' % (op, tx))

    def isnull(self, n):
        n = self.skip(n)
        return n['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'NullToPointer'

    def addrcmp(self, a, b):
        a, b = self.skip(a), self.skip(b)
        def obj(x):
            if x['kind'] == 'CXXThisExpr': return self.thisplace
            if x['kind'] == 'UnaryOperator' and x['opcode'] == '&':
                try: return self.place(x['inner'][0])
                except Unsupported: return None
            return None
        if not (a['kind'] == 'CXXThisExpr' or b['kind'] == 'CXXThisExpr' or a['kind'] == 'UnaryOperator' and a.get('opcode') == '&' or b['kind'] == 'UnaryOperator' and b.get('opcode') == '&'): return None
        p, q = obj(a), obj(b)
        if p is None or q is None: return None
        if p.root[0] == 'heap' or q.root[0] == 'heap': return None
        return p.root[:2] == q.root[:2] and p.key()[1] == q.key()[1]

    # ------------------------------------------------------------- calls
    def args_for(self, f, nodes, thisobj=None, ctor=False):
        """evaluate args of a contract call; returns pre statements, arg codes, post statements"""
        pre, post, out, places = [], [], [], []
        for i, a in enumerate(nodes):
            if i >= len(f.params): break
            p = f.params[i]; t = self.T.rust(p)
            byref = is_ref(p) and not is_const_ref(p)
            pm = strip_cv(p)
            refptr = pm.endswith('*') and strip_cv(pm[:-1]) in (self.u.ptr_ref | self.u.ptr_arr) or (pm.endswith('*') and t and t.startswith('Vc<') )
            constptr = pm.endswith('*') and (p.strip().startswith('const ') )
            if a['kind'] == 'CXXDefaultArgExpr':
                d = f.defaults_for(i) if hasattr(f, 'defaults_for') else None
                if f.node is not None:
                    init = [c for c in self.p.params_of(f.node)[i].get('inner', []) if 'kind' in c]
                    if init:
                        c, ct = self.expr(init[-1]); t2 = self.fresh('a'); pre.append('let %s = %s;' % (t2, self.coerce(c, ct, t))); out.append(t2); places.append(None); continue
                raise Unsupported('default argument %d of %s' % (i, f.rust))
            if byref or (refptr and not constptr):
                if refptr and not byref:
                    pl = self.deref_obj(a)
                else: pl = self.place(a)
                pl, pp = self.freeze(pl); pre += pp
                places.append((i, pl, True))
                if pl.root[0] == 'var' and all(x[0] == 'f' for x in pl.path):
                    nm = '.'.join([pl.root[1]] + [x[1] for x in pl.path])
                    out.append('&mut %s' % nm if not (pl.root[2] == 'refmut' and not pl.path) else '&mut *%s' % nm)
                elif pl.root[0] == 'val':
                    if refptr and not byref: raise Unsupported('object behind a pointer is not a modelled place')
                    if len(pl.root) > 2: raise Unsupported('object written through %s is not a modelled place' % pl.root[1][:40])
                    t2 = self.fresh('m'); pre.append('let mut %s = %s;' % (t2, pl.root[1])); out.append('&mut %s' % t2)
                else:
                    t2 = self.fresh('m'); pre.append('let mut %s = %s;' % (t2, self.read(pl))); out.append('&mut %s' % t2)
                    post.append(self.write(pl, t2))
            else:
                if is_const_ref(p) or constptr:
                    try:
                        pl = self.deref_obj(a) if (constptr and refptr) else self.place(a)
                        if pl.root[0] != 'val': places.append((i, pl, False))
                        c, ct = self.blk(pl.pre, self.read(pl)), pl.ty
                    except Unsupported:
                        c, ct = self.expr(a)
                else: c, ct = self.expr(a)
                c = self.coerce(c, ct, t) if ct else c
                if re.match(r'^(\w+|\d+\w*)$', c) and False: out.append(c)
                else:
                    t2 = self.fresh('a'); pre.append('let %s = %s;' % (t2, c)); out.append(t2)
        return pre, out, post, places

    def deref_obj(self, a):
        m = self.skip(a)
        if m['kind'] == 'UnaryOperator' and m['opcode'] == '&': return self.place(m['inner'][0])
        if m['kind'] == 'CXXThisExpr': return self.thisplace
        while m['kind'] == 'ImplicitCastExpr' and m.get('castKind') in ('LValueToRValue', 'NoOp', 'ArrayToPointerDecay', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase'): m = m['inner'][0]
        return self.place(m)

    def contract_call(self, f, nodes, thispl=None, thisconst=False, n=None):
        self.meta_calls.add(f.rust)
        pre, out, post, places = self.args_for(f, nodes)
        pn = f.params
        muts = [(('arg', i), pl) for (i, pl, m) in [x for x in places if x] if m]
        reads = [(('arg', i), pl) for (i, pl, m) in [x for x in places if x] if not m]
        if thispl is not None and not thisconst: muts.append((('this',), thispl))
        rust = f.rust; dropped = set()
        # aliasing between written places and others
        pairs = []
        for a, pa in muts:
            for b, pb in muts + reads:
                if a != b and overlap(pa, pb): pairs.append((a, b, pa, pb))
        if pairs:
            hit = self.alias_variant(f, pairs, thispl)
            if hit is None: raise Unsupported('aliased call to %s %s' % (f.rust, [(a, b) for a, b, _, _ in pairs]))
            rust, dropped = hit
        args = []
        if f.heap: args.append('hp')
        prethis = []
        if thispl is not None and f.name != self.ctor_of(f):
            if thisconst:
                args.append(self.read(thispl))
            else:
                pl, pp = self.freeze(thispl); pre = pp + pre
                if pl.root[0] == 'var' and all(x[0] == 'f' for x in pl.path):
                    nm = '.'.join([pl.root[1]] + [x[1] for x in pl.path])
                    args.append(('&mut *%s' % nm) if pl.root[2] == 'refmut' and not pl.path else '&mut %s' % nm)
                else:
                    if pl.root[0] == 'val' and len(pl.root) > 2: raise Unsupported('object written through %s is not a modelled place' % pl.root[1][:40])
                    t2 = self.fresh('m'); pre.append('let mut %s = %s;' % (t2, self.read(pl)))
                    args.append('&mut %s' % t2)
                    if pl.root[0] != 'val': post.append(self.write(pl, t2))
        args += [a for i, a in enumerate(out) if i not in dropped]
        callc = '%s(%s)' % (rust, ', '.join(args))
        rt = self.ret_type(f, n)
        hk = self.callhook('call', f.rust); hpre = self.callhook('precall', f.rust)
        if f.heap or post or hk or hpre:
            r = self.fresh('r')
            def sub(t):
                t = t.replace('$ret', r)
                return re.sub(r'\$(\d)', lambda m: out[int(m.group(1)) - 1], t)
            return '{ %s %s let %s = %s; %s %s %s }' % (' '.join(pre), sub(hpre), r, callc, ' '.join(post), sub(hk), r), rt
        return self.blk(pre, callc), rt

    def ctor_of(self, f): return f.cls.split('::')[-1] if f.cls else None

    def ret_type(self, f, n):
        rr = [k for k in f.opts if k.startswith('->')]
        if rr: return rr[0][2:]
        if f.node is not None:
            if f.node['kind'] == 'CXXConstructorDecl': return self.T.rust(f.cls)
            return self.fn_ret(f.node)
        if n is not None: return self.ty(n)
        return '()'

    def fn_ret(self, node):
        q = node['type']['qualType']; i = 0; d = 0
        # return type precedes the first top-level '('
        for i, ch in enumerate(q):
            if ch == '<': d += 1
            if ch == '>': d -= 1
            if ch == '(' and d == 0: break
        return self.T.rust(q[:i].strip())

    def alias_variant(self, f, pairs, thispl):
        """find @alias variant of f matching the overlapping argument places"""
        pnames = [c.get('name') for c in self.p.params_of(f.node)] if f.node else ['a%d' % i for i in range(len(f.params))]
        for rn, am in f.aliases:
            covered = set()
            okall = True
            for a, b, pa, pb in pairs:
                ok = False
                for pname, target in am.items():
                    if pname not in pnames: continue
                    i = pnames.index(pname)
                    tb, *tf = target.split('.')
                    if b == ('arg', i) and (tb == 'this' and a == ('this',) or tb in pnames and a == ('arg', pnames.index(tb))):
                        want = list(pa.key()[1]) + [self.p.fld(x) for x in tf]
                        if list(pb.key()[1]) == want: ok = True; covered.add(pname)
                    if a == ('arg', i) and b[0] == 'arg' and tb == pnames[b[1]] and not tf: ok = True; covered.add(pname)
                    if a == ('arg', i) and b == ('this',) and tb == 'this': ok = True; covered.add(pname)
                if not ok: okall = False
            if okall and covered == set(am):
                return rn, {pnames.index(x) for x in am}
        return None

    def call(self, n):
        name = self.calleename(n); args = [a for a in n['inner'][1:]]
        if name in ('abort', 'exit', 'terminate', '_exit'):
            return 'cpp_abort(Ghost(%s))' % self.abortcond(), '()'
        if name == '__assert_fail': return 'assert_ob(false)', '()'
        d = self.calleedecl(n)
        # contract?
        cls = None
        if d.get('kind') == 'CXXMethodDecl': cls = '*'
        if name is None: raise Unsupported('indirect call')
        if name in self.u.structs and False: pass
        argv = []
        try:
            for a in args: argv.append(self.argty(a))
        except Unsupported: argv = None
        if name == 'memset': argv = None
        if argv is not None:
            f = None
            if cls == '*':
                for s in self.u.structs:
                    f = f or self.p.lookup(s.split('::')[-1], name, argv)
            else: f = self.p.lookup(None, name, argv)
            if f is not None: return self.contract_call(f, args, n=n)
        lib = self.libfun(n, name, args)
        if lib is not None: return lib
        if argv is not None:
            b = self.p.find_body(None, name, argv)
            if b is None and cls == '*':
                for s in self.u.structs:
                    b = b or self.p.find_body(s.split('::')[-1], name, argv)
            if b is None: b = self.fetch_body(None, name, argv)
            if b is not None: return self.inline(b, args, None, n)
        raise Unsupported('call %s(%s)' % (name, argv))

    def argty(self, a):
        if a['kind'] == 'CXXDefaultArgExpr': return None
        return self.ty(a) if self.skip(a)['kind'] != 'CXXThisExpr' else self.thisplace.ty

    def fetch_body(self, cls, name, argv):
        # look for a definition in the function's own translation unit (a helper without contract)
        import cppast
        if (cls, name) in getattr(self.p, 'tried', set()): return None
        self.p.tried = getattr(self.p, 'tried', set()) | {(cls, name)}
        src = self.f.src
        try: objs = cppast.dump(src, (cls + '::' if cls else '') + name)
        except Exception: return None
        for o in objs:
            C.annotate_lines(o, {}, {})
            def rec(o, c):
                if o.get('kind') == 'CXXRecordDecl':
                    for x in o.get('inner', []): rec(x, o.get('name'))
                if o.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and o.get('name') == name and cppast.has_body(o):
                    f = (o.get('_loc') or (None,))[0]
                    o['_cls'] = cls; o['_sig'] = (cls, o['type']['qualType'], None)
                    self.p.bodies.setdefault(name, []).append(o)
            rec(o, None)
        return self.p.find_body(cls, name, argv)

    def abortcond(self):
        return self.fixb(self.f.aborts) if self.f else 'false'

    # library functions on modelled values ------------------------------------
    OUT3 = {'add': 'zz_add', 'sub': 'zz_sub', 'mul': 'zz_mul', 'div': 'zz_div', 'rem': 'zz_rem', 'GCD': 'zz_gcd', 'power': 'zz_pow', 'divide': None}
    def memset(self, args):
        def strip(x):
            while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'): x = [c for c in x['inner'] if 'kind' in c][0]
            return x
        d, v, z = [strip(a) for a in args]
        frm = ('0', 'i64')
        if d['kind'] == 'UnaryOperator' and d['opcode'] == '&':
            d = strip(d['inner'][0])
            if d['kind'] != 'ArraySubscriptExpr': raise Unsupported('memset target')
            frm = self.expr(d['inner'][1]); d = strip(d['inner'][0])
        if not (v['kind'] == 'IntegerLiteral' and v['value'] == '0'): raise Unsupported('memset with a value')
        if not (z['kind'] == 'BinaryOperator' and z['opcode'] == '*'): raise Unsupported('memset size')
        a, b = [strip(x) for x in z['inner']]
        if a['kind'] == 'UnaryExprOrTypeTraitExpr': a, b = b, a
        if b['kind'] != 'UnaryExprOrTypeTraitExpr' or b.get('name') != 'sizeof': raise Unsupported('memset size')
        pl = self.place(d); t = self.tyor(d)
        if not (t and t.startswith('Vc<') and t[3:-1] in INTS): raise Unsupported('memset of ' + str(t))
        if b.get('argType') and self.T.rust(b['argType']['qualType']) != t[3:-1]: raise Unsupported('memset element size')
        pl, pre = self.freeze(pl)
        c, ct = self.expr(a)
        return '{ %s %s }' % (' '.join(pre), self.write(pl, 'vzero_%s(%s, %s, %s)' % (t[3:-1], self.read(pl), self.coerce(frm[0], frm[1], 'i64'), self.coerce(c, ct, 'i64')))), '()'

    def mpz_place(self, a):
        m = self.skip(a)
        while m['kind'] == 'ImplicitCastExpr': m = m['inner'][0]
        if m['kind'] == 'CXXMemberCallExpr':
            me = m['inner'][0]
            if me.get('name') == 'get_mpz_t': return self.place(me['inner'][0])
        raise Unsupported('mpz operand')

    def gmpfun(self, name, args):
        """the C interfaces of GMP and NTL that move numbers as bytes"""
        if name not in ('__gmpz_import', '__gmpz_export', '__gmpz_sizeinbase', '__gmpz_get_si', '__gmpz_bin_uiui', 'BytesFromZZ', 'ZZFromBytes', 'NumBytes'): return None
        ex = lambda i, to: (lambda ct: self.coerce(ct[0], ct[1], to))(self.expr(args[i]))
        if name == '__gmpz_sizeinbase': return 'mpz_bits(%s, %s)' % (self.rd(self.mpz_place(args[0])), ex(1, 'i32')), 'u64'
        if name == '__gmpz_get_si': return 'mpz_si(%s)' % self.rd(self.mpz_place(args[0])), 'i64'
        if name == 'NumBytes': return 'zz_numbytes(%s)' % ex(0, 'Z'), 'i64'
        if name == 'ZZFromBytes': return 'zz_frombytes(%s, %s)' % (self.rd(self.deref_obj(args[0])), ex(1, 'i64')), 'Z'
        if name == '__gmpz_bin_uiui':
            pl, pre = self.freeze(self.mpz_place(args[0]))
            return '{ %s %s }' % (' '.join(pre), self.write(pl, 'mpz_binom(%s, %s)' % (ex(1, 'u64'), ex(2, 'u64')))), '()'
        if name == 'BytesFromZZ':
            pl, pre = self.freeze(self.deref_obj(args[0]))
            return '{ %s %s }' % (' '.join(pre), self.write(pl, 'zz_bytes(%s, %s, %s)' % (self.read(pl), ex(1, 'Z'), ex(2, 'i64')))), '()'
        if name == '__gmpz_import':
            pl, pre = self.freeze(self.mpz_place(args[0]))
            return '{ %s %s }' % (' '.join(pre), self.write(pl, 'mpz_import(%s, %s, %s, %s, %s, %s)' % (ex(1, 'u64'), ex(2, 'i32'), ex(3, 'u64'), ex(4, 'i32'), ex(5, 'u64'), self.rd(self.deref_obj(args[6]))))), '()'
        p1, q1 = self.freeze(self.deref_obj(args[0])); p2, q2 = self.freeze(self.deref_obj(args[1])); w = self.fresh('w')
        return '{ %s let %s = mpz_export(%s, %s, %s, %s, %s, %s); %s %s }' % (' '.join(q1 + q2), w, self.read(p1), ex(2, 'i32'), ex(3, 'u64'), ex(4, 'i32'), ex(5, 'u64'), self.rd(self.mpz_place(args[6])), self.write(p1, w + '.0'), self.write(p2, w + '.1')), '()'

    def rd(self, pl): return self.blk(pl.pre, self.read(pl))

    def libfun(self, n, name, args):
        if name == 'memset' and len(args) == 3: return self.memset(args)
        if name == 'binary_search' and len(args) == 3: return self.bsearch(args)
        g = self.gmpfun(name, args)
        if g is not None: return g
        tys = [self.tyor(a) for a in args]
        ex = lambda i, to=None: (lambda ct: self.coerce(ct[0], ct[1], to) if to else ct[0])(self.expr(args[i]))
        def out(code):
            pl, pre = self.freeze(self.place(args[0]))
            return '{ %s %s }' % (' '.join(pre), self.write(pl, code)), '()'
        rett = n['type']['qualType']
        sigq = self.calleedecl(n).get('type', {}).get('qualType', '')
        if tys and tys[0] == 'Z':
            if name in ('add', 'sub', 'mul', 'div', 'rem', 'GCD') and len(args) == 3 and rett == 'void':
                return out('%s(%s, %s)' % (self.OUT3[name], ex(1, 'Z'), ex(2, 'Z')))
            if name in ('power',) and len(args) == 3 and rett == 'void': return out('zz_pow(%s, %s)' % (ex(1, 'Z'), ex(2, 'i64')))
            if name == 'power2' and len(args) == 2: return out('zz_pow(zi(2), %s)' % ex(1, 'i64'))
            if name == 'LeftShift' and len(args) == 3: return out('zz_mul(%s, zz_pow(zi(2), %s))' % (ex(1), ex(2, 'i64')))
            if name == 'NumBits' and len(args) == 1: return 'zz_numbits(%s)' % ex(0), 'i64'
            if name == 'negate' and len(args) == 2: return out('zz_neg(%s)' % ex(1))
            if name == 'abs' and len(args) == 2: return out('zz_abs(%s)' % ex(1))
            if name == 'set' and len(args) == 1: return out('zi(1)')
            if name == 'clear' and len(args) == 1: return out('zi(0)')
            if name == 'conv' and len(args) == 2: return out(ex(1, 'Z'))
            if name == 'swap' and len(args) == 2:
                p1, q1 = self.freeze(self.place(args[0])); p2, q2 = self.freeze(self.place(args[1]))
                s1, s2 = self.fresh('s'), self.fresh('s')
                return '{ %s let %s = %s; let %s = %s; %s %s }' % (' '.join(q1 + q2), s1, self.read(p1), s2, self.read(p2), self.write(p1, s2), self.write(p2, s1)), '()'
            if name == 'abs' and len(args) == 1: return 'zz_abs(%s)' % ex(0), 'Z'
            if name == 'sign' and len(args) == 1: return 'zz_sign(%s)' % ex(0), 'i64'
            if name == 'sgn' and len(args) == 1: return 'zz_sgn(%s)' % ex(0), 'i32'
            if name == 'IsZero': return 'zz_iszero(%s)' % ex(0), 'bool'
            if name == 'IsOne': return 'zz_isone(%s)' % ex(0), 'bool'
            if name == 'IsOdd': return 'zz_isodd(%s)' % ex(0), 'bool'
            if name == 'GCD' and len(args) == 2: return 'zz_gcd(%s, %s)' % (ex(0), ex(1)), 'Z'
            if name == 'power' and len(args) == 2: return 'zz_pow(%s, %s)' % (ex(0), ex(1, 'i64')), 'Z'
            if name == 'to_int': return 'zz_to_int(%s)' % ex(0), 'i32'
            if name == 'to_long': return 'zz_to_long(%s)' % ex(0), 'i64'
            if name == 'compare': return 'zz_compare(%s, %s)' % (ex(0, 'Z'), ex(1, 'Z')), 'i64'
            if name in ('to_ZZ',) : return ex(0), 'Z'
            if name == 'add' and len(args) == 2: return 'zz_add(%s, %s)' % (ex(0), ex(1, 'Z')), 'Z'
            if name == 'divide' and len(args) == 3:
                pl, pre = self.freeze(self.place(args[0])); a, b = self.fresh('a'), self.fresh('b'); f2 = self.fresh('f')
                return '{ %s let %s = %s; let %s = %s; let %s = zz_divides(%s, %s); if %s { %s } %s }' % (' '.join(pre), a, ex(1), b, ex(2), f2, a, b, f2, self.write(pl, 'zz_div(%s, %s)' % (a, b)), f2), 'bool'
            if name == 'divide' and len(args) == 2: return 'zz_divides(%s, %s)' % (ex(0), ex(1)), 'bool'
            if name == 'InnerProduct' and len(args) == 3: return out('vz_dot(%s, %s)' % (ex(1), ex(2)))
            if name == 'DivRem' and len(args) == 4:
                p1, q1 = self.freeze(self.place(args[0])); p2, q2 = self.freeze(self.place(args[1])); a, b = self.fresh('a'), self.fresh('b')
                return '{ %s let %s = %s; let %s = %s; %s %s }' % (' '.join(q1 + q2), a, ex(2), b, ex(3), self.write(p1, 'zz_div(%s, %s)' % (a, b)), self.write(p2, 'zz_rem(%s, %s)' % (a, b))), '()'
            if name == 'XGCD' and len(args) == 5:
                (p0, q0), (p1, q1), (p2, q2) = [self.freeze(self.place(args[i])) for i in range(3)]; a = self.fresh('a')
                return '{ %s let %s = zz_xgcd(%s, %s); %s %s %s }' % (' '.join(q0 + q1 + q2), a, ex(3, 'Z'), ex(4, 'Z'), self.write(p0, a + '.0'), self.write(p1, a + '.1'), self.write(p2, a + '.2')), '()'
            if name == 'determinant' and len(args) in (2, 3) and tys[1] == 'Mt': return out('mt_det(%s)' % ex(1))
            if name == 'image' and len(args) in (3, 4) and tys[1:3] == ['Mt', 'Mt']:
                p0, q0 = self.freeze(self.place(args[0])); p1, q1 = self.freeze(self.place(args[1])); p2, q2 = self.freeze(self.place(args[2])); a = self.fresh('a')
                return '{ %s let %s = mt_image(%s); %s %s %s }' % (' '.join(q0 + q1 + q2), a, self.read(p1), self.write(p0, a + '.0'), self.write(p1, a + '.1'), self.write(p2, a + '.2')), '()'
            if name == 'inv' and len(args) in (3, 4) and tys[1:3] == ['Mt', 'Mt']:
                p1, q1 = self.freeze(self.place(args[0])); p2, q2 = self.freeze(self.place(args[1])); a = self.fresh('a')
                return '{ %s let %s = mt_inv(%s, %s); %s %s }' % (' '.join(q1 + q2), a, ex(2), self.read(p2), self.write(p1, a + '.0'), self.write(p2, a + '.1')), '()'
        if name == 'to_ZZ' and tys[0] in INTS: return ex(0, 'Z'), 'Z'
        if name in ('power', 'power_ZZ') and len(args) == 2 and tys[0] in INTS and rett.endswith('ZZ'): return 'zz_pow(%s, %s)' % (ex(0, 'Z'), ex(1, 'i64')), 'Z'
        if name == 'power2_ZZ': return 'zz_pow(zi(2), %s)' % ex(0, 'i64'), 'Z'
        if name == 'abs' and tys[0] == 'i32': return 'i32_abs(%s)' % ex(0), 'i32'
        if name in ('abs', 'labs') and tys[0] == 'i64': return 'i64_abs(%s)' % ex(0), 'i64'
        if name in ('max', 'min') and len(args) == 2 and tys[0] == tys[1]:
            if tys[0] in INTS: return '%s_%s(%s, %s)' % (tys[0], name, ex(0), ex(1)), tys[0]
        if name == 'ident' and len(args) == 2 and tys[0] == 'Mt': return out('mt_ident(%s)' % ex(1, 'i64'))
        if name == 'determinant' and tys[0] == 'Mt': return 'mt_det(%s)' % ex(0), 'Z'
        if name == 'transpose' and len(args) == 1: return 'mt_transpose(%s)' % ex(0), 'Mt'
        if name == 'transpose' and len(args) == 2 and tys[0] == 'Mt': return out('mt_transpose(%s)' % ex(1))
        if name == 'swap' and len(args) == 2 and tys[0] == tys[1]:
            p1, q1 = self.freeze(self.place(args[0])); p2, q2 = self.freeze(self.place(args[1]))
            s1, s2 = self.fresh('s'), self.fresh('s')
            return '{ %s let %s = %s; let %s = %s; %s %s }' % (' '.join(q1 + q2), s1, self.read(p1), s2, self.read(p2), self.write(p1, s2), self.write(p2, s1)), '()'
        if tys and tys[0] == 'Vc<Z>' and name in ('negate',) and len(args) == 2: return out('vz_neg(%s)' % ex(1))
        if tys and tys[0] == 'Vc<Z>' and name in ('add', 'sub') and len(args) == 3: return out('vz_%s(%s, %s)' % (name, ex(1), ex(2)))
        if tys and tys[0] == 'Vc<Z>' and name == 'mul' and len(args) == 3 and tys[1] == 'Vc<Z>' and tys[2] == 'Z': return out('vz_scale(%s, %s)' % (ex(2), ex(1)))
        if tys and tys[0] == 'Vc<Z>' and name == 'mul' and len(args) == 3 and tys[1] == 'Z': return out('vz_scale(%s, %s)' % (ex(1), ex(2)))
        if tys and tys[0] == 'Vc<Z>' and name == 'clear' and len(args) == 1: return out('vz_zero(vlen(%s))' % ex(0))
        if name == 'IsZero' and tys[0] == 'Vc<Z>': return 'vz_iszero(%s)' % ex(0), 'bool'
        return None

    def membercall(self, n):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr',): me = me['inner'][0]
        if me['kind'] != 'MemberExpr': raise Unsupported('member call via ' + me['kind'])
        name = me['name']; obj = me['inner'][0]; args = n['inner'][1:]
        bt = self.objtype(me)
        if self.skip(obj)['kind'] == 'CXXThisExpr': bt = self.thisplace.ty
        while bt is None and obj['kind'] == 'ImplicitCastExpr' and obj.get('castKind') in ('DerivedToBase', 'UncheckedDerivedToBase'):
            # a member of an unmodelled base class, called on a modelled derived object
            obj = obj['inner'][0]; me = dict(me, inner=[obj]); bt = self.objtype(me)
        if bt is None: raise Unsupported('member call %s on %s' % (name, self.ctype(obj)))
        getpl = lambda: (self.deref(obj) if me.get('isArrow') else self.place(obj))
        if bt.startswith('Vc<'):
            e = bt[3:-1]; ex = lambda i, to=None: (lambda ct: self.coerce(ct[0], ct[1], to) if to else ct[0])(self.expr(args[i]))
            if name in ('length',): pl = getpl(); return self.blk(pl.pre, 'vlen(%s)' % self.read(pl)), 'i64'
            if name == 'size': pl = getpl(); return self.blk(pl.pre, 'vsize(%s)' % self.read(pl)), 'u64'
            if name == 'empty': pl = getpl(); return self.blk(pl.pre, '(vlen(%s) == 0)' % self.read(pl)), 'bool'
            pl, pre = self.freeze(getpl())
            cur = self.read(pl)
            if name in ('operator[]', 'at', 'back', 'front'):
                p2 = self.place(n); return self.blk(p2.pre, self.read(p2)), p2.ty
            w = lambda code: ('{ %s %s }' % (' '.join(pre), self.write(pl, code)), '()')
            if name == 'SetLength':
                if len(args) == 1: return w('ntl_setlength(%s, %s)' % (cur, ex(0, 'i64')) if e != 'Z' else 'ntl_setlength_z(%s, %s)' % (cur, ex(0, 'i64')))
            if name == 'resize':
                if len(args) == 1 or args[1]['kind'] == 'CXXDefaultArgExpr': return w('std_resize(%s, %s, %s)' % (cur, ex(0, 'u64'), self.zero(e)))
                return w('std_resize(%s, %s, %s)' % (cur, ex(0, 'u64'), ex(1, e)))
            if name in ('push_back', 'append'): return w('vpush(%s, %s)' % (cur, ex(0, e)))
            if name == 'pop_back': return w('vpop(%s)' % cur)
            if name in ('clear', 'kill'): return w('vnew::<%s>()' % e)
            if name == 'reserve': return '()', '()'
            if name == 'assign' and len(args) == 2: return w('vfill(%s, %s)' % (ex(0, 'u64'), ex(1, e)))
        if bt == 'Mt':
            if name == 'NumRows': pl = getpl(); return self.blk(pl.pre, 'mt_rows(%s)' % self.read(pl)), 'i64'
            if name == 'NumCols': pl = getpl(); return self.blk(pl.pre, 'mt_cols(%s)' % self.read(pl)), 'i64'
            if name == 'SetDims':
                pl, pre = self.freeze(getpl())
                a = [self.coerce(*self.expr(x), 'i64') for x in args]
                return '{ %s %s }' % (' '.join(pre), self.write(pl, 'mt_setdims(%s, %s, %s)' % (self.read(pl), a[0], a[1]))), '()'
            if name == 'kill':
                pl, pre = self.freeze(getpl()); return '{ %s %s }' % (' '.join(pre), self.write(pl, 'mt_new()')), '()'
        if bt == 'Z':
            if name == 'kill':
                pl, pre = self.freeze(getpl()); return '{ %s %s }' % (' '.join(pre), self.write(pl, 'zi(0)')), '()'
        if bt == 'Q':
            pl = getpl()
            if name == 'get_num': return self.blk(pl.pre, 'q_num(%s)' % self.read(pl)), 'Z'
            if name == 'get_den': return self.blk(pl.pre, 'q_den(%s)' % self.read(pl)), 'Z'
            if name == 'canonicalize':
                if not any('fn q_canon(' in x for x in self.u.rs): return '()', '()'
                pl, pre = self.freeze(pl); return '{ %s %s }' % (' '.join(pre), self.write(pl, 'q_canon(%s)' % self.read(pl))), '()'
        cls = self.clsname(bt)
        argv = [self.argty(a) for a in args]
        argv2 = [a for a in argv if a is not None]
        f = self.p.lookup(cls, name, argv2) if len(argv2) == len(argv) else self.p.lookup(cls, name, argv2)
        if f is not None:
            pl = getpl()
            code, t = self.contract_call(f, args[:len(argv2)] if len(argv2) != len(argv) else args, Place(pl.root, pl.path, pl.ty), self.fconst(f), n)
            return self.blk(pl.pre, code), t
        b = self.p.find_body(cls, name, argv2) or self.fetch_body(cls, name, argv2)
        if b is not None:
            return self.inline(b, args, getpl(), n)
        raise Unsupported('member call %s::%s(%s)' % (cls, name, argv))

    def zero(self, e):
        if e in INTS: return '0' + e
        if e == 'bool': return 'false'
        if e == 'usize': return '0usize'
        for n, st in self.u.structs.items():
            if st['rust'] == e:
                f = self.p.lookup(n.split('::')[-1], n.split('::')[-1], [])
                if f is not None: return '%s()' % f.rust
        return self.p.default_value(e)

    def fconst(self, f):
        if f.node is not None: return f.node['type']['qualType'].rstrip().endswith('const')
        return f.const

    def opcall(self, n):
        op = self.calleename(n); args = n['inner'][1:]
        if op == 'operator<<' and (self.isstream(n) or self.isstream(args[0])):
            self.p.report['dropped'].add('stream output in ' + self.rn); return '()', '()'
        it = self.iterop(n)
        if it and it[0] != 'stmt': return it[1], it[0]
        if it: return '{ %s }' % it[1], '()'
        if op == 'operator*' and len(args) == 1 and self.isiter(args[0]):
            pl = self.place(n); return self.blk(pl.pre, self.read(pl)), pl.ty
        if op in ('operator[]', 'operator()'):
            bt = self.tyor(args[0])
            if bt and (bt.startswith('Vc<') or bt == 'Mt'):
                pl = self.place(n)
                return self.blk(pl.pre, self.read(pl)), pl.ty or self.ty(n)
        tys = []
        for a in args:
            tys.append(self.tyor(a) if self.skip(a)['kind'] != 'CXXThisExpr' else self.thisplace.ty)
        if any(t is None for t in tys): raise Unsupported('operator %s on %s' % (op, [self.ctype(a) for a in args]))
        o = op[8:]
        gmp = any('__gmp_expr' in self.ctype(a) for a in args)
        d = self.calleedecl(n)
        # user-defined operator under contract or in repo
        cls = self.clsname(tys[0])
        f = None
        if d.get('kind') == 'CXXMethodDecl':
            f = self.p.lookup(cls, op, tys[1:])
            if f is not None:
                pl = self.place(args[0])
                code, t = self.contract_call(f, args[1:], Place(pl.root, pl.path, pl.ty), self.fconst(f), n)
                return self.blk(pl.pre, code), t
        else:
            f = self.p.lookup(None, op, tys)
            if f is not None: return self.contract_call(f, args, n=n)
        base = o[:-1] if o in ('+=', '-=', '*=', '/=', '%=', '<<=', '>>=') else None
        if o == '=' or base:
            if o == '=' and not (tys[0] in ('Z', 'Q', 'Mt') or tys[0].startswith('Vc<')) :
                b = self.p.find_body(cls, op, tys[1:])
                if b is not None:
                    return self.inline(b, args[1:], self.place(args[0]), n)
            pl, pre = self.freeze(self.place(args[0]))
            if base and cls in [s.split('::')[-1] for s in self.u.structs]:
                b = self.p.find_body(cls, op, tys[1:])
                if b is not None: return self.inline(b, args[1:], pl, n)
            return '{ %s %s }' % (' '.join(pre) + ' ' + self.stmt_expr(n, placeover=(pl, [])), self.read(pl)), tys[0]
        if o in ('++', '--'):
            pl, pre = self.freeze(self.place(args[0]))
            st = self.incdec_stmt(pl, o, tys[0])
            if len(args) == 2:
                t = self.fresh('o'); return '{ %s let %s = %s; %s %s }' % (' '.join(pre), t, self.read(pl), st, t), tys[0]
            return '{ %s %s %s }' % (' '.join(pre), st, self.read(pl)), tys[0]
        es = [self.expr(a) for a in args]
        r = self.valop(o, es, gmp)
        if r is not None: return r
        if d.get('kind') == 'CXXMethodDecl':
            b = self.p.find_body(cls, op, tys[1:]) or self.fetch_body(cls, op, tys[1:])
            if b is not None: return self.inline(b, args[1:], self.place(args[0]), n)
        else:
            b = self.p.find_body(None, op, tys) or self.fetch_body(None, op, tys)
            if b is not None: return self.inline(b, args, None, n)
        raise Unsupported('operator %s on %s' % (op, tys))

    def valop(self, o, es, gmp):
        tys = [t for _, t in es]
        if len(es) == 2 and o == '<<' and tys[0] == 'Z': return 'zz_shl(%s, %s)' % (es[0][0], self.coerce(es[1][0], tys[1], 'i64')), 'Z'
        if len(es) == 1:
            c, t = es[0]
            if o == '-' and t == 'Z': return 'zz_neg(%s)' % c, 'Z'
            if o == '-' and t == 'Q': return 'q_neg(%s)' % c, 'Q'
            if o == '-' and t == 'Vc<Z>': return 'vz_neg(%s)' % c, t
            if o == '-' and t == 'Mt': return 'mt_neg(%s)' % c, t
            if o == '+' : return c, t
            return None
        if len(es) != 2: return None
        num = INTS | {'Z', 'Q', 'bool'}
        if all(t in num for t in tys) and any(t in ('Z', 'Q') for t in tys):
            if 'Q' in tys:
                a, b = [self.coerce(c, t, 'Q') for c, t in es]
                if o in '+-*/': return 'q_%s(%s, %s)' % ({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[o], a, b), 'Q'
                if o in ('==', '!=', '<', '<=', '>', '>='): return 'q_%s(%s, %s)' % ({'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[o], a, b), 'bool'
                return None
            if o in ('<<', '>>') and tys[0] == 'Z':
                return 'zz_%s(%s, %s)' % ('shl' if o == '<<' else 'shr', es[0][0], self.coerce(es[1][0], tys[1], 'i64')), 'Z'
            if o == '%' and not gmp and tys[1] in INTS:
                return 'zz_remi(%s, %s)' % (es[0][0], self.coerce(es[1][0], tys[1], 'i64')), 'i64'
            a, b = [self.coerce(c, t, 'Z') for c, t in es]
            m = {'+': 'zz_add', '-': 'zz_sub', '*': 'zz_mul', '/': 'mp_div' if gmp else 'zz_div', '%': 'mp_rem' if gmp else 'zz_rem'}
            if o in m: return '%s(%s, %s)' % (m[o], a, b), 'Z'
            m = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
            if o in m: return 'zz_%s(%s, %s)' % (m[o], a, b), 'bool'
        if tys == ['Vc<Z>', 'Vc<Z>']:
            m = {'+': ('vz_add', 'Vc<Z>'), '-': ('vz_sub', 'Vc<Z>'), '*': ('vz_dot', 'Z'), '==': ('vz_eq', 'bool'), '!=': ('vz_ne', 'bool')}
            if o in m: return '%s(%s, %s)' % (m[o][0], es[0][0], es[1][0]), m[o][1]
        if o == '*' and 'Vc<Z>' in tys and all(t in INTS | {'Z', 'Vc<Z>'} for t in tys):
            if tys[0] == 'Vc<Z>': return 'vz_scale(%s, %s)' % (self.coerce(es[1][0], tys[1], 'Z'), es[0][0]), 'Vc<Z>'
            return 'vz_scale(%s, %s)' % (self.coerce(es[0][0], tys[0], 'Z'), es[1][0]), 'Vc<Z>'
        if tys == ['Mt', 'Mt'] and o == '*': return 'mt_mul(%s, %s)' % (es[0][0], es[1][0]), 'Mt'
        if o == '*' and tys[1] == 'Mt' and tys[0] in INTS | {'Z'}: return 'mt_scale(%s, %s)' % (self.coerce(es[0][0], tys[0], 'Z'), es[1][0]), 'Mt'
        if o == '*' and tys[0] == 'Mt' and tys[1] in INTS | {'Z'}: return 'mt_scale(%s, %s)' % (self.coerce(es[1][0], tys[1], 'Z'), es[0][0]), 'Mt'
        if tys == ['Mt', 'Vc<Z>'] and o == '*': return 'mt_mulv(%s, %s)' % (es[0][0], es[1][0]), 'Vc<Z>'
        if tys == ['Vc<Z>', 'Mt'] and o == '*': return 'vz_mulmt(%s, %s)' % (es[0][0], es[1][0]), 'Vc<Z>'
        if tys[0] == tys[1] and o in ('==', '!=') and (tys[0] in ('Mt',) or tys[0].startswith('Vc<')):
            return '%s%s(%s, %s)' % ('' if o == '==' else '!', 'val_eq', es[0][0], es[1][0]), 'bool'
        return None

    def construct(self, n):
        t = self.ty(n); args = [a for a in n.get('inner', []) if 'kind' in a]
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr' or True]
        real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if len(real) == 1:
            at = self.tyor(real[0])
            if at == t and n.get('ctorType', {}).get('qualType', '').count('&') >= 1 or (at == t and t in ('Z', 'Q', 'Mt')) :
                f = self.p.lookup(self.clsname(t), self.clsname(t), [at])
                ub = self.p.find_body(self.clsname(t), self.clsname(t), [at])
                if (f is None or f.cls is None) and not (ub and not ub.get('isImplicit') and not ub.get('explicitlyDefaulted')): return self.expr(real[0])
        cls = self.clsname(t)
        if t in ('Z', 'Q', 'Mt') or t.startswith('Vc<'):
            if not real: return self.p.default_value(t), t
            if t == 'Z':
                if len(real) == 1: c, at = self.expr(real[0]); return self.coerce(c, at, 'Z'), 'Z'
                if len(real) == 2 and 'INIT_VAL' in self.ctype(real[0]) or len(real) == 2 and 'INIT_VAL_STRUCT' in self.ctype(real[0]):
                    c, at = self.expr(real[1]); return self.coerce(c, at, 'Z'), 'Z'
            if t == 'Q':
                es = [self.expr(a) for a in real]
                if len(es) == 1: return self.coerce(es[0][0], es[0][1], 'Q'), 'Q'
                return 'q_frac(%s, %s)' % tuple(self.coerce(c, tt, 'Z') for c, tt in es), 'Q'
            if t.startswith('Vc<'):
                es = [self.expr(a) for a in real]
                if es[0][1] in INTS: 
                    init = self.coerce(es[1][0], es[1][1], t[3:-1]) if len(es) > 1 else self.zero(t[3:-1])
                    return 'vfill(%s, %s)' % (self.coerce(es[0][0], es[0][1], 'u64'), init), t
                if es[0][1] == t: return es[0][0], t
            raise Unsupported('construct %s' % t)
        argv = [self.argty(a) for a in real]
        wcls = strip_cv(n['type']['qualType'])
        if any(x == wcls for x, y in self.p.u.merges): cls = wcls
        f = self.p.lookup(cls, cls, argv)
        if f is not None:
            return self.contract_call(f, real, n=n)
        b = self.p.find_body(cls, cls, argv)
        if b is not None: return self.inline_ctor(b, real, t)
        if not real: return self.p.default_value(t), t
        if len(real) == 1 and argv[0] == t: return self.expr(real[0])
        raise Unsupported('constructor %s(%s)' % (cls, argv))

    def new(self, n):
        t = strip_cv(n['type']['qualType'])
        e = strip_cv(t[:-1])
        inner = [c for c in n.get('inner', []) if 'kind' in c]
        if n.get('isArray'):
            r = self.ty(n)
            szn = [c for c in inner if c['kind'] != 'CXXConstructExpr'][0]
            c, ct = self.expr(szn)
            el = r[3:-1]
            if el == 'Z' : return 'vfill(%s, zi(0))' % self.coerce(c, ct, 'u64'), r
            if el in INTS or el in ('bool', 'usize'): return 'vhavoc::<%s>(%s)' % (el, self.coerce(c, ct, 'u64')), r
            return 'vfill(%s, %s)' % (self.coerce(c, ct, 'u64'), self.zero(el)), r
        if e in self.u.ptr_heap:
            v = self.expr(inner[-1])[0] if inner else self.p.default_value(self.T.rust(e))
            w = self.fresh('w')
            return '{ let %s = %s; new_%s(hp, %s) }' % (w, v, self.p.hn(e), w), 'usize'
        if inner: return self.expr(inner[-1])
        return self.p.default_value(self.T.rust(e)), self.T.rust(e)

    # ----------------------------------------------------------- inlining
    def inline_place(self, n, bt, name, obj, args, arrow=False):
        """accessor whose body is `return <place>;`"""
        cls = self.clsname(bt)
        if bt is None: return None
        argv = [self.argty(a) for a in args]
        if self.p.lookup(cls, name, argv) is not None: return None
        b = self.p.find_body(cls, name, argv) or self.fetch_body(cls, name, argv)
        if b is None: return None
        body = [c for c in b['inner'] if c['kind'] == 'CompoundStmt'][0].get('inner', [])
        if len(body) != 1 or body[0]['kind'] != 'ReturnStmt': return None
        self.p.report['inlined'].add('%s::%s' % (cls, name))
        save = self.thisplace, self.inline_depth
        tp = self.deref(obj) if arrow else self.place(obj)
        pre = []
        for p, a in zip(self.p.params_of(b), args):
            if is_ref(p['type']['qualType']):
                pl, pp = self.freeze(self.place(a)); pre += pp
                self.vars[p['id']] = ('alias', pl)
            else:
                c, t = self.expr(a); nm = self.fresh('q'); pre.append('let %s = %s;' % (nm, self.coerce(c, t, self.ty(p)))); self.vars[p['id']] = ('var', nm, self.ty(p), 'val')
        self.thisplace = tp; self.inline_depth += 1
        try: r = self.place(body[0]['inner'][0])
        finally: self.thisplace, self.inline_depth = save
        return Place(r.root, r.path, r.ty, pre + r.pre)

    def inline(self, b, args, thispl, n):
        nm = '%s%s' % (b['_cls'] + '::' if b.get('_cls') else '', b['name'])
        if self.inline_depth > 6: raise Unsupported('inline depth')
        self.p.report['inlined'].add(nm)
        save = (self.thisplace, self.inline_depth, self.loopstack)
        pre = []
        if thispl is not None:
            thispl, pp = self.freeze(thispl); pre += pp
        for i, p in enumerate(self.p.params_of(b)):
            a = args[i] if i < len(args) else None
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                init = [c for c in p.get('inner', []) if 'kind' in c]
                if not init: raise Unsupported('default arg of inlined ' + nm)
                c, t = self.expr(init[-1]); v = self.fresh('q'); pre.append('let mut %s = %s;' % (v, self.coerce(c, t, self.ty(p)))); self.vars[p['id']] = ('var', v, self.ty(p), 'val'); continue
            q = p['type']['qualType']; t = self.ty(p)
            pm = strip_cv(q)
            if is_ref(q):
                pl, pp = self.freeze(self.place(a)); pre += pp
                if pl.root[0] == 'val':
                    v = self.fresh('q'); pre.append('let mut %s = %s;' % (v, self.read(pl))); pl = Place(('var', v, 'val'), (), t)
                pl.ty = pl.ty or t
                self.vars[p['id']] = ('alias', pl)
            elif pm.endswith('*') and t != 'usize':
                pl, pp = self.freeze(self.deref_obj(a)); pre += pp
                self.vars[p['id']] = ('alias', pl)
            else:
                c, ct = self.expr(a); v = self.fresh(p.get('name', 'q'))
                pre.append('let mut %s = %s;' % (v, self.coerce(c, ct, t))); self.vars[p['id']] = ('var', v, t, 'val')
        self.thisplace = thispl; self.inline_depth += 1; self.loopstack = []
        try:
            rt = self.fn_ret(b)
            body = [c for c in b['inner'] if c['kind'] == 'CompoundStmt'][0].get('inner', [])
            txt = self.valblock(body, rt)
        finally: self.thisplace, self.inline_depth, self.loopstack = save
        return '{ %s %s }' % (' '.join(pre), txt), rt

    def inline_ctor(self, b, args, t):
        self.p.report['inlined'].add('%s::%s' % (b.get('_cls'), b['name']))
        save = (self.thisplace, self.inline_depth, self.loopstack)
        pre = []
        for i, p in enumerate(self.p.params_of(b)):
            a = args[i] if i < len(args) else [x for x in p.get('inner', []) if 'kind' in x][-1]
            c, ct = self.expr(a); v = self.fresh(p.get('name', 'q'))
            pre.append('let mut %s = %s;' % (v, self.coerce(c, ct, self.ty(p)))); self.vars[p['id']] = ('var', v, self.ty(p), 'val')
        obj = self.fresh('obj')
        pre.append('let mut %s = %s;' % (obj, self.p.default_value(t)))
        self.thisplace = Place(('var', obj, 'val'), (), t); self.inline_depth += 1; self.loopstack = []
        try:
            txt = self.ctor_inits(b)
            body = [c for c in b['inner'] if c['kind'] == 'CompoundStmt'][0].get('inner', [])
            if body: txt += self.valblock(body, '()') + ';'
        finally: self.thisplace, self.inline_depth, self.loopstack = save
        return '{ %s %s %s }' % (' '.join(pre), txt, obj), t

    def ctor_inits(self, b):
        out = ''
        for c in b.get('inner', []):
            if c['kind'] == 'CXXCtorInitializer':
                if 'anyInit' in c:
                    fld = c['anyInit'].get('name')
                    e = [x for x in c.get('inner', []) if 'kind' in x]
                    if not e: continue
                    q = c['anyInit'].get('type', {})
                    try: ft = self.T.rust(q['qualType'], q.get('desugaredQualType'))
                    except Unsupported:
                        self.p.report['dropped'].add('initializer of field ' + str(fld)); continue
                    if e[0]['kind'] in ('CXXDefaultInitExpr',): continue
                    code, t = self.expr(e[0])
                    out += self.write(self.thisplace.ext(('f', self.p.fld(fld))), self.coerce(code, t, ft)) + '\n'
                else:
                    # base of a @merge'd pair: the one record starts as what the base constructor makes
                    e = [x for x in c.get('inner', []) if 'kind' in x]
                    if not e or not self.p.u.merges: raise Unsupported('base initializer')
                    code, t = self.expr(e[0])
                    if t != self.thisplace.ty: raise Unsupported('base initializer of type %s' % t)
                    out += self.write(self.thisplace, code) + '\n'
        return out

    def hasret(self, n):
        return contains_kind(n, ('ReturnStmt',))

    def valblock(self, stmts, rt):
        """inlined body in value position"""
        if not stmts:
            return '()' if rt == '()' else 'unreached::<%s>()' % rt
        s, rest = stmts[0], stmts[1:]
        if s['kind'] == 'ReturnStmt':
            e = [c for c in s.get('inner', []) if 'kind' in c]
            if not e: return '()'
            if rt == '()': return '()'
            c, t = self.expr(e[0])
            if t is None: t = self.thisplace.ty
            return self.coerce(c, t, rt)
        if s['kind'] == 'CompoundStmt' and self.hasret(s):
            return self.valblock(s.get('inner', []) + rest, rt)
        if s['kind'] == 'IfStmt' and self.hasret(s):
            inner = [c for c in s['inner'] if 'kind' in c]
            c = self.cond(inner[0])
            a = self.valblock([inner[1]] + rest, rt)
            b = self.valblock(([inner[2]] if len(inner) > 2 else []) + rest, rt)
            return 'if %s { %s } else { %s }' % (c, a, b)
        if self.hasret(s): raise Unsupported('return inside %s of inlined function' % s['kind'])
        return self.stmt(s) + '\n' + self.valblock(rest, rt)

    # ---------------------------------------------------------- statements
    def stmt_expr(self, n, placeover=None):
        """expression statement"""
        n0 = n
        while n['kind'] in ('ExprWithCleanups', 'ParenExpr'): n = n['inner'][0]
        k = n['kind']
        if k == 'ConditionalOperator' and contains_kind(n, ('DeclRefExpr',)) and self.mentions(n, '__assert_fail'):
            if self.f is not None and 'softassert' in self.f.opts: return 'if !(%s) { cpp_abort(Ghost(%s)); }' % (self.cond(n['inner'][0]), self.abortcond())
            return 'assert_ob(%s);' % self.cond(n['inner'][0])
        if k == 'BinaryOperator' and n['opcode'] == '=':
            a, b = n['inner']
            cu = self.cursor_var(a) if self.skip(a)['kind'] == 'DeclRefExpr' else None
            if cu:
                t = self.cursor_target(b)
                return '%s = %s;' % (cu[1], '0' if t[0] == 'local' else self.expr(t[1])[0])
            pl, pre = placeover or (None, None)
            if pl is None:
                pl = self.place(a)
                pl, pre = self.freeze(pl) if not all(self.atom(x) for kd, x in pl.path if kd != 'f') or pl.root[0] == 'heap' else (pl, pl.pre)
            c, t = self.expr(b)
            lt = self.ty(a)
            c = self.coerce(c, t, lt) if t != lt else c
            return self.wrap(pre, self.write(pl, c))
        if k == 'CompoundAssignOperator':
            a, b = n['inner']; op = n['opcode'][:-1]
            pl, pre = placeover or self.freeze(self.place(a))
            lt = self.ty(a)
            ct = self.T.rust(n['computeLHSType']['qualType'], n['computeLHSType'].get('desugaredQualType')) if 'computeLHSType' in n else lt
            c, t = self.expr(b)
            cur = self.coerce(self.read(pl), lt, ct)
            c = self.coerce(c, t, ct) if t != ct else c
            if op in ('+', '-', '*'): v = '(%s %s %s)' % (cur, op, c)
            elif op in ('/', '%'): v = '%s_%s(%s, %s)' % (ct, 'div' if op == '/' else 'rem', cur, c)
            else: raise Unsupported('compound ' + op)
            return self.wrap(pre, self.write(pl, self.coerce(v, ct, lt)))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            pl, pre = self.freeze(self.place(n['inner'][0]))
            return self.wrap(pre, self.incdec_stmt(pl, n['opcode'], self.ty(n['inner'][0])))
        if k == 'CXXOperatorCallExpr':
            op = self.calleename(n); args = n['inner'][1:]
            if op == 'operator<<' and (self.isstream(n) or self.isstream(args[0])):
                self.p.report['dropped'].add('stream output in ' + self.rn)
                return ''
            it = self.iterop(n)
            if it and it[0] == 'stmt': return it[1]
            o = op[8:]
            if o == '=' or o in ('+=', '-=', '*=', '/=', '%=', '<<=', '>>='):
                tys = [self.tyor(a) for a in args]
                cls = self.clsname(tys[0])
                user = self.p.lookup(cls, op, tys[1:]) or (tys[0] not in ('Z', 'Q', 'Mt') and not str(tys[0]).startswith('Vc<') and self.p.find_body(cls, op, tys[1:]))
                if user and not placeover: return 'let _ = %s;' % self.expr(n)[0]
                pl, pre = placeover or self.freeze(self.place(args[0]))
                c, t = self.expr(args[1])
                if o == '=':
                    if t != tys[0]: c = self.coerce(c, t, tys[0])
                    return self.wrap(pre, self.write(pl, c))
                gmp = any('__gmp_expr' in self.ctype(a) for a in args)
                r = self.valop(o[:-1], [(self.read(pl), tys[0]), (c, t)], gmp)
                if r is None: raise Unsupported('operator %s on %s' % (op, tys))
                v = self.coerce(r[0], r[1], tys[0]) if r[1] != tys[0] else r[0]
                return self.wrap(pre, self.write(pl, v))
        if k == 'CXXDeleteExpr':
            sub = n['inner'][0]; t = self.tyor(sub)
            pt = strip_cv(self.ctype(self.skip(sub)))
            e = strip_cv(pt[:-1]) if pt.endswith('*') else None
            if e in self.u.ptr_heap and not n.get('isArray'):
                c, _ = self.expr(sub); w = self.fresh('d')
                db = self.p.find_body(e.split('::')[-1], '~' + e.split('::')[-1], [])
                dt = ''
                if db is not None and not db.get('isImplicit'):
                    self.p.report['inlined'].add('~' + e)
                    save = (self.thisplace, self.inline_depth, self.loopstack)
                    self.thisplace = Place(('heap', self.p.hn(e), w), (), self.T.rust(e)); self.inline_depth += 1; self.loopstack = []
                    try: dt = 'if %s != 0 { %s }' % (w, self.valblock([x for x in db['inner'] if x['kind'] == 'CompoundStmt'][0].get('inner', []), '()'))
                    finally: self.thisplace, self.inline_depth, self.loopstack = save
                return '{ let %s = %s; %s free_%s(hp, %s); }' % (w, c, dt, self.p.hn(e), w)
            self.p.report['dropped'].add('delete of owned object in ' + self.rn)
            return ''
        if k == 'CXXThrowExpr':
            return 'cpp_abort(Ghost(%s));' % self.abortcond()
        c, t = self.expr(n)
        if c == '()': return ''
        return c + ';' if t in ('()', None) else 'let _ = %s;' % c

    def mentions(self, n, name):
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == name: return True
        return any(self.mentions(c, name) for c in n.get('inner', []) or [])

    def wrap(self, pre, s):
        return '{ %s %s }' % (' '.join(pre), s) if pre else ('{ %s }' % s if s.startswith('let ') else s)

    def stmts(self, n):
        if n['kind'] == 'CompoundStmt': return '\n'.join(self.stmt(c) for c in n.get('inner', []))
        return self.stmt(n)

    def stmt(self, n):
        r = self.stmt0(n)
        if not self.inline_depth and self.f:
            for i, (anchor, text) in enumerate(self.f.hooks):
                m = re.match(r'^(?:ghost )?(after|before)(?: (every))? /(.*)/$', anchor)
                if m and n['kind'] not in LOOPS + ('CompoundStmt', 'IfStmt') and re.search(m.group(3), r) and (m.group(2) or ('used', i, self.rn) not in self.hookused):
                    self.hookused.add(('used', i, self.rn))
                    h = self.fixb(text) if anchor.startswith('ghost ') else 'proof { %s }' % self.fixb(text)
                    r = r + '\n' + h if m.group(1) == 'after' else h + '\n' + r
        ln = n.get('_loc')
        tag = ' //@%s:%s' % (str(ln[0] or '').split('/')[-1], ln[1]) if ln and r and not r.startswith('//') else ''
        if tag and '\n' not in r: return r + tag
        return ('//@%s:%s\n' % (str(ln[0] or '').split('/')[-1], ln[1]) if ln and r else '') + r

    def hook(self, anchor):
        if self.inline_depth or not self.f: return ''
        ts = [t for a, t in self.f.hooks if a == anchor]
        return '\n'.join('proof { %s }' % self.fixb(t) for t in ts)

    def callhook(self, kind, fn):
        if not self.f: return ''
        ts = [t for a, t in self.f.hooks if a == kind + ' ' + fn]
        return '\n'.join('proof { %s }' % self.fixb(t) for t in ts)

    def ghosts(self, anchor):
        if self.inline_depth or not self.f: return ''
        return '\n'.join(self.fixb(t) for a, t in self.f.hooks if a == 'ghost ' + anchor)

    def stmt0(self, n):
        k = n['kind']
        if k == 'NullStmt': return ''
        if k == 'CompoundStmt': return '{\n' + self.stmts(n) + '\n}'
        if k == 'DeclStmt':
            return '\n'.join(self.decl(d) for d in n['inner'] if d['kind'] == 'VarDecl')
        if k == 'IfStmt':
            inner = [c for c in n['inner'] if 'kind' in c]
            if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with declaration')
            c = self.cond(inner[0])
            s = 'if %s {\n%s\n}' % (c, self.stmts(inner[1]))
            if len(inner) > 2: s += ' else {\n%s\n}' % self.stmts(inner[2])
            return s
        if k == 'ForStmt':
            i = n['inner']
            init, condv, cond, inc, body = i[0], i[1], i[2], i[3], i[4]
            pre = self.stmt(init) if init.get('kind') else ''
            return '{\n' + pre + '\n' + self.loop(cond if cond.get('kind') else None, inc if inc.get('kind') else None, body) + '\n}'
        if k == 'WhileStmt':
            i = [c for c in n['inner'] if 'kind' in c]
            return self.loop(i[0], None, i[-1])
        if k == 'DoStmt':
            body, cond = n['inner']
            cv = cond
            while cv['kind'] in ('ImplicitCastExpr', 'ParenExpr'): cv = cv['inner'][0]
            if (cv['kind'] == 'IntegerLiteral' and cv['value'] == '0' or cv['kind'] == 'CXXBoolLiteralExpr' and cv['value'] in (False, 'false')) and not contains_kind(body, ('BreakStmt', 'ContinueStmt'), LOOPS):
                return self.stmts(body)     # do { ... } while (0)
            return self.loop(cond, None, body, do=True)
        if k == 'CXXForRangeStmt': raise Unsupported('range for')
        if k == 'BreakStmt':
            if not self.loopstack: raise Unsupported('break outside loop')
            return 'break;'
        if k == 'ContinueStmt':
            st = self.loopstack[-1]
            if st == 'do': raise Unsupported('continue in do-while')
            return '{ %s\ncontinue; }' % st
        if k == 'ReturnStmt':
            if self.inline_depth: raise Unsupported('return in inlined loop')
            e = [c for c in n.get('inner', []) if 'kind' in c]
            ex = self.hook('exit')
            if self.isctor: return '{ %s\nreturn this; }' % ex
            if not e or self.rettype == '()': return '{ %s\nreturn; }' % ex
            c, t = self.expr(e[0])
            if t is None: t = self.thisplace.ty
            c = self.coerce(c, t, self.rettype) if t != self.rettype else c
            if ex: return '{ let ret = %s;\n%s\nreturn ret; }' % (c, ex)
            return 'return %s;' % c
        if k == 'SwitchStmt': return self.switch(n)
        if k in ('CXXTryStmt', 'GotoStmt', 'LabelStmt'): raise Unsupported(k)
        return self.stmt_expr(n)

    def switch(self, n):
        i = [c for c in n['inner'] if 'kind' in c]
        c, t = self.expr(i[0]); v = self.fresh('sw')
        body = i[-1].get('inner', [])
        groups = []  # (labels, stmts)
        def add(s):
            labels = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                inn = [x for x in s['inner'] if 'kind' in x]
                if s['kind'] == 'CaseStmt':
                    labels.append(self.expr(inn[0])); s = inn[-1]
                else: labels.append(None); s = inn[-1]
            if labels: groups.append((labels, [s]))
            else: groups[-1][1].append(s)
        for s in body: add(s)
        code = ''; default = None
        alts = []
        for labels, ss in groups:
            last = ss[-1]
            if last['kind'] == 'CompoundStmt' and last.get('inner') and last['inner'][-1]['kind'] == 'BreakStmt':
                ss = ss[:-1] + last['inner']; last = ss[-1]
            if last['kind'] == 'BreakStmt': ss = ss[:-1]
            elif last['kind'] not in ('ReturnStmt',) and labels is not groups[-1][0] and not self.mentions(last, 'abort') and not self.mentions(last, 'exit'): raise Unsupported('switch fallthrough')
            if any(contains_kind(s, ('BreakStmt',), LOOPS) for s in ss): raise Unsupported('break in switch')
            txt = '\n'.join(self.stmt(s) for s in ss)
            if None in labels: default = txt
            else: alts.append((' || '.join('%s == %s' % (v, self.coerce(l, lt, t)) for l, lt in labels), txt))
        out = 'let %s = %s;\n' % (v, c)
        for j, (cd, txt) in enumerate(alts): out += ('else ' if j else '') + 'if %s {\n%s\n} ' % (cd, txt)
        if default is not None: out += ('else {\n%s\n}' % default) if alts else default
        return '{ %s }' % out

    def loop(self, cond, inc, body, do=False):
        no = None
        if not self.inline_depth:
            no = self.loopno; self.loopno += 1
        spec = self.f.loops.get(no, {}) if (self.f and no is not None) else {}
        inv = self.fixb(spec.get('inv', ''))
        dec = self.fixb(spec.get('dec', ''))
        attr = '' if dec.strip() else '#[verifier::exec_allows_no_decreases_clause]\n'
        head = ''
        if inv.strip(): head += '  invariant\n    ' + inv.strip().rstrip(',') + ',\n'
        ens = self.fixb(spec.get('ens', ''))
        if ens.strip(): attr += '#[verifier::allow_complex_invariants]\n'
        if ens.strip(): head += '  ensures\n    ' + ens.strip().rstrip(',') + ',\n'
        if dec.strip(): head += '  decreases ' + dec.strip() + '\n'
        step = self.stmt(inc) if inc is not None else ''
        b4 = self.ghosts('before %s' % no) + '\n' + self.hook('before %s' % no) + '\n'
        if do:
            self.loopstack.append('do')
            bt = self.stmts(body)
            self.loopstack.pop()
            c = self.cond(cond)
            code = attr + 'loop\n' + head + '{\n' + self.hook('begin %s' % no) + '\n' + self.ghosts('begin %s' % no) + '\n{' + bt + '\n}\n' + self.hook('end %s' % no) + '\nif !(%s) { break; }\n}' % c
        else:
            c = self.cond(cond) if cond is not None else 'true'
            endh = self.hook('end %s' % no)
            self.loopstack.append(endh + '\n' + step)
            bt = self.stmts(body)
            self.loopstack.pop()
            kw = 'while %s' % c if c != 'true' else 'loop'
            code = attr + kw + '\n' + head + '{\n' + self.ghosts('begin %s' % no) + '\n' + self.hook('begin %s' % no) + '\n' + bt + '\n' + endh + '\n' + step + '\n}'
        return b4 + code + '\n' + self.hook('after %s' % no)

    def decl(self, d):
        q = d['type']['qualType']
        init = [c for c in d.get('inner', []) if 'kind' in c and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static' and re.fullmatch(r'(const )?(class )?\w*Exception', d['type']['qualType']):
            return ''   # an exception object; any use other than throwing it is rejected as an unknown name
        if d.get('storageClass') == 'static':
            raise Unsupported('static local ' + d['name'])
        qp = strip_cv(d['type'].get('desugaredQualType') or q)
        if '__normal_iterator<' in qp and not qp.endswith(('*', '&')): return self.decl_iter(d, init[0] if init else None)
        if qp.endswith('*') and strip_cv(qp[:-1]).endswith('*') and strip_cv(strip_cv(qp[:-1])[:-1]) in self.u.ptr_heap and (not init or self.cursor_target(init[0])):
            return self.decl_cursor(d, init[0] if init else None)
        try: t = self.T.rust(q, d['type'].get('desugaredQualType'))
        except Unsupported:
            if any(x in q for x in ('ostream', 'ofstream', 'stringstream', 'Timer')) and not init:
                self.p.report['dropped'].add('local %s of type %s' % (d['name'], q)); return ''
            if 'basic_' in self.ctype(d) or 'stream' in q:
                raise
            raise
        if is_ref(q) and init:
            pl, pre = self.freeze(self.place(init[0]))
            if pl.root[0] == 'val':
                nm = self.newname(d['name'], t)
                self.vars[d['id']] = ('var', nm, t, 'val')
                return ' '.join(pre) + ' let mut %s = %s;' % (nm, self.read(pl))
            pl.ty = pl.ty or t
            self.vars[d['id']] = ('alias', pl)
            return ' '.join(pre)
        if not init:
            c = self.p.default_value(t)
        else:
            c, ct = self.expr(init[0])
            if init[0]['kind'] == 'InitListExpr': raise Unsupported('init list')
            if ct is None: ct = t
            c = self.coerce(c, ct, t) if ct != t else c
        nm = self.newname(d['name'], t)
        self.vars[d['id']] = ('var', nm, t, 'val')
        return 'let mut %s: %s = %s;' % (nm, t, c)

    # ------------------------------------------------------------- function
    def fixb(self, t):
        return subst_ids(t, {**{m: '(*%s)' % m for m in self.mutparams}, **{m + '0': '(*old(%s))' % m for m in self.mutparams}, **self.aliasnames})

    def emit(self):
        f, node = self.f, self.f.node
        self.row_guard(node)
        self.hookused = set()
        self.mutparams = set(); self.aliasnames = {}
        self.isctor = node['kind'] == 'CXXConstructorDecl'
        self.rename = self.p.lock_rename(f, node) if hasattr(self.p, 'lock_rename') else {}
        sig = []; pre = []
        if f.heap: sig.append('hp: &mut Hp'); self.mutparams.add('hp')
        cls = f.cls.split('::')[-1] if f.cls else None
        isstatic = node.get('storageClass') == 'static' or getattr(f, 'static', False)
        if cls and not isstatic and not self.isctor:
            st = self.T.rust(f.cls)
            if node['type']['qualType'].rstrip().endswith('const'):
                sig.append('this: ' + st); self.thisplace = Place(('var', 'this', 'val'), (), st)
            else:
                sig.append('this: &mut ' + st); self.mutparams.add('this')
                self.thisplace = Place(('var', 'this', 'refmut'), (), st)
        if self.isctor:
            st = self.T.rust(f.cls)
            self.thisplace = Place(('var', 'this', 'val'), (), st)
            pre.append('let mut this: %s = %s;' % (st, self.p.default_value(st)))
        ghosts = []
        allmut = set(self.mutparams)
        aliassub_pre, aliassub_post = {}, {}
        ps = self.p.params_of(node)
        for i, p in enumerate(ps):
            q = p['type']['qualType']; nm = p.get('name') or 'unused%d' % i
            try: t = self.ty(p)
            except Unsupported:
                if any(x in q for x in ('ostream', 'BarvinokParameters')): 
                    self.p.report['dropped'].add('parameter %s of %s' % (nm, self.rn)); continue
                raise
            pm = strip_cv(q)
            isptr = pm.endswith('*') and t != 'usize'
            constp = q.strip().startswith('const ')
            mut = (is_ref(q) and not is_const_ref(q)) or (isptr and not constp)
            if nm in self.alias:
                tb, *tf = self.alias[nm].split('.')
                if tb == 'this': bp = self.thisplace
                else:
                    vv = [self.vars[x['id']] for x in ps if x.get('name') == tb][0]
                    bp = Place(('var', vv[1], vv[3]), (), vv[2])
                self.vars[p['id']] = ('alias', bp.ext(*[('f', self.p.fld(x)) for x in tf], ty=t))
                bn = bp.root[1]; sfx = ''.join('.' + self.p.fld(x) for x in tf)
                ismut = bn in self.mutparams
                aliassub_pre[nm] = ('(*old(%s))' % bn if ismut else bn) + sfx
                aliassub_pre[nm + '0'] = aliassub_pre[nm]
                aliassub_post[nm] = (('(*final(%s))' % bn if mut else '(*old(%s))' % bn) if ismut else bn) + sfx
                aliassub_post[nm + '0'] = aliassub_pre[nm]
                self.aliasnames[nm] = (('(*%s)%s' % (bn, sfx)) if mut else '(*old(%s))%s' % (bn, sfx)) if ismut else bn + sfx
                self.aliasnames[nm + '0'] = '(*old(%s))%s' % (bn, sfx) if ismut else bn + sfx
                continue
            rn = self.newname(nm, t)
            if mut:
                sig.append('%s: &mut %s' % (rn, t)); self.mutparams.add(rn)
                self.vars[p['id']] = ('var', rn, t, 'refmut')
            else:
                sig.append('%s: %s' % (rn, t))
                self.vars[p['id']] = ('var', rn, t, 'val')
                ghosts.append('let ghost %s0 = %s;' % (rn, rn))
                if not (is_const_ref(q)): ghosts.append('let mut %s = %s;' % (rn, rn))
        self.rettype = self.T.rust(f.cls) if self.isctor else self.fn_ret(node)
        body = [c for c in node['inner'] if c['kind'] == 'CompoundStmt'][0]
        txt = ''
        if not f.assumed:
            if self.isctor: txt += self.ctor_inits(node)
            stm = [self.stmt(c) for c in body.get('inner', [])]
            txt += '\n'.join(stm)
        last = body['inner'][-1] if body.get('inner') else None
        tail = ''
        if not last or last['kind'] != 'ReturnStmt':
            ex = self.hook('exit')
            tail = ex + '\n'
            if self.isctor: tail += 'this'
            elif self.rettype != '()': tail += 'unreached::<%s>()' % self.rettype
        muts = self.mutparams
        valnames = [x for x in re.findall(r'let ghost (\w+)0 =', ' '.join(ghosts))]
        v0 = {v + '0': v for v in valnames}
        def pr(t): return subst_ids(t, {**{m: '(*old(%s))' % m for m in muts}, **{m + '0': '(*old(%s))' % m for m in muts}, **v0, **aliassub_pre})
        def po(t):
            mm = {**{m: '(*final(%s))' % m for m in muts}, **{m + '0': '(*old(%s))' % m for m in muts}, **v0, **aliassub_post}
            if self.isctor: mm['this'] = 'ret'
            return subst_ids(t, mm)
        head = '#[verifier::loop_isolation(false)]\n' + ''.join('#[%s]\n' % a for a in (f.attrs or self.u.attrs))
        head += 'pub fn %s(%s) -> (ret: %s)\n' % (self.rn, ', '.join(sig), self.rettype)
        if f.requires: head += '  requires\n' + ',\n'.join(pr(x).rstrip().rstrip(',') for x in f.requires) + ',\n'
        ens = ''
        if f.ensures: ens = '  ensures\n' + ',\n'.join(po(x).rstrip().rstrip(',') for x in f.ensures) + ',\n'
        dec = ('  decreases ' + subst_ids(f.decreases, {**{m: '(*old(%s))' % m for m in muts}}) + '\n') if f.decreases else ''
        bodytxt = '{\n' + self.ghosts('head') + '\n' + '\n'.join(ghosts + pre) + '\n' + self.ghosts('entry') + '\n' + self.hook('entry') + '\n' + txt + '\n' + tail + '\n}'
        if f.assumed:
            head = '#[verifier::external_body]\n' + head.replace('#[verifier::loop_isolation(false)]\n', '')
            dec = ''; bodytxt = '{ unimplemented!() }'
        meta = {'rust': self.rn, 'cxx': '%s%s(%s)' % (f.cls + '::' if f.cls else '', f.name, ', '.join(f.params)),
                'alias': self.alias, 'file': f.src, 'line': (node.get('_loc') or (None, None))[1],
                'head': head, 'ens': ens, 'dec': dec, 'body': bodytxt, 'locals': self.decl_log,
                'loops': self.loopno, 'calls': sorted(self.meta_calls)}
        if [x.strip() for x in f.ensures] == ['false']: meta['noreturn'] = True
        missing = [k for k in f.loops if k >= self.loopno and not f.assumed]
        if missing: meta['unbound_loops'] = missing
        text = '//@@FN %s\n' % self.rn + ('#[verifier::exec_allows_no_decreases_clause]\n' if not dec and not f.assumed else '') + head + ens + dec + bodytxt + '\n//@@END\n'
        return text, meta
