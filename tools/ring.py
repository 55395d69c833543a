"""Generator of Verus proofs for polynomial identities (no Singular here, and Z3's nonlinear mode does not
prove degree-4 identities).  Every generated step is checked by Verus; nothing here is trusted."""
import re

TOK = re.compile(r'\s*(?:(\d+)|([A-Za-z_][\w.@]*)|(.))')
class P:
    def __init__(s, t):
        s.t = [m for m in TOK.findall(t.strip())]; s.i = 0
    def peek(s): 
        if s.i < len(s.t):
            a = s.t[s.i]; return a[0] or a[1] or a[2]
    def next(s): r = s.peek(); s.i += 1; return r
    def expr(s):
        l = s.term()
        while s.peek() in ('+', '-'):
            o = s.next(); r = s.term(); l = (o, l, r)
        return l
    def term(s):
        l = s.fac()
        while s.peek() == '*':
            s.next(); r = s.fac(); l = ('*', l, r)
        return l
    def fac(s):
        a = s.next()
        if a == '-': return ('neg', s.fac())
        if a == '(':
            e = s.expr(); assert s.next() == ')', 'paren'
            return e
        if a.isdigit(): return ('c', int(a))
        # function application or index keeps as an atom
        name = a
        while s.peek() in ('(', '['):
            o = s.next(); d = 1; buf = o
            while d:
                x = s.next()
                if x in '([': d += 1
                if x in ')]': d -= 1
                buf += x if x not in (',',) else ', '
            name += buf
        return ('v', name)

def parse(t):
    p = P(t); e = p.expr(); assert p.peek() is None, 'junk in %r at %r' % (t, p.peek()); return e

def show(e):
    k = e[0]
    if k == 'c': return str(e[1])
    if k == 'v': return e[1]
    if k == 'neg': return '(-%s)' % show(e[1])
    return '(%s %s %s)' % (show(e[1]), k, show(e[2]))

def mono(m):
    if not m: return '1'
    s = m[0]
    for x in m[1:]: s = '(%s * %s)' % (s, x)
    return s
def termstr(m, c):
    if not m: return '(%d)' % c
    return '(%d * %s)' % (c, mono(m)) if c >= 0 else '((%d) * %s)' % (c, mono(m))
def nfstr(nf):
    ts = [termstr(m, c) for m, c in sorted(nf.items()) if c != 0]
    if not ts: return '(0int)'
    s = ts[0]
    for t in ts[1:]: s = '(%s + %s)' % (s, t)
    return s
def clean(nf): return {m: c for m, c in nf.items() if c}

class Gen:
    def __init__(s): s.out = []; s.done = set()
    def emit(s, x):
        if x not in s.done: s.done.add(x); s.out.append(x)
    def mulmono(s, m, n):
        """emit mono(m)*mono(n) == mono(sorted(m+n))"""
        if not m or not n: return
        key = ('mm', m, n)
        if key in s.done: return
        s.done.add(key)
        if len(n) == 1: s.insert(m, n[0])
        else:
            n2, x = n[:-1], n[-1]
            s.mulmono(m, n2)
            mn = tuple(sorted(m + n2))
            s.insert(mn, x)
            s.emit('ring_as(%s, %s, %s);' % (mono(m), mono(n2), x))
        s.emit('assert(%s * %s == %s);' % (mono(m), mono(n), mono(tuple(sorted(m + n)))))
    def insert(s, m, x):
        key = ('in', m, x)
        if key in s.done: return
        s.done.add(key)
        if m[-1] <= x: return
        if len(m) == 1:
            s.emit('ring_cm(%s, %s);' % (m[0], x)); return
        m2, y = m[:-1], m[-1]
        s.insert(m2, x)
        s.emit('ring_sw(%s, %s, %s);' % (mono(m2), y, x))
        s.emit('assert(%s * %s == %s);' % (mono(m), x, mono(tuple(sorted(m + (x,))))))
    def nf(s, e):
        k = e[0]
        if k == 'c': return clean({(): e[1]})
        if k == 'v': return {(e[1],): 1}
        if k == 'neg':
            a = s.nf(e[1]); r = {m: -c for m, c in a.items()}
        elif k in '+-':
            a = s.nf(e[1]); b = s.nf(e[2]); r = dict(a)
            for m, c in b.items(): r[m] = r.get(m, 0) + (c if k == '+' else -c)
            r = clean(r)
            for nf_ in (a, b, r):
                for m, c in nf_.items():
                    if m and c in (1, -1): s.emit('lemma_mul_small(%d, %s);' % (c, mono(m)))
        else:
            a = s.nf(e[1]); b = s.nf(e[2]); r = {}
            for m, c in a.items():
                for n, d in b.items():
                    q = tuple(sorted(m + n)); r[q] = r.get(q, 0) + c * d
            r = clean(r)
            A, B = nfstr(a), nfstr(b)
            s.emit('assert(%s * %s == %s * %s);' % (show(e[1]), show(e[2]), A, B))
            # distribute
            al = sorted(a.items()); bl = sorted(b.items())
            if al and bl:
                acc = termstr(*al[0]); accs = [acc]
                for t in al[1:]:
                    nx = '(%s + %s)' % (acc, termstr(*t)); s.emit('ring_dl(%s, %s, %s);' % (acc, termstr(*t), B)); acc = nx
                for t in al:
                    T = termstr(*t)
                    acc = termstr(*bl[0])
                    for u in bl[1:]:
                        s.emit('ring_dr(%s, %s, %s);' % (T, acc, termstr(*u))); acc = '(%s + %s)' % (acc, termstr(*u))
                    for u in bl:
                        (m, c), (n, d) = t, u
                        if not m or not n: 
                            if not m and n: s.emit('assert(%s * %s == %s);' % (T, termstr(*u), termstr(n, c * d)))
                            elif m and not n: s.emit('ring_cm(%s, %s);' % (T, termstr(*u))); s.emit('assert(%s * %s == %s);' % (T, termstr(*u), termstr(m, c * d)))
                            continue
                        s.mulmono(m, n)
                        s.emit('ring_cc(%d, %s, %d, %s);' % (c, mono(m), d, mono(n)))
                        s.emit('assert(%s * %s == %s);' % (T, termstr(*u), termstr(tuple(sorted(m + n)), c * d)))
        s.emit('assert(%s == %s);' % (show(e), nfstr(r)))
        return r

def lemma(name, params, concl, hyps=(), extra_req=()):
    """params: 'a: int, b: int'; concl 'L == R'; hyps: list of ('cofactor', 'l == r')"""
    g = Gen()
    L, R = concl.split('==')
    e = ('-', parse(L), parse(R))
    for cof, h in hyps:
        hl, hr = h.split('==')
        e = ('-', e, ('*', parse(cof), ('-', parse(hl), parse(hr))))
    nf = g.nf(e)
    if clean(nf): raise Exception('ring: %s is not an identity: residual %s' % (name, nfstr(nf)))
    o = 'pub proof fn %s(%s)\n' % (name, params)
    req = [h for _, h in hyps] + list(extra_req)
    if req: o += '    requires %s,\n' % ', '.join(req)
    o += '    ensures %s,\n{\n' % concl
    o += '    ' + '\n    '.join(g.out) + '\n'
    for cof, h in hyps:
        hl, hr = h.split('==')
        o += '    ring_zero(%s, %s);\n' % (show(parse(cof)), show(('-', parse(hl), parse(hr))))
    o += '}\n'
    return o

PRELUDE = '''
pub proof fn ring_dl(x: int, y: int, z: int) ensures (x + y) * z == x * z + y * z { assert((x + y) * z == x * z + y * z) by(nonlinear_arith); }
pub proof fn ring_dr(x: int, y: int, z: int) ensures x * (y + z) == x * y + x * z { assert(x * (y + z) == x * y + x * z) by(nonlinear_arith); }
pub proof fn ring_as(x: int, y: int, z: int) ensures x * (y * z) == (x * y) * z { assert(x * (y * z) == (x * y) * z) by(nonlinear_arith); }
pub proof fn ring_cm(x: int, y: int) ensures x * y == y * x { assert(x * y == y * x) by(nonlinear_arith); }
pub proof fn ring_sw(x: int, y: int, z: int) ensures (x * y) * z == (x * z) * y { assert((x * y) * z == (x * z) * y) by(nonlinear_arith); }
pub proof fn ring_cc(c: int, x: int, d: int, y: int) ensures (c * x) * (d * y) == (c * d) * (x * y) {
    ring_as(c * x, d, y); ring_sw(c, x, d); ring_as(c * d, x, y); }
pub proof fn ring_zero(x: int, y: int) ensures y == 0 ==> x * y == 0 { if y == 0 { assert(x * y == 0) by(nonlinear_arith) requires y == 0; } }
'''
if __name__ == '__main__':
    print('use vstd::prelude::*;\nverus!{' + PRELUDE)
    print(lemma('p2', 'a:int,p:int,y:int,x:int,b:int,q:int,d:int,qq:int', '((a * q + p * b) * y) * (d * qq) == (a * d) * (q * qq * y) + (p * qq) * (b * d * y)'))
    print(lemma('p3', 'a:int,p:int,y:int,x:int,b:int,q:int,d:int,qq:int,n:int,pp:int', '(b*q)*(x * (d * qq)) == (b*q)*((n * qq + pp * d) * y)',
      [('d*qq', 'x*(b*q) == (a*q+p*b)*y'), ('q*qq*y', 'a*d == n*b'), ('b*d*y', 'p*qq == pp*q')]))
    print('}\nfn main(){}')
