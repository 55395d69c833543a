"""Generate Verus text for a unit, run Verus, interpret the outcome."""
import signal, sys, os, re, json, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cpp2verus, cppast
from cpp2verus import Unit, Program, Unsupported
VERIF = cppast.VERIF

PRELUDES = {'base': 'prelude.rs'}

def gen(unitname, outdir):
    u = Unit.load(os.path.join(VERIF, 'contracts', unitname + '.vc'))
    p = Program(u)
    lockp = os.path.join(VERIF, 'contracts', unitname + '.lock.json')
    lock = json.load(open(lockp)) if os.path.exists(lockp) else {}
    def lock_rename(f, node):
        base = (lock.get(f.rust) or {}).get('locals')
        if not base: return {}
        cur = []
        def walk(n):
            if n.get('kind') == 'VarDecl' or n.get('kind') == 'ParmVarDecl':
                try: cur.append((n.get('name'), p.types.rust(n['type']['qualType'], n['type'].get('desugaredQualType'))))
                except Unsupported: pass
            for c in n.get('inner', []) or []: walk(c)
        walk(node)
        bn = [b[0] for b in base]; cn = [c[0] for c in cur]
        missing = [b for b in base if b[0] not in cn]
        extra = [c for c in cur if c[0] not in bn]
        ren = {}
        for m in missing:
            for x in extra:
                if x[1] == m[1] and x[0] not in ren:
                    ren[x[0]] = m[0]; break
        return ren
    p.lock_rename = lock_rename
    parts, metas = p.translate()
    pre = open(os.path.join(VERIF, 'contracts', 'prelude.rs')).read()
    head = '#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]\nuse vstd::prelude::*;\nverus! {\n'
    text = head + pre + '\n' + '\n\n'.join(parts) + '\n} // verus!\nfn main() {}\n'
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, unitname + '.rs')
    open(path, 'w').write(text)
    # must-fail variant: every body once more with 'ensures false' (vacuity guard)
    vac = []
    for t in parts:
        vac.append(t)
    body = '\n\n'.join(parts)
    for m in metas:
        if m.get('assumed'): continue
        nm = m['rust'] + '__vac'
        h = re.sub(r'pub fn %s\(' % re.escape(m['rust']), 'pub fn %s(' % nm, m['head'], 1)
        body = body.replace(('#[verifier::exec_allows_no_decreases_clause]\n' if not m['dec'] else '') + m['head'] + m['ens'] + m['dec'] + m['body'],
            '#[verifier::external_body]\n' + m['head'] + m['ens'] + '{ unimplemented!() }\n' +
            '#[verifier::exec_allows_no_decreases_clause]\n' + h + '  ensures false,\n' + m['body'])
    vpath = os.path.join(outdir, unitname + '_vac.rs')
    open(vpath, 'w').write(head + pre + '\n' + body + '\n} // verus!\nfn main() {}\n')
    return u, p, metas, path, vpath

def loop_changes(unitname, metas):
    """functions whose number of loops differs from the one the loop contracts were written for"""
    lockp = os.path.join(VERIF, 'contracts', unitname + '.lock.json')
    lock = json.load(open(lockp)) if os.path.exists(lockp) else {}
    out = {}
    for m in metas:
        b = lock.get(m['rust'])
        if b and b['loops'] != m['loops']: out[m['rust']] = '%d loops, contract written for %d' % (m['loops'], b['loops'])
    return out

STOP = None; STOP_AFTER = 200      # an event: a failing input is already known, the verifier need not run to its end
def run_verus(path, threads=4, timeout=600, extra=()):
    t = time.time()
    cmd = ['verus', path, '--output-json', '--time', '--num-threads', str(threads), '--multiple-errors', '4', '--triggers-mode', 'silent', '--error-format=json'] + list(extra)
    r = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(path), start_new_session=True)
    while True:
        try: bo, be = r.communicate(timeout=2); break
        except subprocess.TimeoutExpired:
            if time.time() - t > timeout or (STOP is not None and STOP.is_set() and time.time() - t > STOP_AFTER):
                try: os.killpg(r.pid, signal.SIGKILL)
                except OSError: pass
                r.communicate()
                return {'status': 'timeout', 'wall': time.time() - t, 'errors': [], 'cmd': ' '.join(cmd)}
    out = bo.decode(errors='replace'); err = be.decode(errors='replace')
    res = {'wall': time.time() - t, 'errors': [], 'cmd': ' '.join(cmd), 'rc': r.returncode, 'raw_err': err}
    diags = []
    for ln in err.split('\n'):
        if ln.startswith('{'):
            try: diags.append(json.loads(ln))
            except ValueError: pass
    try:
        js = json.loads(out[out.index('{'):])
        res['results'] = js.get('verification-results', {})
        res['times'] = js.get('times-ms', {})
        res['json'] = js
    except Exception:
        res['results'] = {}
    src = open(path).read().split('\n')
    for d in diags:
        if d.get('level') != 'error': continue
        if d['message'].startswith('aborting'): continue
        spans = d.get('spans', [])
        prim = [s for s in spans if s.get('is_primary')] or spans
        line = prim[0]['line_start'] if prim else 0
        all_lines = [(s['line_start'], s.get('label')) for s in spans]
        res['errors'].append({'msg': d['message'], 'line': line, 'spans': all_lines, 'fn': enclosing(src, [l for l, _ in all_lines]),
                              'cxx': cxxline(src, [l for l, _ in all_lines]), 'text': [src[l-1].strip()[:300] for l, _ in all_lines if 0 < l <= len(src)],
                              'rendered': d.get('rendered', '')})
    vr = res['results']
    if vr.get('encountered-vir-error') or (not vr) or (r.returncode != 0 and not vr.get('errors') and not vr.get('verified')):
        res['status'] = 'compile-error'
    elif vr.get('errors', 0) == 0 and r.returncode == 0: res['status'] = 'ok'
    else: res['status'] = 'fail'
    return res

def enclosing(src, lines):
    for l in lines:
        for i in range(min(l, len(src)) - 1, -1, -1):
            if src[i].startswith('//@@END') : break
            m = re.match(r'//@@FN (\w+)', src[i])
            if m: return m.group(1)
    return None

def cxxline(src, lines):
    for l in lines:
        for i in range(min(l, len(src)) - 1, max(0, l - 30), -1):
            m = re.search(r'//@(\S*:\d+)', src[i])
            if m: return m.group(1)
            if src[i].startswith('//@@FN'): break
    return None

if __name__ == '__main__':
    un = sys.argv[1]
    out = '/tmp/v/gen/' + un
    try:
        u, p, metas, path, vpath = gen(un, out)
    except Unsupported as e:
        print('UNSUPPORTED', e); sys.exit(2)
    if '--gen' in sys.argv: print(path); sys.exit(0)
    r = run_verus(path, threads=8, extra=[a for a in sys.argv[2:] if a.startswith('--') and a not in ('--vac', '--lock')])
    print(r['status'], r['results'], '%.1fs' % r['wall'])
    for e in r['errors']:
        print('  ', e['fn'], e['cxx'], '|', e['msg'], '|', e['text'][:3])
    if r['status'] == 'compile-error' and not r['errors']: print(r['raw_err'][:3000])
    if '--vac' in sys.argv and r['status'] == 'ok':
        v = run_verus(vpath, threads=8)
        bad = [m['rust'] for m in metas if not m.get('assumed') and not any(e['fn'] == m['rust'] for e in v['errors'])]
        print('vacuity:', v['status'], v['results'], 'not failing:', bad)
    if '--lock' in sys.argv and r['status'] == 'ok':
        json.dump({m['rust']: {'locals': [(n, t) for n, t, c in m['locals']], 'loops': m['loops']} for m in metas if not m.get('assumed')}, open(os.path.join(VERIF, 'contracts', un + '.lock.json'), 'w'), sort_keys=True)
    print('inlined', sorted(p.report['inlined']), 'dropped', sorted(p.report['dropped']))
