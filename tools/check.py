#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. every unit of the property: extract the functions under contract from /repo's current sources
   (clang AST), generate the Verus text, let Verus discharge every obligation; a must-fail copy of
   each function ('ensures false') guards against vacuous contracts;
2. the driver of the property runs the compiled functions of /repo against an independent oracle:
   it replays a failed obligation on real inputs, validates the trusted contracts of the libraries,
   and is the (bounded, labelled) stand-in for functions out of the verifier's reach;
3. verdict, evidence file."""
import sys, os, re, json, time, subprocess, hashlib, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cppast, cpp2verus, prove
from cpp2verus import Unsupported
VERIF, REPO, LATTE = cppast.VERIF, cppast.REPO, cppast.LATTE
CFG = json.load(open(os.path.join(VERIF, 'tools', 'checks.json')))
BUILD = os.path.join(VERIF, 'build')

def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)$', l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

# ------------------------------------------------------------------ driver
def headers_hash():
    h = hashlib.sha256()
    for d in (LATTE, os.path.join(VERIF, 'drivers'), os.path.join(VERIF, 'support')):
        for p in sorted(glob.glob(d + '/**/*.h', recursive=True) + glob.glob(d + '/**/*.hpp', recursive=True)):
            h.update(p.encode()); h.update(open(p, 'rb').read())
    b = REPO + '/_build'
    for p in sorted(glob.glob(b + '/code/latte/*.h') + glob.glob(b + '/*.h')):
        h.update(open(p, 'rb').read())
    return h.hexdigest()

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
def compile_one(src, hh, flags):
    text = open(src, 'rb').read()
    key = hashlib.sha256((hh + src + ' '.join(flags)).encode() + text).hexdigest()[:24]
    obj = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key + '.o')
    if os.path.exists(obj): return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + flags + cppast.cxxflags() + ['-I' + os.path.join(VERIF, 'drivers'), '-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0: return None, r.stdout.decode(errors='replace')[-3000:]
    os.replace(tmp, obj)
    return obj, None

def build_driver(prop, cfg):
    hh = headers_hash()
    flags = ['-O1', '-g1', '-ffunction-sections', '-fdata-sections', '-fno-access-control'] + (SAN if cfg.get('asan', True) else [])
    srcs = [os.path.join(VERIF, 'drivers', cfg['driver'])] + [LATTE + '/' + s for s in cfg.get('sources', [])]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda s: compile_one(s, hh, flags), srcs))
    bad = [e for o, e in res if e]
    if bad: return None, bad[0]
    exe = os.path.join(BUILD, 'drv', prop + '-' + hashlib.sha256(' '.join(o for o, _ in res).encode()).hexdigest()[:16])
    if os.path.exists(exe): return exe, None
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + flags + [o for o, _ in res] + ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-o', tmp] + cfg.get('libs', ['-lntl', '-lgmpxx', '-lgmp', '-lcddgmp', '-l4ti2gmp', '-l4ti2util']),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0: return None, r.stdout.decode(errors='replace')[-3000:]
    os.replace(tmp, exe)
    return exe, None

def run_driver(exe, seed, secs, cwd, focus=''):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0', UBSAN_OPTIONS='print_stacktrace=0')
    cmd = [exe, str(seed), str(secs)] + ([focus] if focus else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 3 + 120, cwd=cwd, env=env)
    except subprocess.TimeoutExpired as e:
        return {'status': 'hang', 'fails': [], 'out': (e.stdout or b'').decode(errors='replace')[-2000:], 'cmd': cmd, 'stats': {}}
    out = r.stdout.decode(errors='replace'); err = r.stderr.decode(errors='replace')
    fails = []; stats = {}
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            m = re.match(r'^FAIL (\S+) (.*)$', l)
            if m: fails.append({'key': m.group(1), 'what': m.group(2)})
        elif l.startswith('STATS '):
            try: stats = json.loads(l[6:])
            except ValueError: pass
    st = 'ok' if r.returncode == 0 and stats else ('fail' if fails else 'crash')
    return {'status': st, 'fails': fails, 'rc': r.returncode, 'err': err[-4000:], 'cmd': cmd, 'stats': stats, 'out': out[-2000:]}

# ------------------------------------------------------------------ units
def count_obligations(d):
    """labelled assertions in the AIR text Verus handed to Z3"""
    n = 0; kinds = {}
    for p in glob.glob(d + '/*.air'):
        s = open(p, errors='replace').read()
        for m in re.finditer(r'\(assert\s*\n\s*\("([^"]*)"', s):
            n += 1; kinds[m.group(1)] = kinds.get(m.group(1), 0) + 1
        if os.path.basename(p) != 'root.air': 
            q = s.count('(check-valid'); n += q; kinds['nonlinear/isolated query'] = kinds.get('nonlinear/isolated query', 0) + q
    return n, kinds

import threading
found = threading.Event(); T0 = time.time(); prove.STOP = found
def do_unit(un, work, thorough, vac=True):
    d = os.path.join(work, un)
    res = {'unit': un}
    try:
        u, p, metas, path, vpath = prove.gen(un, d)
    except (Unsupported, cppast.AstError) as e:
        return {'unit': un, 'status': 'unsupported', 'why': str(e)[:1500]}
    except Exception as e:      # translator bug or unforeseen construct: not a verdict on the code
        import traceback
        return {'unit': un, 'status': 'unsupported', 'why': 'translator: ' + traceback.format_exc()[-1500:]}
    mine = [m for m in metas if not m.get('assumed')]
    ub = [m for m in mine if m.get('unbound_loops')]
    res['metas'] = mine; res['assumed'] = [m for m in metas if m.get('assumed')]
    res['path'] = path; res['report'] = p.report
    res['lockdiff'] = prove.loop_changes(un, mine)
    with ThreadPoolExecutor(3) as ex:
        lg = os.path.join(d, 'air')
        f1 = ex.submit(prove.run_verus, path, 6, 500, ['--log', 'air', '--log-dir', lg])
        f2 = ex.submit(prove.run_verus, vpath, 3, 500, ['--rlimit', '2']) if vac else None
        r = f1.result(); v = f2.result() if f2 else None
    if r['status'] == 'fail' and all('esource limit' in e['msg'] or 'rlimit' in e['msg'] for e in r['errors']) or r['status'] == 'timeout':
        if not found.is_set(): r = prove.run_verus(path, 6, 300, ['--rlimit', '60', '--log', 'air', '--log-dir', lg])
    if r['status'] == 'fail':      # an obligation counts as failed only if no attempt proves its function
        for sd in (7, 42):
            if found.is_set() or time.time() - T0 > 330: break      # a failing input is known, or no time is left
            q = prove.run_verus(path, 6, 400, ['--rlimit', '30', '--smt-option', 'smt.random_seed=%d' % sd])
            if q['status'] == 'ok': r = dict(r, status='ok', errors=[]); break
            if q['status'] != 'fail': continue
            bad = set(e['fn'] for e in q['errors'])
            r['errors'] = [e for e in r['errors'] if e['fn'] in bad]
            if not r['errors']: r = dict(r, status='ok'); break
    res['verus'] = r; res['status'] = r['status']
    res['obligations'], res['kinds'] = count_obligations(lg)
    shutil.rmtree(lg, ignore_errors=True)
    if v is not None:
        res['vac_ok'] = sorted(m['rust'] for m in mine if any(e['fn'] == m['rust'] for e in v['errors']))
        res['vac_bad'] = sorted(m['rust'] for m in mine if not m.get('noreturn') and not any(e['fn'] == m['rust'] for e in v['errors'])) if v['status'] == 'fail' else []
        res['vac_status'] = v['status']
    if thorough and r['status'] == 'ok':
        res['seeds'] = []
        for sd in (7, 42, 1234):
            q = prove.run_verus(path, 6, 600, ['--smt-option', 'smt.random_seed=%d' % sd, '--rlimit', '60'])
            res['seeds'].append({'seed': sd, 'status': q['status'], 'wall': round(q['wall'], 1)})
    res['trusted'] = trusted_of(path)
    res['lemmas'] = sorted('%s (discharged by unit %s)' % (b, a) for a, b in re.findall(r'/\*discharged by the unit (\w+)\*/\s*pub proof fn (\w+)', open(path).read()))
    return res

def trusted_of(path):
    s = open(path).read()
    body = s
    out = []
    for m in re.finditer(r'#\[verifier::external_body\](?: /\*[^*]*\*/)?\s*(?:#\[[^\]]*\]\s*)*pub (?:proof )?fn (\w+)', body):
        if not body.startswith('#[verifier::external_body] /*discharged', m.start()): out.append(m.group(1))
    names = set(out)
    used = []
    for n in sorted(names):
        if len(re.findall(r'\b%s(?:::<[^()]*>)?\(' % n, body)) > 1: used.append(n)
    return used

# ------------------------------------------------------------------ main
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CFG[prop]; t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='w-%s-' % prop, dir=BUILD)
    try: rc = run(prop, cfg, tier, thorough, seed, t0, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(prop, cfg, tier, thorough, seed, t0, work):
    known = known_findings(prop)
    with ThreadPoolExecutor(12) as ex:
        fb = ex.submit(build_driver, prop, cfg)
        fu = [ex.submit(do_unit, un, work, thorough) for un in cfg['units']]
        exe, berr = fb.result()
        if berr: print('the driver did not build, no bounded part in this run')
        scratch = os.path.join(work, 'run'); os.makedirs(scratch, exist_ok=True)
        early = []
        if exe:
            with ThreadPoolExecutor(4) as ex2: early = list(ex2.map(lambda i: run_driver(exe, seed * 1000 + i, cfg.get('secs', 10), scratch), range(cfg.get('nproc', 2))))
            if any(f['key'] not in known for r in early for f in r['fails']) or any(r['status'] in ('crash', 'hang') for r in early): found.set()
        units = [f.result() for f in fu]
    failed = []; undecided = []; vacbad = []
    for r in units:
        if r['status'] == 'unsupported': undecided.append('%s: %s' % (r['unit'], r['why']))
        elif r['status'] in ('compile-error',):
            e = r['verus']['errors']
            undecided.append('%s: the contracts do not bind to the current text: %s' % (r['unit'], (e[0]['msg'] + ' | ' + ' '.join(e[0]['text'][:2])) if e else r['verus'].get('raw_err', '')[:500]))
        elif r['status'] == 'timeout': undecided.append('%s: verifier did not finish within its time limit' % r['unit'])
        elif r['status'] == 'fail':
            for e in r['verus']['errors']:
                e = dict(e); e['unit'] = r['unit']
                if 'esource limit' in e['msg'] or 'rlimit' in e['msg']: undecided.append('%s: %s: solver resource limit' % (r['unit'], e['fn']))
                elif e['fn'] and e['fn'] in r['lockdiff']:
                    undecided.append('%s: %s: loops of the function changed (%s), its loop contracts do not bind; obligation "%s"' % (r['unit'], e['fn'], r['lockdiff'][e['fn']], e['msg']))
                else: failed.append(e)
        if r.get('vac_bad') and r['status'] == 'ok': vacbad += [r['unit'] + ':' + x for x in r['vac_bad']]
    # driver
    secs = cfg.get('secs', 10)
    dres = None; viol = []
    if exe:
        rs = list(early)
        more = 0
        if thorough: more = cfg.get('thorough_secs', 240)
        elif (failed or undecided) and not found.is_set(): more = max(60, 4 * secs)
        if more:
            with ThreadPoolExecutor(6) as ex:
                rs += list(ex.map(lambda i: run_driver(exe, seed * 1000 + 100 + i, more, scratch), range(6)))
        dres = rs
        for r in rs:
            for f in r['fails']:
                if f['key'] in known: continue
                viol.append((f, r))
            if r['status'] in ('crash', 'hang') and not r['fails']:
                viol.append(({'key': r['status'], 'what': 'the compiled code crashed or hung under the driver: rc=%s %s' % (r.get('rc'), (r.get('err') or r.get('out', ''))[-600:].replace('\n', ' | '))}, r))
    for k, w in known.items(): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    nviol = 0
    rpdir = os.path.join(BUILD, 'replays'); os.makedirs(rpdir, exist_ok=True)
    rp = os.path.join(rpdir, '%s-%d.json' % (prop, int(time.time() * 1000)))
    rc = 0
    if viol or failed:
        nviol = max(len(failed), 1)
        rep = {'property': prop, 'failed_obligations': [{k: e.get(k) for k in ('unit', 'fn', 'cxx', 'msg', 'text', 'rendered')} for e in failed],
               'undecided': undecided,
               'failing_inputs': [f for f, _ in viol[:20]],
               'replay': ' '.join(viol[0][1]['cmd']) if viol else None,
               'driver_stderr': viol[0][1].get('err') if viol else None}
        for e in rep['failed_obligations']:
            print('failed obligation: unit %s, function %s, at %s: %s: %s' % (e['unit'], e['fn'], e['cxx'], e['msg'], ' / '.join(e['text'] or [])[:300]))
        for f, _ in viol[:5]: print('failing input: %s %s' % (f['key'], f['what'][:500]))
        json.dump(rep, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if viol else ' no-failing-input-found'))
        rc = 1
    elif undecided and not exe:
        print('no verdict: %s; driver: %s' % (undecided[0], berr)); rc = 2
    for x in undecided: print('not decided by proof (bounded driver stands in): ' + x[:600])
    if vacbad: print('contracts not shown non-vacuous: %s' % vacbad)
    # evidence
    ev = evidence(prop, cfg, tier, seed, t0, units, dres, exe, berr, failed, undecided, nviol, known)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %s (%d obligations, %d functions under contract, %.0f s)' % (prop, {0: 'held', 1: 'VIOLATED'}.get(rc, 'no answer'), ev['coverage'].get('obligations', 0), len(ev['coverage'].get('functions_under_contract', [])), time.time() - t0))
    return rc

def evidence(prop, cfg, tier, seed, t0, units, dres, exe, berr, failed, undecided, nviol, known):
    ob = sum(r.get('obligations', 0) for r in units)
    bad = len(failed)
    fns = []; trusted = set(); inl = set(); drop = set(); smt = 0; vac = []; rust = []; asm = set(); lem = set(); seeds = {}
    for r in units:
        for m in r.get('metas', []):
            fns.append('%s [%s:%s] as %s%s' % (m['cxx'], m['file'], m['line'], m['rust'], ' with ' + ', '.join('%s aliasing %s' % kv for kv in m['alias'].items()) if m['alias'] else ''))
        for m in r.get('assumed', []): asm.add('%s (contract discharged by unit %s)' % (m['cxx'], m['assumed']))
        trusted |= set(r.get('trusted', [])) - set(m['rust'] for m in r.get('assumed', []))
        lem |= set(r.get('lemmas', []))
        if 'report' in r: inl |= r['report']['inlined']; drop |= r['report']['dropped']
        if 'verus' in r: smt += r['verus'].get('times', {}).get('smt', {}).get('total', 0) if isinstance(r['verus'].get('times', {}).get('smt'), dict) else 0
        if r.get('vac_status') == 'fail': vac += r.get('vac_ok', [])
        if r.get('seeds'): seeds[r['unit']] = r['seeds']
    cov = {'functions_under_contract': fns,
           'obligations': ob, 'discharged': 0 if undecided and not ob else ob - bad,
           'undecided': undecided,
           'obligation_kinds': {k: sum(r.get('kinds', {}).get(k, 0) for r in units) for k in sorted(set(k for r in units for k in r.get('kinds', {})))},
           'back_end': 'Verus 0.2026.09 over Z3 (bundled); polynomial identities through generated ring lemmas, each step checked by the same back end',
           'solver_time_ms': smt,
           'checker_cmd': ' ; '.join(r['verus']['cmd'].split(' --log')[0].replace(os.path.dirname(r['path']), '<generated>') for r in units if 'verus' in r) or 'none',
           'trusted_base': sorted(trusted) + ['clang 18 AST, tools/cpp2verus.py and tools/fntr.py (extraction)', 'Verus, Z3'],
           'assumed_contracts_proved_elsewhere': sorted(asm),
           'lemmas_proved_elsewhere': sorted(lem),
           'inlined_helpers': sorted(inl), 'dropped_by_extraction': sorted(drop),
           'vacuity_guard': '%d functions re-checked with "ensures false": all must fail; failed as expected: %d' % (len(fns), len(vac)),
           'solver_seed_stability': seeds,
           'bounded_part': cfg.get('bounded', ''),
           'known_findings': sorted(known.values())}
    if dres:
        cov['driver'] = {'runs': len(dres), 'cases': sum(r['stats'].get('cases', 0) for r in dres), 'per_group': {k: sum(r['stats'].get('groups', {}).get(k, 0) for r in dres) for k in sorted(set(k for r in dres for k in r['stats'].get('groups', {})))},
                         'note': 'bounded: random and small-exhaustive inputs on the compiled functions of /repo against an independent oracle; never counted as proved'}
    elif cfg.get('driver'): cov['driver'] = {'error': (berr or '')[:500]}
    return {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': cfg.get('level', 'proof'), 'coverage': cov,
            'assumptions': cfg.get('assumptions', []) + CFG.get('_assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': nviol}

if __name__ == '__main__': main()
