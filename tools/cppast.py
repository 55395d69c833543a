"""Load clang AST (JSON) of functions of /repo's current sources."""
import json, os, subprocess, re, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATTE = REPO + '/code/latte'

def cxxflags():
    b = REPO + '/_build'
    inc = []
    if os.path.exists(b + '/code/latte/config.h') or os.path.exists(b + '/config.h'):
        inc += ['-I' + b + '/code/latte', '-I' + b + '/code', '-I' + b]
    # fallback copies of the generated configuration headers
    inc += ['-I' + VERIF + '/support/config']
    inc += ['-I' + LATTE, '-I' + REPO + '/code', '-I' + LATTE + '/vertices',
            '-I/usr/include/4ti2', '-I/usr/include/x86_64-linux-gnu/4ti2']
    return ['-DHAVE_CONFIG_H', '-std=gnu++17', '-w'] + inc + ['-DINSTALLDIR="/usr/local"']

def parse_many(s):
    d = json.JSONDecoder(); i = 0; out = []
    n = len(s)
    while True:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i); out.append(o)
    return out

class AstError(Exception): pass

_cache = {}
def dump(src, filt):
    key = (src, filt)
    if key in _cache: return _cache[key]
    path = src if src.startswith('/') else LATTE + '/' + src
    r = subprocess.run(['clang++'] + cxxflags() + ['-fsyntax-only', '-Xclang', '-ast-dump=json',
                        '-Xclang', '-ast-dump-filter=' + filt, path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0:
        raise AstError('clang failed on %s: %s' % (src, r.stderr.decode()[:2000]))
    objs = parse_many(r.stdout.decode())
    _cache[key] = objs
    return objs

def dump_all(pairs, jobs=8):
    pairs = list(dict.fromkeys(pairs))
    with ThreadPoolExecutor(jobs) as ex:
        return dict(zip(pairs, ex.map(lambda p: dump(*p), pairs)))

def has_body(n):
    return any(c.get('kind') == 'CompoundStmt' or c.get('kind') == 'CXXTryStmt' for c in n.get('inner', []))
