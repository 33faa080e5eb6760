"""mkbug.py SPECFILE [ids]: turn bug specs into /verif/seeded/<id>/ (development only).

A spec file is Python defining BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, subprocess, sys, shutil, tempfile
PRE = '''"""Demonstration: exit 0 when the behaviour is right, 1 otherwise. Run with the repository as argument."""
import os, sys, re, json, shutil, tempfile, contextlib, io, subprocess, itertools, math
REPO = os.path.abspath(sys.argv[1]); SRC = os.path.join(REPO, 'termfactory')
W = tempfile.mkdtemp(prefix='demo_'); os.chdir(W); sys.dont_write_bytecode = True
sys.path.insert(0, SRC)
import atexit; atexit.register(shutil.rmtree, W, True)
_o = sys.stdout; sys.stdout = io.StringIO()
import _glue_
from truncation_keys import TruncationsKeys as K
KEYS = {3: ('H', 'CC', 'P'), 4: ('H', 'CC', 'S', 'P'), 5: ('H', 'CC', 'T', 'eT', 'P')}
ANS = {3: 'z_t ansatz', 4: 'full cc', 5: 'eT_z_t ansatz'}
def trunc(*v): return {getattr(K, k): x for k, x in zip(KEYS[len(v)], v)}
def gen(v, what, **kw):
    """generate and return the text of the one file written"""
    d = tempfile.mkdtemp(dir=W); old = os.getcwd(); os.chdir(d)
    try:
        f = _glue_._generate_python if what == 'python' else _glue_._generate_latex
        f(trunc(*v), **dict(dict(ansatz=ANS[len(v)], only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS'), **kw))
        fs = [x for x in os.listdir(d) if x.endswith(('.py', '.tex'))]; assert len(fs) == 1, fs
        return open(fs[0]).read()
    finally:
        os.chdir(old)
def gfile(fn, *a):
    p = os.path.join(W, 'out.txt'); getattr(_glue_, fn)(*a, path=p); return open(p).read()
def check(cond, msg='behaviour differs'):
    if not cond:
        sys.stdout = _o; print('FAIL:', msg); sys.exit(1)
def body(txt, name):
    """source of one generated function"""
    i = txt.index('def ' + name + '('); j = txt.find('\\ndef ', i + 1); return txt[i: j if j > 0 else len(txt)]
def run_module(src, **extra):
    """exec a generated module with stand-ins; returns its namespace"""
    import types, numpy as np
    for n in ('pk', 'pk.sub'):
        m = types.ModuleType(n); m.__path__ = []; sys.modules[n] = m
    m = types.ModuleType('opt_einsum'); m.contract_expression = lambda s, *sh: (lambda *o: np.einsum(s, *o)); sys.modules['opt_einsum'] = m
    m = types.ModuleType('pk.log_conf'); m.log = __import__('logging').getLogger('x'); sys.modules['pk.log_conf'] = m
    m = types.ModuleType('pk.sub.symmetrize')
    def symmetrize_tensor(N, t, order): return sum(np.transpose(t, (0, 1) + p) for p in itertools.permutations(range(2, order + 2)))
    m.symmetrize_tensor = symmetrize_tensor; sys.modules['pk.sub.symmetrize'] = m
    m = types.ModuleType('pk.sub.residual_equations'); sys.modules['pk.sub.residual_equations'] = m; sys.modules['pk.sub'].residual_equations = m
    for k, v in extra.items(): setattr(m, k, v)
    g = types.ModuleType('pk.sub.gen'); g.__package__ = 'pk.sub'; exec(compile(src, 'gen', 'exec'), g.__dict__); return g.__dict__
class NS:
    def __init__(s, **k): s.__dict__.update(k)
    def __getattr__(s, n): return True
'''
SH = '''#!/bin/bash
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python "$(dirname "$0")/demo.py" "$PWD"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    d = f'/verif/seeded/{b["id"]}'; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk'); 
    for f, old, new in b['edits']:
        rel = 'termfactory/' + f
        for s in 'ab':
            os.makedirs(f'{w}/{s}/termfactory', exist_ok=True)
            if not os.path.exists(f'{w}/{s}/{rel}'):
                shutil.copy(f'/repo/{rel}', f'{w}/{s}/{rel}')
        t = open(f'{w}/b/{rel}').read()
        n = b.get('nth', {}).get(old)
        if n is None:
            assert t.count(old) == 1, (b['id'], t.count(old), old)
            t = t.replace(old, new)
        else:
            parts = t.split(old); assert len(parts) > n + 1, (b['id'], len(parts))
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(f'{w}/b/{rel}', 'w').write(t)
    out = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=w, capture_output=True, text=True).stdout
    open(f'{d}/patch.diff', 'w').write(out)
    shutil.rmtree(w)
    open(f'{d}/demo.py', 'w').write(PRE + '\n' + b['demo'].strip() + '\n' + "sys.stdout = _o\nprint('ok')\n")
    open(f'{d}/demo.sh', 'w').write(SH)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print('made', b['id'])
