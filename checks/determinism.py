"""What is generated depends on the request alone (C14)."""
import concurrent.futures as cf
import itertools as it
import json
import os
import shutil
import subprocess
import sys

from checks.full_cc import cost
from vmon.harness import SRC, VERIF

GEN = ('ground_state_w_equations_latex', 'generate_w_operator_equations_file', 'generate_dt_amplitude_equations_file',
       'generate_residual_equations_file')
DEFAULTS = dict(only_ground_state=True, remove_f_terms=False, ansatz='full cc', lhs_rhs='RHS')


def requests(ck):
    pool = {'fcc-latex': [], 'fcc-python': [], 'zhz-latex': [], 'eTz-latex': [], 'eTz-python': [], 'file': [], 'defaults': []}
    for v in it.product((1, 2, 3), (1, 2, 3), (1, 2, 3), (1, 2, 3)):
        if v[2] + v[1] <= 5:
            for gs, rf, side in it.product((True, False), (True, False), ('RHS', 'LHS')):
                if gs or v[1] + v[2] + v[0] <= 6:
                    pool['fcc-latex'].append(['glue', 'latex', 'fcc', v, dict(only_ground_state=gs, remove_f_terms=rf,
                                                                             ansatz='full cc', lhs_rhs=side)])
            pool['fcc-python'].append(['glue', 'python', 'fcc', v, dict(only_ground_state=ck.rng.random() < .5,
                                                                        remove_f_terms=False, ansatz='full cc')])
    pool['fcc-latex'].append(['glue', 'latex', 'fcc', (2, 2, 2, 2), {}])
    pool['fcc-python'].append(['glue', 'python', 'fcc', (2, 2, 2, 2), {}])
    for v in it.product(range(1, 5), range(1, 5), range(1, 5)):
        for rf, side in it.product((True, False), ('RHS', 'LHS')):
            pool['zhz-latex'].append(['glue', 'latex', 'zhz', v, dict(only_ground_state=True, remove_f_terms=rf,
                                                                     ansatz='z_t ansatz', lhs_rhs=side)])
    for H, Z, e, P, side in it.product((1, 2, 3), (1, 2, 3), (1, 2, 3, 4), (1, 2, 3), ('RHS', 'LHS')):
        for what in ('latex', 'python'):
            pool[f'eTz-{what}'].append(['glue', what, 'eTz', (H, Z, 1, e, P),
                                        dict(only_ground_state=True, remove_f_terms=ck.rng.random() < .5,
                                             ansatz='eT_z_t ansatz', lhs_rhs=side)])
    # larger truncations, where prefactors and labels get complicated
    deep = {'deep-fcc-latex': [], 'deep-fcc-python': [], 'deep-zhz-latex': [], 'deep-eTz-latex': [], 'deep-eTz-python': []}
    base = dict(only_ground_state=True, remove_f_terms=False)
    for v in it.product(range(1, 7), range(1, 7), range(1, 7), range(1, 7)):
        if cost(*v) < 1200 and v[3] <= v[1] and max(v) > 3:
            kw = dict(base, ansatz='full cc', lhs_rhs='RHS')
            deep['deep-fcc-python'].append(['glue', 'python', 'fcc', v, kw])
            if v[3] <= 3:
                deep['deep-fcc-latex'].append(['glue', 'latex', 'fcc', v, kw])
    for v in it.product(range(1, 7), range(1, 7), range(1, 7)):
        deep['deep-zhz-latex'].append(['glue', 'latex', 'zhz', v, dict(base, ansatz='z_t ansatz', lhs_rhs='RHS')])
    for H, Z, e, P, side in it.product(range(1, 7), range(1, 7), range(1, 6), range(1, 7), ('RHS', 'LHS')):
        if max(H, Z, P) > 3:
            for what in ('latex', 'python'):
                deep[f'deep-eTz-{what}'].append(['glue', what, 'eTz', (H, Z, 1, e, P),
                                                 dict(base, ansatz='eT_z_t ansatz', lhs_rhs=side)])
    pool['file'] = [['file', g, [n]] for g in GEN[:3] for n in range(1, 7)]
    pool['file'] += [['file', GEN[3], [n, h]] for n in range(0, 7) for h in range(0, 3)]
    pool['file'] += [['file', 'excited_state_w_equations_latex', [n]] for n in range(1, 5)]
    # options left out take their documented defaults: pairs that have to agree
    for what, drop in it.product(('latex', 'python'), range(1, 16)):
        kw = {k: v for n, (k, v) in enumerate(DEFAULTS.items()) if not drop >> n & 1}
        pool['defaults'].append(['glue', what, 'fcc', (2, 2, 2, 2), kw])
    out = [['glue', 'latex', 'fcc', (2, 2, 2, 2), DEFAULTS], ['glue', 'python', 'fcc', (2, 2, 2, 2), DEFAULTS]]
    for what in ('latex', 'python'):
        for v in ((6, 2, 4, 2), (5, 2, 4, 2), (6, 3, 3, 3), (3, 3, 3, 3), (4, 2, 5, 2), (6, 1, 6, 1), (4, 6, 2, 3)):
            out.append(['glue', what, 'fcc', v, DEFAULTS])
        for v, side in it.product(((6, 4, 1, 4, 4), (3, 6, 1, 3, 6), (5, 3, 1, 5, 3)), ('RHS', 'LHS')):
            out.append(['glue', what, 'eTz', v, dict(base, ansatz='eT_z_t ansatz', lhs_rhs=side)])
    for v in ((6, 6, 6), (4, 6, 5)):
        out.append(['glue', 'latex', 'zhz', v, dict(base, ansatz='z_t ansatz', lhs_rhs='RHS')])
    # requests that are refused are part of a history, too
    for v in ((2, 4, 2, 4), (1, 5, 2, 5), (7, 2, 2, 2), (2, 2, 0, 2)):
        out.append(['glue', 'latex', 'fcc', v, DEFAULTS])
    out.append(['glue', 'python', 'zhz', (2, 2, 2), dict(DEFAULTS, ansatz='z_t ansatz')])
    out.append(['glue', 'python', 'fcc', (2, 2, 2, 2), dict(DEFAULTS, ansatz='no such ansatz')])
    out.append(['glue', 'latex', 'zhz', (2, 2, 2), dict(DEFAULTS, ansatz='full cc')])
    out.append(['glue', 'latex', 'eTz', (2, 2, 1, 9, 2), dict(base, ansatz='eT_z_t ansatz', lhs_rhs='RHS')])
    out += neighbours(ck, base) + deep_neighbours(ck, base)
    for k in sorted(deep):
        out += ck.rng.sample(deep[k], min(150 if ck.thorough else 24, len(deep[k])))
    per = 60 if ck.thorough else 14
    for k in sorted(pool):
        out += ck.rng.sample(pool[k], min(len(pool[k]) if k == 'file' else per, len(pool[k])))
    return out


def neighbours(ck, base):
    """a few requests together with every request that differs from them in one level or one option"""
    out = []
    kinds = {'fcc': (('python', 'latex'), 'full cc', (2, 2, 2, 2)), 'zhz': (('latex',), 'z_t ansatz', (2, 3, 2)),
             'eTz': (('python', 'latex'), 'eT_z_t ansatz', (2, 2, 1, 2, 2))}
    for kind, (whats, ansatz, mid) in kinds.items():
        for what in whats:
            for centre in [mid] + [tuple(1 if kind == 'eTz' and i == 2 else ck.rng.randint(1, 3) for i in range(len(mid)))
                                   for _ in range(3 if ck.thorough else 1)]:
                kw = dict(base, ansatz=ansatz, lhs_rhs=ck.rng.choice(('RHS', 'LHS')))
                out.append(['glue', what, kind, centre, kw])
                for i, d in it.product(range(len(centre)), (-1, 1)):
                    if not (kind == 'eTz' and i == 2) and centre[i] + d > 0:
                        out.append(['glue', what, kind, centre[:i] + (centre[i] + d,) + centre[i + 1:], kw])
                for o in ('only_ground_state', 'remove_f_terms'):
                    out.append(['glue', what, kind, centre, dict(kw, **{o: not kw[o]})])
                out.append(['glue', what, kind, centre, dict(kw, lhs_rhs='LHS' if kw['lhs_rhs'] == 'RHS' else 'RHS')])
                # the same levels in another order
                for _ in range(2):
                    p = [x for i, x in enumerate(centre) if not (kind == 'eTz' and i == 2)]
                    ck.rng.shuffle(p)
                    out.append(['glue', what, kind, tuple(p[:2] + [1] + p[2:] if kind == 'eTz' else p), kw])
    return out


def deep_neighbours(ck, base):
    """large requests together with those that differ from them in one option (all combinations of options)"""
    out = []
    for what, vs in {'latex': ((1, 1, 5, 1), (1, 1, 6, 1), (2, 2, 4, 2), (2, 1, 5, 2), (5, 2, 2, 2), (2, 4, 2, 1)),
                     'python': ((1, 1, 5, 1), (1, 1, 6, 1), (2, 2, 4, 2), (5, 2, 2, 2), (2, 4, 2, 4))}.items():
        for v in vs + ((3, 3, 3, 2), (6, 2, 3, 2)) * ck.thorough:
            for gs, rf, side in it.product((True, False), (True, False), ('RHS', 'LHS')):
                if not gs and (cost(*v) > 400 or what == 'python' and (rf or side == 'LHS')):
                    continue
                out.append(['glue', what, 'fcc', v, dict(only_ground_state=gs, remove_f_terms=rf, ansatz='full cc',
                                                         lhs_rhs=side)])
    for v in ((5, 4, 4), (2, 6, 5)) + ((6, 6, 6), (4, 5, 6)) * ck.thorough:
        for rf, side in it.product((True, False), ('RHS', 'LHS')):
            out.append(['glue', 'latex', 'zhz', v, dict(base, ansatz='z_t ansatz', remove_f_terms=rf, lhs_rhs=side)])
    for v in ((4, 3, 1, 5, 2), (2, 5, 1, 3, 4)) + ((3, 4, 1, 6, 3), (6, 2, 1, 4, 6)) * ck.thorough:
        for what, gs, rf, side in it.product(('latex', 'python'), (True, False), (True, False), ('RHS', 'LHS')):
            out.append(['glue', what, 'eTz', v, dict(only_ground_state=gs, ansatz='eT_z_t ansatz', remove_f_terms=rf,
                                                     lhs_rhs=side)])
    return out


# what surrounds the process: none of it is part of the request
AMBIENT = [{}, {'TZ': 'Asia/Tokyo', 'LANG': 'C', 'LC_ALL': 'C', 'USER': 'someone', 'LOGNAME': 'someone', 'COLUMNS': '40'},
           {'TZ': 'America/St_Johns', 'LANG': 'C.UTF-8', 'LC_ALL': 'POSIX', 'HOME': '/nonexistent', 'COLUMNS': '200'},
           {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0', 'PYTHONIOENCODING': 'utf-8'},
           {'TZ': 'UTC', 'PYTHONUTF8': '1', 'TERM': 'dumb', 'HOSTNAME': 'elsewhere', 'EDITOR': 'x'}]


def small(r):
    return r[0] == 'file' or max(r[3]) <= 3


def play(args):
    src, scratch, idx, hist, hashseed, log, names = args
    d = os.path.join(scratch, f'p{idx}')
    os.mkdir(d)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', **AMBIENT[idx % len(AMBIENT)])
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'checks', 'det_worker.py')], cwd=d, env=env, text=True,
                           input=json.dumps({'src': src, 'log': log, 'history': hist, 'names': names,
                                             'every_variable': idx % 2 == 1, 'days': (idx * 137) % 1000}),
                           capture_output=True, timeout=3000)
        if p.returncode:
            return idx, None, p.stderr[-1500:]
        return idx, json.loads(p.stdout.splitlines()[-1]), None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ck):
    ck.rule = ('case = (request, history): one generation request replayed in a process with its own hash seed, log '
               'level, call order, pre-existing output and dictionary order; the bytes of every file written are '
               'compared with those of a fresh process that served only that request')
    reqs = requests(ck)
    ids = list(range(len(reqs)))
    order = sorted(ids, key=lambda i: ck.rng.random())
    # fresh processes: a few requests each served alone; all requests once in a reference history
    jobs = [('ref', [[i, reqs[i]] for i in ids], 0, 'plain')]
    n_hist = 15 if ck.thorough else 7
    for k in range(n_hist):
        lg = ('plain', 'off', 'debug', 'modules-debug', 'modules-critical')[k % 5]
        # logging at debug level costs a multiple of the generation itself: small requests only
        mine = [i for i in ids if small(reqs[i])] if lg.endswith('debug') else ids
        h = mine + ck.rng.sample(mine, len(mine) // 3)
        ck.rng.shuffle(h)
        jobs.append((f'h{k}', [[i, reqs[i]] for i in h], ck.rng.randrange(1, 2 ** 31), lg))
    for i in order[:40 if ck.thorough else 16]:
        jobs.append((f'alone{i}', [[i, reqs[i]]], ck.rng.randrange(1, 2 ** 31), 'plain'))
    # first pass: the reference tells the file names, so that the others can plant left-overs
    first = play((SRC, ck.scratch, 0, jobs[0][1], jobs[0][2], jobs[0][3], {}))
    if first[1] is None:
        raise RuntimeError('reference process failed: ' + first[2])
    ref = {e['id']: e for e in first[1]['events']}
    for i, r in enumerate(reqs):
        if r[0] == 'glue' and r[2] == 'fcc' and tuple(r[3]) == (2, 2, 2, 2) and all(
                DEFAULTS[k] == v for k, v in r[4].items()):
            j = 0 if r[1] == 'latex' else 1
            ck.count('default_pairs')
            if (ref[i]['err'], ref[i]['files']) != (ref[j]['err'], ref[j]['files']):
                ck.violation('defaults', f'{r}: {ref[i]["err"] or sorted(ref[i]["files"])}, not what the documented '
                             'defaults give')
    # (the excited-state W writer keeps the header of what it finds, C13: nothing is planted for it)
    names = {str(i): list(e['files']) for i, e in ref.items() if reqs[i][1] != 'excited_state_w_equations_latex'}
    results = [first]
    with cf.ThreadPoolExecutor(8) as ex:
        results += ex.map(play, [(SRC, ck.scratch, n, h, hs, lg, names)
                                 for n, (_, h, hs, lg) in enumerate(jobs) if n])
    seen = set()
    for idx, res, err in results:
        name, hist, hs, lg = jobs[idx]
        if res is None:
            raise RuntimeError(f'process {name} failed: {err}')
        stray = [f for f in res['stray'] if not f.endswith('.txt') and not f.endswith('.log')]
        if stray:
            ck.violation('stray', f'process {name}: files {stray} written outside the requested place')
        ck.count('environment_variables_asked_for', len(res['asked']))
        for e in res['events']:
            i = e['id']
            r = ref[i]
            ck.case((i, name, e['n']), True, {'request': reqs[i], 'process': name, 'hash_seed': hs, 'log': lg,
                                              'position': e['n'], 'files': sorted(e['files'])})
            ck.count('events')
            ck.count('written_over_another_document', 'over' in e)
            ck.count('written_over_own_spoiled_document', 'spoiled' in e)
            seen.add((hs, i))
            what = f'{reqs[i]} (process {name}, hash seed {hs}, log {lg}, request number {e["n"]})'
            if e['err'] != r['err']:
                ck.violation('outcome', f'{what}: {e["err"]} here, {r["err"]} in the reference process')
                continue
            if e['err'] is None and e['files'] != r['files']:
                ck.violation('bytes', f'{what}: wrote {sorted(e["files"])}; content or names differ from the reference')
            if e['err'] is None and len(e['files']) != 1:
                ck.violation('files', f'{what}: {sorted(e["files"])}')
            if e['mutated']:
                ck.violation('mutated', f'{what}: the caller\'s arguments became {e["mutated"]}')
            if not e['cwd']:
                ck.violation('cwd', f'{what}: working directory changed')
    ck.count('processes', len(results))
    ck.count('distinct_hash_seeds', len({j[2] for j in jobs}))
    ck.count('requests', len(reqs))
    if sum(1 for e in ref.values() if e['err'] is None) < len(reqs) // 2:
        bad = next(e for e in ref.values() if e['err'])
        ck.violation('refused', f'most requests were refused, e.g. {reqs[bad["id"]]}: {bad["err"]}')
    ck.assumptions = ['log files are not part of the output']
