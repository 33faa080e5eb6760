"""Requests served at the same time do not interfere (C21)."""
import concurrent.futures as cf
import hashlib
import itertools as it
import json
import os
import shutil
import subprocess
import sys

from checks.cli_names import STR, expected_name
from checks.full_cc import cost
from vmon.harness import ANSATZ, KEYS, SRC, VERIF

GEN = ('ground_state_w_equations_latex', 'generate_w_operator_equations_file', 'generate_dt_amplitude_equations_file',
       'generate_residual_equations_file', 'excited_state_w_equations_latex')


def pick(r, kind, top):
    while True:
        v = tuple(1 if k == 'T' else r.randint(1, top) for k in KEYS[kind])
        if kind == 'fcc' and (cost(*v) > 400 or v[3] > 3) or kind == 'eTz' and v[0] * v[1] * v[3] * v[4] > 150:
            continue
        return v


def request(r):
    """a random request with the name of the document it writes"""
    if r.random() < .25:
        g = r.choice(GEN)
        args = [r.randint(0, 6), r.randint(0, 2)] if g == GEN[3] else [r.randint(1, 3 if g == GEN[4] else 6)]
        name = f'{g}_{"_".join(map(str, args))}.out'
        return ['file', g, args, name], name
    kind = r.choice(['fcc', 'fcc', 'zhz', 'eTz', 'eTz'])
    v = pick(r, kind, r.choice((2, 3, 3, 4, 5)))
    code = kind != 'zhz' and r.random() < .5
    # (general-state documents of the largest truncations take minutes)
    gs = kind == 'zhz' or (kind == 'eTz' and not code) or r.random() < .6 or kind == 'fcc' and cost(*v) > 100
    side, rf = r.choice(('RHS', 'LHS')), r.random() < .4
    return (['glue', 'python' if code else 'latex', kind, v,
             dict(only_ground_state=gs, remove_f_terms=rf, ansatz=ANSATZ[kind], lhs_rhs=side)],
            expected_name(kind, v, code, side, gs, rf))


def worker(args):
    scratch, n, job = args
    d = os.path.join(scratch, f'w{n}')
    os.mkdir(d)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'checks', 'conc_worker.py')], cwd=d, text=True,
                           input=json.dumps(job), capture_output=True, timeout=3000,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        if p.returncode:
            raise RuntimeError(f'worker {n}: {p.stderr[-1500:]}')
        return json.loads(p.stdout.splitlines()[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drivers(args):
    """several command lines at once in one directory: exit codes and the files left"""
    scratch, n, cmds = args
    top = os.path.join(scratch, f'm{n}')
    work = os.path.join(top, 'work')
    gate = os.path.join(top, 'gate')
    os.makedirs(work)
    os.makedirs(gate)
    try:
        ps = []
        for i, (argv, trunc) in enumerate(cmds):
            with open(os.path.join(work, f'in{i}.json'), 'w') as f:
                json.dump(trunc, f)
            ps.append(argv + ['-p', f'in{i}.json'])
        ps = [subprocess.Popen([sys.executable, os.path.join(VERIF, 'checks', 'conc_driver.py'), SRC, gate, str(i),
                                str(len(ps)), '--'] + a, cwd=work, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')) for i, a in enumerate(ps)]
        err = [p.communicate(timeout=600)[1][-300:] for p in ps]
        files = {}
        for f in os.listdir(work):
            if f.endswith(('.py', '.tex', '.json')):
                with open(os.path.join(work, f), 'rb') as fp:
                    files[f] = fp.read()
        return [p.returncode for p in ps], err, files
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check(ck):
    ck.rule = ('case = (request, round, schedule): requests for different documents served at the same time, by threads of '
               'one process under an injected schedule or by driver processes in one directory; every document is '
               'compared with the bytes the request gives when it is served alone')
    r = ck.rng
    rounds, n = [], 0
    for _ in range(480 if ck.thorough else 140):
        batch, names = [], set()
        size = r.choice((2, 2, 3, 4))
        while len(batch) < size:
            if batch and r.random() < .5:
                # one that differs from an earlier one of the round in its levels or options only
                base = r.choice(batch)[1]
                if base[0] == 'glue':
                    req, name = request(r)
                    while req[0] != 'glue' or req[2] != base[2]:
                        req, name = request(r)
                else:
                    req, name = request(r)
            else:
                req, name = request(r)
            if name not in names:
                names.add(name)
                batch.append((n, req, name))
                n += 1
        rounds.append(batch)
    plain = [[(i, req) for i, req, _ in b] for b in rounds]
    parts = [plain[i::8] for i in range(8)]
    where = [list(range(len(plain)))[i::8] for i in range(8)]
    nsched = 6 if ck.thorough else 2
    jobs = [(ck.scratch, f's{i}', dict(src=SRC, seed=0, serial=True, rounds=p)) for i, p in enumerate(parts)]
    jobs += [(ck.scratch, f'c{k}_{i}', dict(src=SRC, seed=ck.seed * 100 + 10 * k + i + 1, serial=False, yields=(400, 40, 2000)[k % 3],
                                           rounds=p)) for k in range(nsched) for i, p in enumerate(parts)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(worker, jobs))
    serial, conc = res[:8], res[8:]
    traces = set()
    for k, w in enumerate(conc):
        part = k % 8
        ck.count('thread_switches_observed', w['switches'])
        ck.count('schedule_points', w['points'])
        ck.count('meetings_at_the_write', w['met'])
        traces.add(w['trace'])
        for b, alone, here in zip(where[part], serial[part]['rounds'], w['rounds']):
            batch = rounds[b]
            if set(alone['files']) != {name for i, _, name in batch if alone['res'][str(i)] is None}:
                refused = [x for x in alone['res'].values() if x]
                ck.violation('alone', f'{[q for _, q, _ in batch]} one by one wrote {sorted(alone["files"])} ({refused})')
                continue
            for i, req, name in batch:
                ck.case((i, k), True, {'request': req, 'with': [q for j, q, _ in batch if j != i], 'schedule': k})
                ck.count('threaded_requests')
                others = [q for j, q, _ in batch if j != i]
                a, h = alone['res'][str(i)], here['res'][str(i)]
                if (a is None) != (h is None) or a and h.split(':')[0] != a.split(':')[0]:
                    ck.violation('thread', f'{req} at the same time as {others}: {h or "served"}; alone: {a or "served"}')
                elif alone['files'].get(name) != here['files'].get(name):
                    ck.violation('thread', f'{req} at the same time as {others}: {name} differs from what it is alone')
            extra = set(here['files']) - set(alone['files'])
            if extra:
                ck.violation('stray', f'{[q for _, q, _ in batch]} at the same time also wrote {sorted(extra)}')
            if not here['cwd']:
                ck.violation('cwd', f'{[q for _, q, _ in batch]}: working directory changed')
    ck.count('distinct_interleavings', len(traces))
    # the same through the driver, as processes in one directory
    groups = []
    ok = {}
    for b, batch in enumerate(rounds):
        alone = serial[b % 8]['rounds'][b // 8]
        g = [(i, q, name) for i, q, name in batch if q[0] == 'glue' and alone['res'][str(i)] is None]
        for i, q, name in g:
            ok[i] = alone['files'].get(name)
        groups.append(g)
    merged = []
    for a, b in it.zip_longest(groups[::2], groups[1::2], fillvalue=[]):
        names, g = set(), []
        for x in a + b:
            if x[2] not in names:
                names.add(x[2])
                g.append(x)
        if len(g) >= 2:
            merged.append(g)
    merged = merged[:120 if ck.thorough else 40]

    def argv(q):
        kw = q[4]
        return (['-a', kw['ansatz']] + ['-c'] * (q[1] == 'python') + ['-lhs'] * (kw['lhs_rhs'] == 'LHS')
                + ['-es'] * (not kw['only_ground_state']) + ['-rf', str(kw['remove_f_terms'])])
    with cf.ThreadPoolExecutor(3) as ex:
        outs = list(ex.map(drivers, [(ck.scratch, n, [(argv(q), {STR[k]: x for k, x in zip(KEYS[q[2]], q[3])})
                                                      for _, q, _ in g]) for n, g in enumerate(merged)]))
    for g, (rc, err, files) in zip(merged, outs):
        for j, (i, q, name) in enumerate(g):
            ck.case((i, 'driver'), True, {'driver': argv(q), 'levels': q[3], 'processes': len(g)})
            ck.count('driver_processes')
            what = f'driver.py {" ".join(argv(q))} {q[3]} next to {len(g) - 1} others'
            if rc[j] != 0:
                ck.violation('driver', f'{what}: exit {rc[j]}: {err[j]}')
            elif hashlib.sha256(files.get(name, b'')).hexdigest() != ok[i]:
                ck.violation('driver', f'{what}: {name} differs from what it is alone')
            if json.loads(files[f'in{j}.json']) != {STR[k]: x for k, x in zip(KEYS[q[2]], q[3])}:
                ck.violation('driver-input', f'{what}: in{j}.json was changed')
        extra = {f for f in files if not f.endswith('.json')} - {name for _, _, name in g}
        if extra:
            ck.violation('stray', f'{[argv(q) for _, q, _ in g]} at the same time also wrote {sorted(extra)}')
    if ck.counters.get('thread_switches_observed', 0) < 50 * len(conc):
        ck.evaluations = 0
    ck.assumptions = ['requests for the same document at the same time are not considered']
