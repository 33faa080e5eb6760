"""The command line does what the library does, under the documented file names (C16)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

from vmon.harness import ANSATZ, KEYS, SRC, generate
from checks.cli_names import STR, expected_name
from checks.truncs import valid

def run_cli(args):
    return run_full(args)[:3]


def run_full(args):
    scratch, n, argv, plant = args
    top = os.path.join(scratch, f'c{n}')
    work = os.path.join(top, 'work')
    os.makedirs(work)
    for name, body in plant.items():
        os.makedirs(os.path.dirname(os.path.join(work, name)), exist_ok=True)
        with open(os.path.join(work, name), 'w') as f:
            f.write(body)
    try:
        p = subprocess.run([sys.executable, os.path.join(SRC, 'driver.py')] + argv, cwd=work, text=True, timeout=300,
                           stdin=subprocess.DEVNULL, capture_output=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        files = {}
        for root, _, fs in os.walk(top):
            for f in fs:
                with open(os.path.join(root, f), encoding='utf8', errors='replace') as fp:
                    files[os.path.relpath(os.path.join(root, f), work)] = fp.read()
        return p.returncode, files, p.stderr[-400:], p.stdout, p.stderr
    finally:
        shutil.rmtree(top, ignore_errors=True)


def command(ck, n):
    """a random command line, as (argv, planted files, expectation)"""
    r = ck.rng
    kind = r.choice(['fcc', 'zhz', 'eTz'])
    top = {'H': 3, 'CC': 3, 'S': 2, 'P': 3, 'T': 1, 'eT': 3}
    v = tuple(r.randint(1, top[k]) for k in KEYS[kind])
    if r.random() < .15:
        i = r.randrange(len(v))
        v = v[:i] + (r.choice([0, 7 if KEYS[kind][i] != 'eT' else 9]),) + v[i + 1:]
    code, side, gs = r.random() < .5, r.choice(['RHS', 'LHS']), r.random() < .75
    rf_arg = r.choice([None, None, 'True', 'False'])
    rf = rf_arg == 'True'
    plant, argv = {}, []
    from_file = r.random() < .35
    if from_file:
        src = r.choice(['in.json', 'in.json', 'sub/my truncs.json', './in.json', '../up.json'])
        argv += [r.choice(['-p', '--path']), src]
        plant[os.path.normpath(src)] = json.dumps({STR[k]: x for k, x in zip(KEYS[kind], v)})
    else:
        argv += ['-t'] + [str(x) for x in v]
    a = r.choice([None, None, kind, kind, 'other'])
    if a == kind:
        argv += [r.choice(['-a', '--ansatz']), ANSATZ[kind]]
    elif a == 'other':
        argv += ['-a', r.choice([ANSATZ[k] for k in ANSATZ if k != kind] + ['cc'])]
    if code:
        argv += [r.choice(['-c', '--code'])]
    if side == 'LHS':
        argv += ['-lhs']
    if not gs:
        argv += [r.choice(['-es', '--excited_state'])]
    if rf_arg:
        argv += [r.choice(['-rf', '--remove_f_terms']), rf_arg]
    log = r.choice([None, None, None, 'my_log.txt', 'sub logs/my log', './x.tex.log'])
    if log and '/' in log:
        plant['sub logs/keep'] = 'x'
    if log:
        argv += [r.choice(['-l', '--log_path']), log]
    ok = valid(kind, v) and a != 'other' and not (kind == 'zhz' and code) and not (kind != 'fcc' and not code and not gs)
    # an equation file of an earlier run is overwritten by the same request and left alone by a refused one
    stale = expected_name(kind, v, code, side, gs, rf) if r.random() < .25 and not (kind == 'zhz' and code) else None
    if stale:
        plant[stale] = '% earlier result\n' * 3000
    # the record of an earlier -t: replaced by the next -t, otherwise left alone
    if r.random() < .3:
        plant['../truncs.json'] = json.dumps({STR[k]: 5 for k in KEYS[r.choice(list(KEYS))]}, indent=9)
    return argv, plant, dict(stale=stale, kind=kind, v=v, code=code, side=side, gs=gs, rf=rf, ok=ok, log=log, from_file=from_file)


def judge(ck, argv, plant, x, res):
    code, files, tail = res
    line = 'driver.py ' + ' '.join(argv)
    logs = {x['log'] and os.path.normpath(x['log']) or 'default_logging_file.txt'}
    stale = x.get('stale')
    eqs = {f: t for f, t in files.items() if f.endswith(('.py', '.tex')) and (f not in plant or f == stale and t != plant[f])}
    other = [f for f in files if f not in eqs and f not in plant and f not in logs and os.path.normpath(f) not in ('../truncs.json', '../up.json')]
    ck.case(tuple(argv), True, {'command': line, 'exit': code, 'files': sorted(eqs)})
    ck.count('commands')
    for f, body in plant.items():
        if f == '../truncs.json' and not x['from_file']:
            continue
        if files.get(f) != body and not (f == stale and x['ok'] and code == 0):
            ck.violation('input', f'{line}: changed its input file {f}')
    if other:
        ck.violation('stray', f'{line}: also wrote {other}')
    if not x['ok']:
        ck.count('refused')
        if code == 0 or eqs:
            ck.violation('refuse', f'{line}: exit {code}, wrote {sorted(eqs)}; it should be refused')
        return
    if code != 0:
        # what the library itself refuses the command line has to refuse too
        ref, err = generate(ck, x['kind'], x['v'], 'python' if x['code'] else 'latex', only_ground_state=x['gs'],
                            remove_f_terms=x['rf'], lhs_rhs=x['side'])
        if not isinstance(err, NotImplementedError):
            ck.violation('exit', f'{line}: exit {code}: {tail}' + (f' (library: {err})' if err else ''))
        else:
            ck.count(f'refused_by_library: {type(err).__name__}')
        return
    name = expected_name(x['kind'], x['v'], x['code'], x['side'], x['gs'], x['rf'])
    if sorted(eqs) != [name]:
        ck.violation('name', f'{line}: wrote {sorted(eqs)}, expected {name}')
        return
    ref, err = generate(ck, x['kind'], x['v'], 'python' if x['code'] else 'latex', only_ground_state=x['gs'],
                        remove_f_terms=x['rf'], lhs_rhs=x['side'])
    if err is not None or ref.get(name) != eqs[name]:
        ck.violation('content', f'{line}: {name} differs from what the library generates ({err})')
    if x['from_file']:
        if files.get('../truncs.json') != plant.get('../truncs.json'):
            ck.violation('truncs', f'{line}: wrote truncs.json although the truncation came from a file')
    else:
        try:
            saved = json.loads(files.get('../truncs.json', 'null'))
        except ValueError:
            saved = 'not JSON'
        if saved != {STR[k]: val for k, val in zip(KEYS[x['kind']], x['v'])}:
            ck.violation('truncs', f'{line}: saved truncation {saved}')
    if x['log'] and os.path.normpath(x['log']) not in files:
        ck.violation('log', f'{line}: no log at {x["log"]}')


def stdlog(ck):
    """-s sends the log to standard output instead of a file and changes nothing else"""
    argvs = [['-t'] + list('11' + '1' * (len(KEYS[k]) - 3) + '2') + x for k in KEYS for x in ([], ['-c'], ['-lhs'], ['-rf', 'True'])
             if not (k == 'zhz' and x == ['-c'])]
    jobs = [(ck.scratch, f's{i}{j}', a + (['-s'], ['--stdlog'], [])[j], {}) for i, a in enumerate(argvs) for j in (i % 2, 2)]
    with cf.ThreadPoolExecutor(8) as ex:
        out = list(ex.map(run_full, jobs))
    # the same log wherever it goes
    paths = ['run.log', 'in here/log file', '../outside.txt', 'default_logging_file.txt']
    for i, (x, ref) in enumerate(zip(argvs, out[1::2])):
        p = paths[i % len(paths)]
        rc, files = run_full((ck.scratch, f'l{i}', x + ['-l', p], {'in here/keep': 'x', p: 'an earlier log\n' * 9999}))[:2]
        line = 'driver.py ' + ' '.join(x + ['-l', p])
        ck.case(('log', p) + tuple(x), True, {'command': line, 'exit': rc})
        ck.count('log_files_compared')
        want = dict(ref[1], **{'in here/keep': 'x', p: ref[1].get('default_logging_file.txt')})
        if p != 'default_logging_file.txt':
            want.pop('default_logging_file.txt', None)
        if rc != ref[0] or {os.path.normpath(f): t for f, t in files.items()} != {os.path.normpath(f): t for f, t in want.items()}:
            ck.violation('log', f'{line}: exit {rc}, files {sorted(files)}; expected exit {ref[0]}, {sorted(want)} and the same log as without -l')
    for (_, _, argv, _), with_s, without in zip(jobs[::2], out[::2], out[1::2]):
        line = 'driver.py ' + ' '.join(argv)
        ck.case(('stdlog',) + tuple(argv), True, {'command': line, 'exit': with_s[0], 'stdout': len(with_s[3]), 'without': len(without[3])})
        ck.count('stdlog_pairs')
        log = without[1].pop('default_logging_file.txt', None)
        if log is None:
            ck.violation('log', f'{line}: without -s there is no default_logging_file.txt')
        if with_s[0] != without[0] or with_s[1] != without[1]:
            ck.violation('stdlog', f'{line}: exit {with_s[0]} and files {sorted(with_s[1])}, without -s exit {without[0]} and files {sorted(without[1])}')
        elif log and len(with_s[3].splitlines()) - len(without[3].splitlines()) < len(log.splitlines()) or len(with_s[4]) > len(without[4]):
            ck.violation('stdlog-stream', f'{line}: the log of {len((log or "").splitlines())} lines is not on standard output ({len(with_s[3].splitlines())} lines, '
                         f'without -s {len(without[3].splitlines())}), standard error has {len(with_s[4])} characters instead of {len(without[4])}')


def check(ck):
    ck.rule = ('case = one distinct command line run as a process in its own directory; exit code, files and their '
               'content are compared with the documented names and with the library called on the same request')
    jobs, seen = [], set()
    n = 3000 if ck.thorough else 1000
    while len(jobs) < n:
        argv, plant, x = command(ck, len(jobs))
        if (tuple(argv), x['v']) not in seen:
            seen.add((tuple(argv), x['v']))
            jobs.append((argv, plant, x))
    bad = dict(kind='fcc', v=(1, 1, 1, 1), code=False, side='RHS', gs=True, rf=False, ok=False, log=None, from_file=False)
    for argv, plant in ([], {}), (['-c'], {}), (['-t', '1'], {}), (['-t', '1', '1'], {}), (['-t'] + ['1'] * 6, {}), \
            (['-t', 'x', '1', '1'], {}), (['-t', '1', '1', '1', '1', '-p', 'in.json'], {'in.json': '{}'}), \
            (['-p', 'missing.json'], {}), (['-p', 'in.json'], {'in.json': '{}'}), (['-p', 'in.json'], {'in.json': 'x'}), \
            (['-t', '1', '1', '1', '-rf', 'maybe'], {}), (['-t', '1', '1', '1', '-rf'], {}), (['-t', '1', '1', '1', '-s', '-c'], {}), \
            (['-t', '1', '1', '1', '1.5'], {}), (['-t', '2', '2', '2', '2', '-nosuch'], {}):
        jobs.append((argv, plant, bad))
    with cf.ThreadPoolExecutor(8) as ex:
        out = list(ex.map(run_cli, [(ck.scratch, i, a, p) for i, (a, p, _) in enumerate(jobs)]))
    for (argv, plant, x), res in zip(jobs, out):
        judge(ck, argv, plant, x, res)
    stdlog(ck)
    if not ck.counters.get('commands', 0) > ck.counters.get('refused', 0) + 20:
        ck.evaluations = 0
