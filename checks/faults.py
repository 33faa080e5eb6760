"""A document that could not be written is never reported as generated; interrupted requests can be repeated (C22)."""
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time

from checks.cli_names import STR
from checks.concurrent_requests import request
from vmon.harness import KEYS, SRC, VERIF

FAULTS = ('full', 'directory', 'dangling')


def worker(args):
    scratch, n, jobs = args
    d = os.path.join(scratch, f'w{n}')
    os.mkdir(d)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'checks', 'fault_worker.py')], cwd=d, text=True,
                           input=json.dumps({'src': SRC, 'jobs': jobs}), capture_output=True, timeout=3000,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        if p.returncode:
            raise RuntimeError(f'worker {n}: {p.stderr[-1500:]}')
        return json.loads(p.stdout.splitlines()[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def start(argv, cwd, limit=None, at=None):
    prog = [os.path.join(SRC, 'driver.py')]
    if at is not None:
        prog = [os.path.join(VERIF, 'checks', 'fault_driver.py'), SRC, *map(str, at), '--']
    def pre():
        signal.signal(signal.SIGINT, signal.SIG_DFL)    # (background jobs inherit that it is ignored)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return subprocess.Popen([sys.executable] + prog + argv, cwd=cwd, stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=pre,
                            env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))


def digest(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def command(args):
    """one command line: alone, with every fault, interrupted at several moments; each followed by a repetition"""
    scratch, n, argv, trunc, name, limits, moments = args
    top = os.path.join(scratch, f'd{n}')
    seen = []

    def fresh():
        shutil.rmtree(top, ignore_errors=True)
        work = os.path.join(top, 'work')
        os.makedirs(work)
        with open(os.path.join(work, 'in.json'), 'w') as f:
            json.dump(trunc, f)
        with open(os.path.join(work, 'bystander.tex'), 'w') as f:
            f.write('% another document\n')
        return work
    try:
        work = fresh()
        keep = digest(os.path.join(work, 'in.json')), digest(os.path.join(work, 'bystander.tex'))
        t0 = time.time()
        rc = start(argv, work).wait(timeout=600)
        took = time.time() - t0
        ref = digest(os.path.join(work, name))
        if rc or ref is None:
            return n, rc, ref, seen
        size = os.path.getsize(os.path.join(work, name))
        plan = [('limit', f) for f in limits] + [(k, 0) for k in FAULTS] + [('kill', m) for m in moments] + \
            [('interrupt', m) for m in moments]
        # the same at chosen points of the work instead of chosen times
        work = fresh()
        cfile = os.path.join(top, 'calls')
        if start(argv, work, at=('none', 'SIGINT', cfile)).wait(timeout=600) or digest(os.path.join(work, name)) != ref:
            return n, 'under the monitor', None, seen
        with open(cfile) as f:
            calls = int(f.read())
        points = [max(1, int(calls * m)) for m in moments] + ['open', 'write', 'rename']
        plan += [(s, p) for s in ('SIGINT', 'SIGKILL') for p in points]
        for kind, x in plan:
            work = fresh()
            out = os.path.join(work, name)
            if kind == 'limit':
                # (the log shares the limit, as it shares the disk)
                rc = start(argv, work, int(size * x)).wait(timeout=600)
            elif kind in FAULTS:
                if kind == 'directory':
                    os.mkdir(out)
                else:
                    os.symlink('/dev/full' if kind == 'full' else 'nowhere/at/all', out)
                rc = start(argv, work).wait(timeout=600)
            elif kind.startswith('SIG'):
                rc = start(argv, work, at=(x, kind, '-')).wait(timeout=600)
            else:
                p = start(argv, work)
                time.sleep(took * x)
                p.send_signal(signal.SIGKILL if kind == 'kill' else signal.SIGINT)
                rc = p.wait(timeout=600)
            got = digest(out) if kind != 'full' or not os.path.islink(out) else None
            if os.path.islink(out):
                os.remove(out)
            elif os.path.isdir(out):
                shutil.rmtree(out)
            rc2 = start(argv, work).wait(timeout=600)
            kept = (digest(os.path.join(work, 'in.json')), digest(os.path.join(work, 'bystander.tex'))) == keep
            seen.append((kind, x, rc, got == ref, rc2, digest(out) == ref, kept))
        return n, 0, ref, seen
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check(ck):
    ck.rule = ('case = (request, fault): a request served while writing its document fails at a chosen byte, or the document '
               'cannot be created, or the process is killed or interrupted; success may be reported only with the complete document '
               'in place, other files are untouched, and repeating the request gives the right bytes')
    r = ck.rng
    jobs, n, seen = [], 240 if ck.thorough else 90, set()
    while len(jobs) < n:
        req, name = request(r)
        if str(req) in seen:
            continue
        seen.add(str(req))
        # at the first byte, at a block boundary inside, just before the end; a limit above the size is no fault
        faults = [0, r.random(), r.random(), 0.9999, 1.5] + list(FAULTS)
        jobs.append((len(jobs), req, name, faults))
    parts = [jobs[i::8] for i in range(8)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(worker, [(ck.scratch, i, p) for i, p in enumerate(parts)]))
    stable = []
    by = hashlib.sha256(b'% another document\n').hexdigest()
    for evs in res:
        for ev in evs:
            _, req, name, _ = jobs[ev['id']]
            if ev['err']:
                ck.count(f'refused: {ev["err"]}')
                continue
            want = ev['ref'][name]
            stable.append((req, name))
            for f in ev['faults']:
                ck.case((ev['id'], str(f['fault'])), True, {'request': req, 'fault': f['fault'], 'outcome': f['err'] or 'served'})
                what = f'{req} with fault {f["fault"]}'
                complete = f['seen'].get(name) == want
                ck.count('faults_that_bit', f['err'] is not None)
                ck.count('faults_without_effect', f['err'] is None)
                if f['err'] is None and not complete:
                    ck.violation('silent', f'{what}: reported as generated, but the document is {f["seen"].get(name, ["missing"])[0]} '
                                 f'bytes instead of {want[0]}')
                if f['fault'] == 1.5 and f['err']:
                    ck.violation('spurious', f'{what}: {f["err"]} although everything fits')
                left = set(f['seen']) - {name, 'bystander.tex'}
                if f['seen'].get('bystander.tex', [0, 0])[1] != by or f['after'].get('bystander.tex', [0, 0])[1] != by:
                    ck.violation('bystander', f'{what}: another document in the directory was changed')
                if f['err'] is None and left:
                    ck.violation('stray', f'{what}: left {sorted(left)} behind')
                if req[1] == 'excited_state_w_equations_latex':
                    continue        # keeps the first lines of whatever is there (C13)
                if f['again'] is not None:
                    ck.violation('repeat', f'{what}, then repeated without it: {f["again"]}')
                elif f['after'].get(name) != want:
                    ck.violation('repeat', f'{what}, then repeated without it: the document differs')
    # the same for processes, and crashes
    cmds, kinds = [], set()
    for req, name in stable:
        if req[0] != 'glue':
            continue
        kw = req[4]
        argv = ['-a', kw['ansatz']] + ['-c'] * (req[1] == 'python') + ['-lhs'] * (kw['lhs_rhs'] == 'LHS') + \
            ['-es'] * (not kw['only_ground_state']) + ['-rf', str(kw['remove_f_terms'])]
        kind = (req[1], req[2])
        by_file = r.random() < .5
        argv += ['-p', 'in.json'] if by_file else ['-t'] + [str(x) for x in req[3]]
        if kind in kinds and len(cmds) >= (40 if ck.thorough else 12) - 5 + len(kinds):
            continue
        kinds.add(kind)
        moments = sorted(r.random() * 1.1 for _ in range(8 if ck.thorough else 4))
        cmds.append((ck.scratch, len(cmds), argv, {STR[k]: x for k, x in zip(KEYS[req[2]], req[3])}, name,
                     (0, r.random(), 0.9999), moments))
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(command, cmds))
    for n, rc, ref, seen in outs:
        line = 'driver.py ' + ' '.join(cmds[n][2])
        if rc or ref is None:
            ck.violation('driver', f'{line}: exit {rc}' + (', no document' if ref is None else ''))
            continue
        for kind, x, rc, complete, rc2, right, kept in seen:
            what = f'{line} with {kind} {x}'
            ck.case((n, kind, x), True, {'command': line, 'fault': kind, 'at': x, 'exit': rc})
            ck.count('driver_faults')
            ck.count(f'driver_{kind}_ended_in_failure', rc != 0)
            if rc == 0 and not complete:
                ck.violation('silent', f'{what}: exit 0 although the document is not complete')
            if rc2 or not right:
                ck.violation('repeat', f'{what}, then repeated: exit {rc2}' + ('' if right else ', the document differs'))
            if not kept:
                ck.violation('bystander', f'{what}: an input file or another document was changed')
    if ck.counters.get('faults_that_bit', 0) < 100:
        ck.evaluations = 0
    ck.assumptions = ['failures are those of the file system (full device, size limit, name not creatable) and of the process (SIGKILL, SIGINT)']
