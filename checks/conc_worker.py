"""Worker of the concurrency monitor (C21): serves rounds of requests, each round by as many threads at once.

stdin: JSON {src, seed, serial, rounds: [[[id, request], ...], ...]}; last line of stdout: JSON of what was seen.
The requests of a round write documents of different names into one directory. With `serial` they are served one by one.
"""
import hashlib
import io
import json
import os
import random
import shutil
import sys
import threading
import time

KEYS = {'zhz': ('H', 'CC', 'P'), 'fcc': ('H', 'CC', 'S', 'P'), 'eTz': ('H', 'CC', 'T', 'eT', 'P')}


def main():
    job = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = sys.stderr = io.StringIO()
    sys.dont_write_bytecode = True
    src = job['src']
    sys.path.insert(0, src)
    import _glue_
    from truncation_keys import TruncationsKeys as tk
    switches, last, trace = [0], [None], hashlib.sha256()
    points = [0]
    if not job['serial']:
        sys.setswitchinterval(1e-5)

    # documents are written at the same moment: who comes to open its file for writing waits for the others (audit
    # events, whatever the code opens files with); the file operations that follow are spread at random
    meet, me = {'cond': threading.Condition(), 'here': set(), 'all': 0}, threading.local()

    def arrive(n, wait):
        with meet['cond']:
            meet['here'].add(n)
            meet['cond'].notify_all()
            if wait:
                meet['cond'].wait_for(lambda: len(meet['here']) >= meet['all'], timeout=20)

    def audit(event, args):
        n = getattr(me, 'n', None)
        if n is None or getattr(me, 'busy', False):
            return
        me.busy = True
        try:
            if event == 'open' and isinstance(args[0], (str, bytes)) and \
                    (args[2] or 0) & (os.O_WRONLY | os.O_RDWR) and n not in meet['here']:
                arrive(n, True)
                met[0] += 1
            elif event in ('open', 'os.rename', 'os.remove', 'os.truncate', 'os.mkdir', 'os.link'):
                time.sleep(me.rng.random() * .003)
        finally:
            me.busy = False

    met = [0]
    if not job['serial']:
        sys.addaudithook(audit)

    def run(rid, req, n, gate, res):
        rng = random.Random(job['seed'] * 1000 + n)
        budget = [job.get('yields', 400)]

        def perturb(frame, event, arg):
            # the schedule: threads give way at calls and returns of the generators, now and then for longer
            if event == 'c_call':
                if getattr(arg, '__name__', '') in ('write', 'close', '__exit__', 'writelines', 'flush'):
                    time.sleep(rng.random() * .002)
                return
            if frame.f_code.co_filename.startswith(src):
                points[0] += 1
                if last[0] != n:
                    switches[0] += 1
                    last[0] = n
                    trace.update(f'{n}:{frame.f_code.co_name};'.encode())
                if budget[0] > 0 and rng.random() < .02:
                    budget[0] -= 1
                    time.sleep(rng.choice((0, 0, 0, 1e-5, 1e-4, 1e-3)))

        if req[0] == 'glue':
            trunc = {getattr(tk, k): x for k, x in zip(KEYS[req[2]], req[3])}
            call = lambda: getattr(_glue_, '_generate_' + req[1])(trunc, **req[4])
        else:
            call = lambda: getattr(_glue_, req[1])(*req[2], './' + req[3])
        gate.wait()
        if not job['serial']:
            me.n, me.rng = n, random.Random(job['seed'] * 77 + n)
            sys.setprofile(perturb)
        try:
            call()
            res[rid] = None
        except BaseException as e:
            res[rid] = f'{type(e).__name__}: {e}'[:200]
        finally:
            sys.setprofile(None)
            me.n = None
            arrive(n, False)

    top, rounds = os.getcwd(), []
    for k, batch in enumerate(job['rounds']):
        d = os.path.join(top, f'r{k}')
        os.mkdir(d)
        os.chdir(d)
        res = {}
        if job['serial']:
            for n, (rid, req) in enumerate(batch):
                run(rid, req, n, threading.Barrier(1), res)
        else:
            gate = threading.Barrier(len(batch))
            meet['here'], meet['all'] = set(), len(batch)
            ts = [threading.Thread(target=run, args=(rid, req, n, gate, res)) for n, (rid, req) in enumerate(batch)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        same = os.path.realpath(os.getcwd()) == os.path.realpath(d)
        files = {}
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), 'rb') as fp:
                files[f] = hashlib.sha256(fp.read()).hexdigest()
        os.chdir(top)
        shutil.rmtree(d)
        sys.stdout.truncate(0), sys.stdout.seek(0)
        rounds.append({'res': res, 'files': files, 'cwd': same})
    out.write('\n' + json.dumps({'rounds': rounds, 'switches': switches[0], 'points': points[0], 'met': met[0], 'trace': trace.hexdigest()}) + '\n')


main()
