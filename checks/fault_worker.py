"""Worker of the fault monitor (C22): serves requests while writing fails at chosen points.

stdin: JSON {src, jobs: [[id, request, name, faults], ...]}; last line of stdout: JSON list of what was seen.
"""
import hashlib
import io
import json
import os
import resource
import shutil
import sys

KEYS = {'zhz': ('H', 'CC', 'P'), 'fcc': ('H', 'CC', 'S', 'P'), 'eTz': ('H', 'CC', 'T', 'eT', 'P')}


def main():
    job = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = sys.stderr = io.StringIO()
    sys.dont_write_bytecode = True
    sys.path.insert(0, job['src'])
    import _glue_
    from truncation_keys import TruncationsKeys as tk
    unlimited = resource.getrlimit(resource.RLIMIT_FSIZE)
    top, events = os.getcwd(), []

    def snapshot(d):
        res = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                if os.path.isfile(p):          # (not the full device)
                    with open(p, 'rb') as fp:
                        data = fp.read()
                    res[os.path.relpath(p, d)] = [len(data), hashlib.sha256(data).hexdigest()]
        return res

    for rid, req, name, faults in job['jobs']:
        def call():
            if req[0] == 'glue':
                trunc = {getattr(tk, k): x for k, x in zip(KEYS[req[2]], req[3])}
                getattr(_glue_, '_generate_' + req[1])(trunc, **req[4])
            else:
                getattr(_glue_, req[1])(*req[2], './' + name)

        def attempt():
            try:
                call()
                return None
            except Exception as e:
                return type(e).__name__

        d = os.path.join(top, f'r{rid}')
        os.mkdir(d)
        os.chdir(d)
        err = attempt()
        ref = snapshot(d)
        ev = {'id': rid, 'err': err, 'ref': ref, 'faults': []}
        size = ref.get(name, [0])[0]
        for fault in faults if err is None else []:
            for f in os.listdir(d):
                os.remove(f)
            with open('bystander.tex', 'w') as f:
                f.write('% another document\n')
            if fault == 'full':
                os.symlink('/dev/full', name)
            elif fault == 'directory':
                os.mkdir(name)
            elif fault == 'dangling':
                os.symlink('nowhere/at/all', name)
            else:
                resource.setrlimit(resource.RLIMIT_FSIZE, (int(size * fault), unlimited[1]))
            try:
                e1 = attempt()
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, unlimited)
            seen = snapshot(d)
            if os.path.islink(name):
                os.remove(name)
            elif os.path.isdir(name):
                shutil.rmtree(name)
            # the same request again, over what the failed one left behind
            e2 = attempt()
            ev['faults'].append({'fault': fault, 'err': e1, 'seen': seen, 'again': e2, 'after': snapshot(d)})
        os.chdir(top)
        shutil.rmtree(d)
        sys.stdout.truncate(0), sys.stdout.seek(0)
        events.append(ev)
    out.write('\n' + json.dumps(events) + '\n')


main()
