"""Worker of the determinism monitor: replays a history of generation requests in one process, reports what it saw.

stdin: JSON {src, log, history: [[id, request], ...]}; stdout (last line): JSON list of events.
A request is ['glue', 'latex'|'python', kind, values, kwargs] or ['file', function name, args].
"""
import contextlib
import copy
import hashlib
import io
import json
import logging
import os
import shutil
import sys
import time

KEYS = {'zhz': ('H', 'CC', 'P'), 'fcc': ('H', 'CC', 'S', 'P'), 'eTz': ('H', 'CC', 'T', 'eT', 'P')}


def shift_clock(days):
    """another day: the calendar is not part of a request"""
    import datetime
    now, local, gm, strf, ctime = time.time, time.localtime, time.gmtime, time.strftime, time.ctime
    off = days * 86400 + 12345
    time.time = lambda: now() + off
    time.localtime = lambda s=None: local(now() + off if s is None else s)
    time.gmtime = lambda s=None: gm(now() + off if s is None else s)
    time.strftime = lambda f, t=None: strf(f, local(now() + off) if t is None else t)
    time.ctime = lambda s=None: ctime(now() + off if s is None else s)
    real, realdate = datetime.datetime, datetime.date

    class Shifted(real):
        @classmethod
        def now(cls, tz=None):
            return real.now(tz) + datetime.timedelta(seconds=off)

        @classmethod
        def utcnow(cls):
            return real.now(datetime.timezone.utc).replace(tzinfo=None) + datetime.timedelta(seconds=off)

        today = now

    class ShiftedDate(realdate):
        @classmethod
        def today(cls):
            return (real.now() + datetime.timedelta(seconds=off)).date()
    datetime.datetime, datetime.date = Shifted, ShiftedDate


def answer_every_question(src):
    """an environment in which every variable the generators (not the libraries) ask for is set to something"""
    asked = []

    class Env(type(os.environ)):
        def _mine(self):
            f = sys._getframe(2)
            while f and f.f_globals.get('__name__') in ('os', '_collections_abc', __name__):
                f = f.f_back
            return f is not None and f.f_code.co_filename.startswith(src + os.sep)

        def __getitem__(self, key):
            if self._mine():
                asked.append(key)
                try:
                    return super().__getitem__(key)
                except KeyError:
                    return '1'
            return super().__getitem__(key)

        def __contains__(self, key):
            return self._mine() or super().__contains__(key)

    e = os.environ
    os.environ = Env(e._data, e.encodekey, e.decodekey, e.encodevalue, e.decodevalue)
    return asked


def distance(a, b):
    flat = lambda r: r[:3] + list(r[3]) + sorted(map(str, r[4].items())) if r[0] == 'glue' else r[:2] + list(r[2])
    a, b = flat(a), flat(b)
    return abs(len(a) - len(b)) + sum(x != y for x, y in zip(a, b))


def main():
    job = json.load(sys.stdin)
    shift_clock(job['days'])
    sys.dont_write_bytecode = True
    sys.path.insert(0, job['src'])
    asked = answer_every_question(job['src']) if job['every_variable'] else []
    import _glue_
    from truncation_keys import TruncationsKeys as tk
    if job['log'] == 'off':
        logging.disable(logging.CRITICAL)
    elif job['log'] == 'debug':
        logging.getLogger().setLevel(logging.DEBUG)
    elif job['log'] in ('modules-debug', 'modules-critical'):
        # the level set on the generators' own loggers, as log_conf.setLevelDebug(log) does; records go nowhere
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        root.addHandler(logging.NullHandler())
        level = logging.DEBUG if job['log'] == 'modules-debug' else logging.CRITICAL
        for m in list(sys.modules.values()):
            if isinstance(getattr(m, 'log', None), logging.Logger):
                m.log.setLevel(level)
    top = os.getcwd()
    events, last = [], {}
    reqs = dict(job['history'])
    for n, (rid, req) in enumerate(job['history']):
        d = os.path.join(top, f'r{n}')
        os.mkdir(d)
        os.chdir(d)
        ev = {'id': rid, 'n': n, 'err': None, 'files': {}, 'mutated': None, 'cwd': True}
        if req[0] == 'glue':
            names = list(KEYS[req[2]])
            if n % 2:
                names.reverse()        # the order in which the truncation dictionary was filled is irrelevant
            if n % 5 > 2:
                names = names[n % 5 - 2:] + names[:n % 5 - 2]
            vals = dict(zip(KEYS[req[2]], req[3]))
            trunc = {getattr(tk, k): vals[k] for k in names}
            kw = dict(req[4])
            before = (list(trunc.items()), copy.deepcopy(kw))
            call = lambda: getattr(_glue_, '_generate_' + req[1])(trunc, **kw)
            state = lambda: (list(trunc.items()), kw)
        else:
            args = list(req[2])
            before = list(args)
            call = lambda: getattr(_glue_, req[1])(*args, './out.txt')
            state = lambda: args
        if n % 3 == 2:
            # an earlier, longer output is already there
            for name in job['names'].get(str(rid), []):
                own = last.get(name, {}).get(rid)
                with open(name, 'wb') as f:
                    if n % 4 == 0 and own:
                        # the document this request wrote before, spoiled without changing its length
                        f.write(own[:len(own) // 2] + b'?' * (len(own) - len(own) // 2))
                        ev['spoiled'] = True
                    elif n % 4 != 1:
                        f.write(b'left over from an earlier run\n' * 20000)
                if n % 2:
                    os.utime(name, (2 ** 31 + n, 2 ** 31 + n))      # dated in the future
        elif n % 3 == 1:
            # the document another request wrote under the same name is already there
            for name in job['names'].get(str(rid), []):
                others = {i: d for i, d in last.get(name, {}).items() if i != rid}
                if others:
                    # preferably of a request that differs little, larger ones first
                    i = min(others, key=lambda i: (distance(reqs[i], req), -len(others[i])))
                    with open(name, 'wb') as f:
                        f.write(others[i])
                    ev['over'] = i
        t0 = time.time()
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                call()
            except Exception as e:
                ev['err'] = type(e).__name__
        ev['s'] = round(time.time() - t0, 2)
        if state() != before:
            ev['mutated'] = repr(state())[:200]
        ev['cwd'] = os.path.realpath(os.getcwd()) == os.path.realpath(d)
        os.chdir(d)
        for root, _, fs in os.walk('.'):
            for f in fs:
                with open(os.path.join(root, f), 'rb') as fp:
                    data = fp.read()
                name = os.path.relpath(os.path.join(root, f), '.')
                ev['files'][name] = hashlib.sha256(data).hexdigest()
                if ev['err'] is None:
                    last.setdefault(name, {})[rid] = data
        os.chdir(top)
        shutil.rmtree(d)
        events.append(ev)
    stray = sorted(os.listdir(top))
    print('\n' + json.dumps({'events': events, 'stray': stray, 'asked': asked}))


main()
