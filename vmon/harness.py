"""Common check runner: scratch space, generator driving, verdicts, evidence."""
import argparse
import contextlib
import io
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
SRC = os.path.join(REPO, 'termfactory')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f'{prop}/{self.seed}')
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []          # (key, message, data)
        self.known_hit = {}
        self.rule = ''
        self.assumptions = []
        self.exhaustive = None
        self.known = self._load_known()
        self.start_cwd = os.getcwd()
        self.scratch = tempfile.mkdtemp(prefix=f'vmon_{prop}_')
        self._n = 0
        os.chdir(self.scratch)

    # ---------------------------------------------------------------- bookkeeping
    def _load_known(self):
        with open(KNOWN) as f:
            data = json.load(f)
        return [k for k in data['known'] if k['property'] == self.prop]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        """One evaluated case; key identifies it for the distinct count."""
        self.evaluations += 1
        if nontrivial:
            if key not in self.distinct:
                self.distinct.add(key)
                if sample is not None and len(self.samples) < 12 and (len(self.distinct) % 7 == 1):
                    self.samples.append(sample)

    def violation(self, key, message, data=None):
        """Report a refuting observation, unless the known-findings file lists exactly `key`."""
        for k in self.known:
            if key in k['keys']:
                self.known_hit.setdefault(k['id'], []).append(key)
                return
        self.violations.append((key, message, data))

    # ---------------------------------------------------------------- scratch dirs
    def newdir(self):
        self._n += 1
        d = os.path.join(self.scratch, f'd{self._n}')
        os.mkdir(d)
        return d

    # ---------------------------------------------------------------- finish
    def finish(self):
        os.chdir(self.start_cwd)
        shutil.rmtree(self.scratch, ignore_errors=True)
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples[:12],
            'observed': dict(sorted(self.counters.items())),
        }
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.violations),
        }
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            if k['id'] in self.known_hit:
                n = len(self.known_hit[k['id']])
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']} ({n} observations)")
        if self.violations:
            rep = os.path.join(evdir, f'{self.prop}.replay.json')
            with open(rep, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                           'violations': [{'key': k, 'message': m, 'data': d}
                                          for k, m, d in self.violations[:200]]},
                          f, indent=1, default=str)
            for k, m, d in self.violations[:5]:
                print(f'  {k}: {m}'[:600])
            print(f'  ({len(self.violations)} refuting observations in total)')
            print(f'VIOLATION property={self.prop} replay={rep}')
            return 1
        if self.evaluations == 0 or not self.distinct:
            print(f'INCONCLUSIVE property={self.prop}: the monitor observed nothing')
            return 2
        print(f'HELD property={self.prop} on {self.evaluations} evaluations '
              f'({len(self.distinct)} distinct), {self.counters}, {ev["wall_s"]} s')
        return 0


def run(check_fn, prop, cpu_limit=3000):
    """Run one check function under the verdict discipline."""
    sys.dont_write_bytecode = True
    resource.setrlimit(resource.RLIMIT_CPU, (cpu_limit, cpu_limit + 30))
    ck = Check(prop)
    code = 2
    try:
        with quiet():
            check_fn(ck)
        code = ck.finish()
    except Inconclusive as e:
        ck.violations and ck.finish()
        print(f'INCONCLUSIVE property={prop}: {e}')
        code = 1 if ck.violations else 2
    except BaseException:
        traceback.print_exc()
        if ck.violations:
            code = ck.finish()
        else:
            os.chdir('/')
            shutil.rmtree(ck.scratch, ignore_errors=True)
            code = 2
    sys.stdout.flush()
    return code


@contextlib.contextmanager
def quiet():
    """Discard what the generators print."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


_mods = {}


def repo_modules():
    """Import the generators from /repo's working tree (cwd must be scratch: imports open log files)."""
    if not _mods:
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        import _glue_
        import truncation_keys
        import truncations
        _mods.update(glue=_glue_, tk=truncation_keys.TruncationsKeys, tr=truncations)
        for m in list(sys.modules.values()):
            f = getattr(m, '__file__', None) or ''
            if os.path.basename(f) == '_glue_.py' and os.path.dirname(os.path.abspath(f)) != SRC:
                raise Inconclusive(f'imported generators from {f}')
    return _mods


KEYS = {'zhz': ('H', 'CC', 'P'), 'fcc': ('H', 'CC', 'S', 'P'), 'eTz': ('H', 'CC', 'T', 'eT', 'P')}
ANSATZ = {'zhz': 'z_t ansatz', 'fcc': 'full cc', 'eTz': 'eT_z_t ansatz'}


def make_trunc(kind, values):
    tk = repo_modules()['tk']
    return {getattr(tk, k): v for k, v in zip(KEYS[kind], values)}


def generate(ck, kind, values, what, in_dir=None, limit=None, **kw):
    """Call the public generation entry point in a fresh directory.

    Returns (dict of produced file name -> text, exception or None).
    """
    g = repo_modules()['glue']
    d = in_dir or ck.newdir()
    old = os.getcwd()
    os.chdir(d)
    err = None
    try:
        kwargs = dict(only_ground_state=True, remove_f_terms=False, ansatz=ANSATZ[kind], lhs_rhs='RHS')
        kwargs.update(kw)
        fn = g._generate_latex if what == 'latex' else g._generate_python
        try:
            with time_limit(limit or GEN_S):
                fn(make_trunc(kind, values), **kwargs)
        except MemoryError:
            err = Hang('out of memory')
        except Exception as e:      # noqa: the monitor classifies it
            err = e
    finally:
        os.chdir(old)
    files = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), encoding='utf8') as f:
            files[n] = f.read()
    if in_dir is None:
        shutil.rmtree(d, ignore_errors=True)
    ck.count('generator_runs')
    return files, err


def gen_file(ck, fname, *args):
    """Call one of the standalone generators `fname(*args, path)`; returns (text, exception)."""
    g = repo_modules()['glue']
    d = ck.newdir()
    p = os.path.join(d, 'out.txt')
    err = None
    try:
        with time_limit(GEN_S):
            getattr(g, fname)(*args, p)
    except Exception as e:
        err = e
    txt = None
    if os.path.exists(p):
        with open(p, encoding='utf8') as f:
            txt = f.read()
    shutil.rmtree(d, ignore_errors=True)
    ck.count('generator_runs')
    return txt, err


def excname(e):
    return f'{type(e).__name__}: {e}'[:300]


# -------------------------------------------------------------------- parallel sweeps
QUICK_S, THOROUGH_S = 780, 3 * 3600      # no verdict after this long: give up
# one generator call: the slowest one takes some 60 s, in the thorough tier 4 min
GEN_S = 1500 if os.environ.get('VERIF_TIER') == 'thorough' else 300


class Hang(Exception):
    """a generator call that did not come back, or ate the memory"""


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


@contextlib.contextmanager
def time_limit(seconds):
    def on(*a):
        raise Hang(f'no answer within {seconds} s')
    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _pm_worker(args):
    fn, item, seed, tier, prop = args
    sub = SubCheck(prop, seed, tier)
    old = os.getcwd()
    try:
        os.chdir(sub.scratch)
        with quiet():
            fn(sub, item)
    except Inconclusive:
        raise
    except Exception as e:
        sub.error = traceback.format_exc()
    finally:
        os.chdir(old)
        shutil.rmtree(sub.scratch, ignore_errors=True)
    return sub.dump() + (item,)


class SubCheck:
    """Collects the observations of one work item in a worker process."""
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.cases, self.viol, self.counters, self.error = [], [], {}, None
        self.scratch = tempfile.mkdtemp(prefix=f'vmon_{prop}_w_')
        self._n = 0

    thorough = property(lambda s: s.tier == 'thorough')
    newdir = Check.newdir
    count = Check.count

    def case(self, key, nontrivial=True, sample=None):
        self.cases.append((key, nontrivial, sample))

    def violation(self, key, message, data=None):
        self.viol.append((key, message, data))

    def dump(self):
        return self.cases, self.viol, self.counters, self.error


def pmap(ck, fn, items, procs=None):
    """Run fn(sub, item) for every item in forked workers; merge what the monitors observed."""
    import multiprocessing as mp
    repo_modules()
    items = list(items)
    ctx = mp.get_context('fork')
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(items)))
    errors = []
    done = 0
    with ctx.Pool(procs, initializer=_limits) as pool:
        results = pool.imap_unordered(_pm_worker, [(fn, it_, ck.seed, ck.tier, ck.prop) for it_ in items], chunksize=1)
        for _ in items:
            # a refutation needs no further exploration; and no verdict may wait for ever
            end = ck.t0 + (QUICK_S if not ck.thorough else THOROUGH_S)
            if ck.violations:
                ck.first_violation = getattr(ck, 'first_violation', time.time())
                end = min(end, ck.first_violation + 30)
            try:
                cases, viol, counters, error, item = results.next(timeout=max(.01, end - time.time()))
            except mp.TimeoutError:
                pool.terminate()
                ck.count('work_items_not_finished', len(items) - done)
                if ck.violations:
                    break
                raise Inconclusive(f'{len(items) - done} of {len(items)} work items did not finish in time')
            done += 1
            for c in cases:
                ck.case(*c)
            for v in viol:
                ck.violation(*v)
            for k, n in counters.items():
                ck.count(k, n)
            if error:
                errors.append((item, error))
    if errors:
        ck.count('harness_errors', len(errors))
        if not ck.violations:
            raise RuntimeError(f'harness error on {errors[0][0]}:\n{errors[0][1]}')
    ck.count('work_items', done)
