"""Code generated with and without hot bands: the same equations, or a refusal (C18)."""
import itertools as it
import random

import numpy as np

from vmon.harness import excname, generate, pmap
from vmon.loadgen import Flags, load_source
from vmon.tensor import close
from checks import eT_python, full_cc

GS, HOT = Flags(ground_state=True), Flags(default=False)


def module(sub, kind, v, what, **kw):
    files, err = generate(sub, kind, v, 'python', **kw)
    if err is not None or len(files) != 1:
        sub.violation(f'gen:{kind}', f'{v} {kw}: {excname(err) if err else sorted(files)}')
        return None
    try:
        return load_source(next(iter(files.values())), what)
    except Exception as e:
        sub.violation(f'load:{kind}', f'{v} {kw}: {excname(e)}')
        return None


def call(f, *a):
    try:
        return f(*a), None
    except Exception as e:
        return None, e


def judge(sub, kind, tag, p, fn, want, cases):
    """cases: [(description, callable, 'value' | 'refuse')]"""
    for desc, f, what in cases:
        R, err = call(f)
        sub.case((kind, tag, p, desc), True, {'file': tag, 'p': p, 'case': desc, 'expected': what})
        if what == 'refuse':
            if not isinstance(err, NotImplementedError):
                sub.violation(f'{kind}:refuse:{desc}', f'{tag} {fn}: {excname(err) if err else "returned a value"}')
        elif err is not None:
            sub.violation(f'{kind}:exec:{desc}', f'{tag} {fn}: {excname(err)}')
        elif np.shape(R) != np.shape(want) or not close(R, want):
            sub.violation(f'{kind}:value:{desc}', f'{tag} {fn}: differs from the ground-state code')


def eT_item(sub, spec):
    H, Z, e, P, side = spec
    tag = f'eTz H{H} Z{Z} e{e} P{P} {side}'
    gs = module(sub, 'eTz', (H, Z, 1, e, P), 'eT', lhs_rhs=side)
    es = module(sub, 'eTz', (H, Z, 1, e, P), 'eTes', lhs_rhs=side, only_ground_state=False)
    if gs is None or es is None:
        return
    mdl = eT_python.models(sub.seed)[0]
    for p, opt in it.product(range(min(P, Z) + 1), (False, True)):
        fn = f'compute_m0_n{p}_amplitude' + ('_optimized' if opt else '')
        a = (mdl.A, mdl.N)
        rest = (eT_python.flags(),) + tuple(mdl.args(side)) + (((None, None),) if opt else ())
        f, g = getattr(gs, fn, None), getattr(es, fn, None)
        if f is None or g is None:
            sub.violation('eTz:missing', f'{tag}: no {fn}')
            continue
        want, err = call(f, *a, GS, *rest)
        if err is not None:
            sub.violation('eTz:exec:ground code', f'{tag} {fn}: {excname(err)}')
            continue
        judge(sub, 'eTz', tag, p, fn, want, [
            (f'hot-band code, ground state, opt={opt}', lambda: g(*a, GS, *rest), 'value'),
            (f'hot-band code, hot bands, opt={opt}', lambda: g(*a, HOT, *rest), 'value'),
            (f'ground-state code, hot bands, opt={opt}', lambda: f(*a, HOT, *rest), 'refuse')])
        # with levels switched off at run time
        r = random.Random(f'{sub.seed}{tag}{p}')
        low = (eT_python.flags(r.randint(0, H), r.randint(0, Z), r.random() < .7),) + rest[1:]
        want, err = call(f, *a, GS, *low)
        if err is not None:
            sub.violation('eTz:exec:ground code', f'{tag} {fn}: {excname(err)}')
            continue
        judge(sub, 'eTz', tag, p, fn, want, [
            (f'hot-band code, ground state, levels off, opt={opt}', lambda: g(*a, GS, *low), 'value'),
            (f'hot-band code, hot bands, levels off, opt={opt}', lambda: g(*a, HOT, *low), 'value')])
    sub.count('einsum_events', gs._rec.einsum + es._rec.einsum)


def fcc_item(sub, spec):
    H, CC, S, P = spec
    tag = f'fcc H{H} CC{CC} S{S} P{P}'
    gs = module(sub, 'fcc', spec, 'fcc')
    es = module(sub, 'fcc', spec, 'fcces', only_ground_state=False)
    if gs is None or es is None:
        return
    h, t = full_cc.tensors(sub.seed, 2, 2, H, CC)
    for p in range(min(P, CC) + 1):
        fn = f'compute_m0_n{p}_amplitude'
        f, g = getattr(gs, fn, None), getattr(es, fn, None)
        if f is None or g is None:
            sub.violation('fcc:missing', f'{tag}: no {fn}')
            continue
        tr = full_cc.flags()
        want, err = call(f, 2, 2, GS, tr, h, t)
        if err is not None:
            sub.violation('fcc:exec:ground code', f'{tag} {fn}: {excname(err)}')
            continue
        cases = [('hot-band code, ground state', lambda: g(2, 2, GS, tr, h, t), 'value')]
        for nm, ff in (('ground-state code', gs), ('hot-band code', es)):
            cases.append((f'{nm}, hot bands, optimised amplitude', lambda ff=ff: getattr(ff, fn + '_optimized')(
                2, 2, HOT, tr, h, t, {(0, p): [[], [], []]}), 'refuse'))
            cases.append((f'{nm}, hot bands', lambda ff=ff: getattr(ff, fn)(2, 2, HOT, tr, h, t), 'refuse'))
            cases.append((f'{nm}, hot bands, paths', lambda ff=ff: getattr(ff, f'compute_m0_n{p}_optimized_paths')(2, 2, HOT, tr), 'refuse'))
            for grp in full_cc.GROUPS:
                R = np.zeros_like(want)
                cases.append((f'{nm}, hot bands, {grp}, paths', lambda ff=ff, grp=grp: getattr(
                    ff, f'compute_m0_n{p}_{grp}_optimized_paths')(2, 2, HOT, tr), 'refuse'))
                cases.append((f'{nm}, hot bands, {grp}',
                              lambda ff=ff, grp=grp, R=R: getattr(ff, f'add_m0_n{p}_{grp}_terms')(R, HOT, tr, h, t), 'refuse'))
                cases.append((f'{nm}, hot bands, {grp}, optimised', lambda ff=ff, grp=grp, R=R: getattr(
                    ff, f'add_m0_n{p}_{grp}_terms_optimized')(R, HOT, tr, h, t, iter(())), 'refuse'))
        judge(sub, 'fcc', tag, p, fn, want, cases)
    # projections with creation operators: refused as well, by every function
    for m, n in full_cc.projections(CC, P):
        if m:
            name, cases = f'm{m}_n{n}', []
            R = np.zeros((2, 2) + (2,) * (m + n), complex)
            for nm, ff in (('ground-state code', gs), ('hot-band code', es)):
                for fn, args in [(f'compute_{name}_amplitude', (2, 2, HOT, tr, h, t)),
                                 (f'compute_{name}_amplitude_optimized', (2, 2, HOT, tr, h, t, {(m, n): [[], [], []]})),
                                 (f'compute_{name}_optimized_paths', (2, 2, HOT, tr))] + [
                                     x for grp in full_cc.GROUPS for x in (
                                         (f'add_{name}_{grp}_terms', (R, HOT, tr, h, t)),
                                         (f'add_{name}_{grp}_terms_optimized', (R, HOT, tr, h, t, iter(()))),
                                         (f'compute_{name}_{grp}_optimized_paths', (2, 2, HOT, tr)))]:
                    cases.append((f'{nm}, hot bands, {fn}', lambda ff=ff, fn=fn, args=args: getattr(ff, fn)(*args), 'refuse'))
            judge(sub, 'fcc', tag, (m, n), name, None, cases)
    sub.count('einsum_events', gs._rec.einsum + es._rec.einsum)


def item(sub, spec):
    (eT_item if spec[0] == 'eTz' else fcc_item)(sub, spec[1:])


def check(ck):
    ck.rule = ('case = one projection function of one pair of generated files (ground state only / hot bands '
               'requested) called with a ground-state or a hot-band ansatz; value compared or refusal observed')
    ck.assumptions = ['hot bands are not implemented for full cc: the generated code has to say so']
    r = ck.rng
    eT = [('eTz', H, Z, e, P, s) for H in range(1, 7) for Z in range(1, 7) for e in range(1, 9) for P in range(1, 7)
          for s in ('RHS', 'LHS') if e < 5 or eT_python.cheap(H, Z, e) and Z <= 3]
    fc = [('fcc',) + s for s in it.product(range(1, 7), range(1, 7), range(1, 7), range(1, 7))
          if full_cc.cost(*s) < 250 and s[3] <= s[1]]
    top = [s for s in eT if s[4] == s[2]]            # contains every projection of its Z
    specs = eT + fc if ck.thorough else top + r.sample(eT, 300) + fc
    specs.sort(key=lambda s: s[0] == 'eTz' and -(s[2] * s[3]))
    eT_python.models(ck.seed)
    pmap(ck, item, specs)
