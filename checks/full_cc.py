"""Executed full coupled-cluster code: e^S theory (C07), documented term convention (C08), flags (C09)."""
import functools
import itertools as it
from collections import Counter
from math import factorial

import numpy as np

from vmon.harness import excname, generate, pmap
from vmon.loadgen import ContractError, Flags, Refused, load_source
from vmon.tensor import LET, apply_h, close, contract, mat_product, sym_mean, sym_rand

TAGS = ['', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic']
TTAGS = ['', 'singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']
FNAME = 'ground_state_full_cc_equations.py'
GROUPS = ('fully_connected', 'linked_disconnected', 'unlinked_disconnected')


def flags(hlev=6, tlev=6):
    kw = {f'at_least_{TAGS[i]}': i <= hlev for i in range(1, 7)}
    kw.update({TTAGS[i]: i <= tlev for i in range(1, 7)})
    return Flags(default=True, **kw)


def tensors(seed, A, N, H, CC):
    rng = np.random.default_rng([seed, A, N, 77])
    h, t = {}, {}
    for s in range(0, 7):
        for m in range(0, s + 1):
            v = sym_rand(rng, (A, A), N, s)
            if s <= H:
                h[(m, s - m)] = v
    for r in range(1, 7):
        v = sym_rand(rng, (A, A), N, r)
        if r <= CC:
            t[(r, 0)] = v
            t[(0, r)] = np.zeros_like(v)
    return h, t


def load(sub, H, CC, S, P):
    tag = f'H{H} CC{CC} S{S} P{P}'
    files, err = generate(sub, 'fcc', (H, CC, S, P), 'python')
    if err is not None:
        sub.violation('gen', f'{tag}: generator raised {excname(err)}', {'trunc': (H, CC, S, P)})
        return None
    if FNAME not in files:
        sub.violation('file', f'{tag}: produced {sorted(files)}')
        return None
    try:
        return load_source(files[FNAME], 'fcc')
    except Exception as ex:
        sub.violation('load', f'{tag}: cannot execute: {excname(ex)}')
        return None


# ------------------------------------------------------------------------------- C07: e^S
def theory_item(sub, spec):
    H, CC, S, P = spec
    mod = load(sub, *spec)
    if mod is None:
        return
    tag = f'H{H} CC{CC} S{S} P{P}'
    for A, N in ((2, 2), (1, 3)):
        h, t = tensors(sub.seed, A, N, H, CC)
        top = 1 + H
        Sop = {r: t[(r, 0)] for r in range(1, CC + 1)}
        cur = {0: np.eye(A, dtype=complex)}
        W = {n: (np.eye(A, dtype=complex) if n == 0 else np.zeros((A, A) + (N,) * n, complex))
             for n in range(top + 1)}
        for k in range(1, S + 1):
            cur = mat_product(cur, Sop, top, A, N)
            for n, v in cur.items():
                W[n] = W[n] + v / factorial(k)
        for p in range(0, min(P, CC, 1) + 1):
            f = getattr(mod, f'compute_m0_n{p}_amplitude', None)
            if f is None:
                sub.violation(f'missing:P{p}', f'{tag}: no function')
                continue
            probes = list(h) + ['all']
            for mn in probes:
                hh = {k: (v if mn in (k, 'all') else v * 0) for k, v in h.items()}
                tt = {k: v.copy() for k, v in t.items()}
                try:
                    R = f(A, N, Flags(ground_state=True), flags(), hh, tt)
                except Exception as ex:
                    sub.violation(f'exec:P{p}', f'{tag}: raised {excname(ex)}')
                    break
                ref = np.zeros((A, A) + (N,) * p, complex)
                for k in (h if mn == 'all' else [mn]):
                    if p - k[0] >= 0:
                        ref = ref + apply_h(h[k], k[0], k[1], W[k[1] + p - k[0]], p)
                sub.case((spec, p, mn, A, N), True,
                         {'trunc(H,CC,S,P)': spec, 'p': p, 'h': mn, 'A': A, 'N': N})
                if np.shape(R) != ref.shape or not close(sym_mean(R, 2), ref):
                    sub.violation(f'value:P{p}:h{mn}', f'{tag}: differs from <p|h e^S|0>', {'trunc': spec})
    sub.count('einsum_events', mod._rec.einsum)


def check_theory(ck):
    ck.rule = ('case = one executed projection function with one Hamiltonian component (or all) switched on, random '
               'complex tensors; reference = <p| h (sum_k S^k/k!) |0> evaluated as polynomial algebra')
    ck.assumptions = ['scope: projections of rank 0 and 1, and either Hamiltonian rank <= 2 or singles only: the '
                      'documented prefactor rule (x!/(m!n!)) is not the exact one outside it']
    specs = [(H, CC, S, 1) for H in (1, 2) for CC in range(1, 7) for S in range(1, 7)]
    specs += [(H, 1, S, P) for H in range(3, 7) for S in range(1, 7) for P in (1, 6)]
    specs = [s for s in specs if cost(*s) < (30000 if ck.thorough else 15000)]
    pmap(ck, theory_item, specs)


def cost(H, CC, S, P):
    """number of multisets of t operators the generator walks, times projections"""
    from math import comb
    return sum(comb(CC + k - 1, k) for k in range(1, S + 1)) * (min(P, CC) + 1) * (H + 1)


# ------------------------------------------------------------------------------- C08: convention
def expected_terms(H, CC, S, p):
    """yield (m, n, ((a,o), ...)) for every way h(m,n) and up to S amplitudes make projection p."""
    for m in range(0, min(H, p) + 1):
        for n in range(0, H - m + 1):
            if n == 0 and m == p:
                yield m, n, ()
            for k in range(1, S + 1):
                kinds = [(a, o) for r in range(1, CC + 1) for a in range(0, r + 1) for o in [r - a]
                         if a <= n and o <= p - m]
                yield from ((m, n, c) for c in multisets(kinds, k, n, p - m))


def multisets(kinds, k, A, O, start=0):
    if k == 0:
        if A == 0 and O == 0:
            yield ()
        return
    for i in range(start, len(kinds)):
        a, o = kinds[i]
        if a <= A and o <= O:
            for rest in multisets(kinds, k - 1, A - a, O - o, i):
                yield (kinds[i],) + rest


def group_of(ts, p):
    if any(a == 0 and o == p for a, o in ts):
        return 2
    if any(a == 0 for a, o in ts):
        return 1
    return 0


def term_value(h, t, m, n, ts, p):
    """the tensor of one multiset, all orderings of the (non-commuting) amplitudes, externals unsymmetrised"""
    ext, smm = list(LET[:p]), list('uvwxyz'[:n])
    hl = ''.join(ext[:m]) + ''.join(smm)
    e_at, s_at, labels = m, 0, []
    for a, o in ts:
        labels.append(''.join(smm[s_at:s_at + a]) + ''.join(ext[e_at:e_at + o]))
        s_at, e_at = s_at + a, e_at + o
    k = len(ts)
    out = 0
    for perm in it.permutations(range(k)):
        subs, ops, el = ['AB' + hl], [h[(m, n)]], 'BCDEFGHIJ'
        for pos, i in enumerate(perm):
            subs.append(el[pos:pos + 2] + labels[i])
            ops.append(t[(sum(ts[i]), 0)])
        out = out + contract(','.join(subs) + '->A' + el[k] + LET[:p], *ops)
    x = len({c for c in ts if c[0] > 0})
    pre = factorial(x) / (factorial(m) * factorial(n) * factorial(k))
    if k == 1:
        pre *= factorial(p)
    return pre * out


_cache = {}


def expected(seed, A, N, h, t, H, CC, S, p):
    """{(m, n): {(group, max t rank): value}}"""
    out = {}
    for m, n, ts in expected_terms(H, CC, S, p):
        key = (seed, A, N, m, n, ts, p)
        if key not in _cache:
            v = h[(m, n)] if not ts else term_value(h, t, m, n, ts, p)
            _cache[key] = sym_mean(v, 2)
        g = group_of(ts, p) if ts else 0
        rank = max([sum(c) for c in ts], default=0)
        d = out.setdefault((m, n), {})
        d[(g, rank)] = d.get((g, rank), 0) + _cache[key]
    return out


def conv_item(sub, spec):
    H, CC, S, P, mode = spec
    mod = load(sub, H, CC, S, P)
    if mod is None:
        return
    # surfaces and modes of different number tell the two apart in allocated and declared shapes
    for A, N in [(2, 2)] + ([(1, 3)] if mode == 'full' and cost(H, CC, S, P) < 1500 else []):
        conv_dims(sub, mod, H, CC, S, P, mode, A, N)
    sub.count('einsum_events', mod._rec.einsum)
    sub.count('distinct_contractions', len(mod._rec.distinct))


def conv_dims(sub, mod, H, CC, S, P, mode, A, N):
    tag = f'H{H} CC{CC} S{S} P{P}' + (f' A{A} N{N}' if (A, N) != (2, 2) else '')
    rec = mod._rec
    h, t = tensors(sub.seed, A, N, H, CC)
    snap = [{k: v.copy() for k, v in d.items()} for d in (h, t)]
    gs = Flags(ground_state=True)
    for p in range(0, min(P, CC) + 1):
        exp = expected(sub.seed, A, N, h, t, H, CC, S, p)
        zero = np.zeros((A, A) + (N,) * p, complex)
        if mode == 'flags':
            settings = [('all', hl, tl) for hl in range(0, H + 1) for tl in range(1, CC + 1)]
        else:
            settings = [(mn, 6, 6) for mn in h if A > 1] + [('all', 6, 6)]
        for mn, hl, tl in settings:
            hh = {k: (v if mn in (k, 'all') else v * 0) for k, v in h.items()}
            total, traces = zero, []
            for g, gname in enumerate(GROUPS):
                ref = zero
                for key, d in exp.items():
                    if mn in (key, 'all') and max(key) <= hl:
                        for (g2, r), v in d.items():
                            if g2 == g and r <= tl:
                                ref = ref + v
                    elif mn in (key, 'all') and max(key) > hl and mode == 'flags':
                        # a bare h term is added whatever the flags say (it costs nothing): documented by the code's shape
                        if g == 0 and (0, 0) in d:
                            ref = ref + d[(0, 0)]
                total = total + ref
                R = zero.copy()
                f = getattr(mod, f'add_m0_n{p}_{gname}_terms', None)
                if f is None:
                    sub.violation(f'missing:P{p}:{gname}', tag)
                    continue
                rec.trace = []
                try:
                    f(R, gs, flags(hl, tl), hh, t)
                except Exception as ex:
                    sub.violation(f'exec:P{p}:{gname}', f'{tag}: raised {excname(ex)}')
                    continue
                trace, rec.trace = rec.trace, None
                traces.append([s for s, _ in trace])
                Rs = sym_mean(R, 2)
                sub.case((H, CC, S, P, p, mn, hl, tl, gname, A, N), bool(np.any(ref)) or bool(trace),
                         {'trunc(H,CC,S,P)': (H, CC, S, P), 'p': p, 'h': mn, 'group': gname, 'einsums': len(trace)})
                if not close(Rs, ref):
                    lev = f':h<={hl}:t<={tl}' if mode == 'flags' else ''
                    sub.violation(f'value:P{p}:h{mn}:{gname}{lev}', f'{tag}: |diff|='
                                  f'{float(np.abs(Rs - ref).max()):.3g}', {'trunc': (H, CC, S, P)})
                if mn == 'all':
                    optimised(sub, mod, tag, p, gname, g, gs, flags(hl, tl), hh, t, A, N, R, trace)
            if mn == 'all':
                try:
                    R = mod.__dict__[f'compute_m0_n{p}_amplitude'](A, N, gs, flags(hl, tl), hh, t)
                    if not close(sym_mean(R, 2), total):
                        sub.violation(f'sum:P{p}', f'{tag}: residual is not the sum of its three groups')
                    paths = {(0, p): [[functools.partial(contract, s) for s in tr] for tr in traces]}
                    Ro = mod.__dict__[f'compute_m0_n{p}_amplitude_optimized'](A, N, gs, flags(hl, tl), hh, t, paths)
                    if not close(Ro, R):
                        sub.violation(f'optsum:P{p}', f'{tag}: the optimised amplitude differs from the default one')
                except Exception as ex:
                    sub.violation(f'exec:P{p}:sum', f'{tag}: raised {excname(ex)}')
    (empty_projections if mode == 'full' else refusals)(sub, mod, tag, H, CC, P, A, N, h, t)
    if any(set(a) != set(b) or any(not np.array_equal(a[k], b[k]) for k in a) for a, b in zip(snap, (h, t))):
        sub.violation('mutates', f'{tag}: generated code modified its inputs')


def projections(CC, P):
    return [(m, r - m) for r in range(min(P, CC) + 1) for m in range(r + 1)]


def empty_projections(sub, mod, tag, H, CC, P, A, N, h, t):
    """projections with annihilation operators: nothing in the ground state has quanta to annihilate"""
    gs, tr = Flags(ground_state=True), flags()
    for m, n in projections(CC, P):
        if m == 0:
            continue
        name = f'm{m}_n{n}'
        sub.case((tag, 'empty', m, n), False)
        try:
            for gname in GROUPS:
                for opt in ('', '_optimized'):
                    R = np.zeros((A, A) + (N,) * (m + n), complex)
                    mod.__dict__[f'add_{name}_{gname}_terms{opt}'](R, gs, tr, h, t, *(([],) if opt else ()))
                    if np.any(R):
                        sub.violation(f'empty:{name}:{gname}{opt}', f'{tag}: terms in a projection that has none')
                if len(mod.__dict__[f'compute_{name}_{gname}_optimized_paths'](A, N, gs, tr)):
                    sub.violation(f'empty:{name}:{gname}:paths', f'{tag}: contractions declared for a projection that has none')
            R = mod.__dict__[f'compute_{name}_amplitude'](A, N, gs, tr, h, t)
            if np.shape(R) != (A, A) + (N,) * (m + n) or np.any(R):
                sub.violation(f'empty:{name}', f'{tag}: shape {np.shape(R)}, non-zero elements {int(np.count_nonzero(R))}')
        except Exception as ex:
            sub.violation(f'exec:{name}', f'{tag}: raised {excname(ex)}')
    sub.count('empty_projections', sum(1 for m, _ in projections(CC, P) if m))


def refusals(sub, mod, tag, H, CC, P, A, N, h, t):
    """ground-state code: anything else is refused by every function; so is a truncation without singles"""
    hot, gs, tr = Flags(default=False), Flags(ground_state=True), flags()
    for m, n in projections(CC, P):
        name = f'm{m}_n{n}'
        R = np.zeros((A, A) + (N,) * (m + n), complex)
        none = {(m, n): [[], [], []]}
        calls = {f'compute_{name}_amplitude': (A, N, hot, tr, h, t),
                 f'compute_{name}_amplitude_optimized': (A, N, hot, tr, h, t, none),
                 f'compute_{name}_optimized_paths': (A, N, hot, tr)}
        for gname in GROUPS:
            calls[f'add_{name}_{gname}_terms'] = (R, hot, tr, h, t)
            calls[f'add_{name}_{gname}_terms_optimized'] = (R, hot, tr, h, t, [])
            calls[f'compute_{name}_{gname}_optimized_paths'] = (A, N, hot, tr)
        for fn, args in calls.items():
            sub.case((tag, 'hot', fn), True)
            try:
                mod.__dict__[fn](*args)
                sub.violation(f'hotband:{fn}', f'{tag}: a state other than the ground state was accepted')
            except NotImplementedError:
                sub.count('refusals')
            except Exception as ex:
                sub.violation(f'hotband:{fn}', f'{tag}: {excname(ex)}')
        for lev in (0, 1, 2, 6):
            fl = flags()
            fl.__dict__['_level'] = lev
            for opt in (False, True) if lev == 0 else (False,):
                fn = f'compute_{name}_amplitude' + ('_optimized' if opt else '')
                sub.case((tag, 'confirm', fn, lev), True)
                try:
                    mod.__dict__[fn](A, N, gs, fl, h, t, *((none,) if opt else ()))
                    refused = False
                except Refused:
                    refused = True
                except Exception as ex:
                    sub.violation(f'confirm:{fn}', f'{tag}: {excname(ex)}')
                    continue
                if refused != (lev == 0):
                    sub.violation(f'confirm:{fn}:level{lev}', f'{tag}: ' + ('refused' if refused else 'computed without singles'))


def optimised(sub, mod, tag, p, gname, g, gs, tr, h, t, A, N, R_std, trace):
    """the optimised function, handed one expression per contraction the standard one performed, must consume
    exactly those and agree; the shapes the path function declares must be those of the operands consumed."""
    used = []

    def expr(subs):
        def call(*ops):
            used.append(tuple(np.shape(o) for o in ops))
            return contract(subs, *ops)
        return call
    R = np.zeros_like(R_std)
    exprs = [expr(s) for s, _ in trace]
    try:
        mod.__dict__[f'add_m0_n{p}_{gname}_terms_optimized'](R, gs, tr, h, t, exprs)
    except Exception as ex:
        sub.violation(f'opt:P{p}:{gname}', f'{tag}: optimised variant raised {excname(ex)}')
        return
    if len(used) != len(trace) or not close(R, R_std):
        sub.violation(f'opt:P{p}:{gname}', f'{tag}: optimised variant used {len(used)} of {len(trace)} '
                      f'contractions, values differ by {float(np.abs(R - R_std).max()):.3g}')
    shapes = []
    oe = mod.__dict__.get('oe')
    old = oe.contract_expression
    oe.contract_expression = lambda *a, **k: shapes.append(tuple(tuple(s) for s in a if not isinstance(s, str)))
    try:
        got = mod.__dict__[f'compute_m0_n{p}_{gname}_optimized_paths'](A, N, gs, tr)
        both = mod.__dict__[f'compute_m0_n{p}_optimized_paths'](A, N, gs, tr)
        if len(both[(0, p)][g]) != len(got):
            sub.violation(f'paths:P{p}:{gname}', f'{tag}: grouped path list has a different length')
    except Exception as ex:
        sub.violation(f'paths:P{p}:{gname}', f'{tag}: path function raised {excname(ex)}')
        return
    finally:
        oe.contract_expression = old
    if len(got) != len(used) or shapes[:len(got)] != used:
        sub.violation(f'paths:P{p}:{gname}', f'{tag}: declared {len(got)} contraction shapes, '
                      f'the optimised function performs {len(used)}; first difference '
                      f'{next(((a, b) for a, b in zip(shapes, used) if a != b), None)}')
    sub.count('optimised_contractions', len(used))


def grid(ck, lim, extra):
    specs = [s for s in it.product(range(1, 7), range(1, 7), range(1, 7), range(1, 7))
             if cost(*s) < (lim if s[3] <= s[1] else 120)]     # P > CC: the projection is capped by the amplitudes
    if not ck.thorough:         # and a few from beyond the bound (up to two minutes each)
        specs += ck.rng.sample([s for s in it.product(range(1, 7), range(1, 7), range(1, 7), range(1, 7))
                                if s[3] <= s[1] and lim <= cost(*s) < 10600], extra)
    return specs


def check_convention(ck):
    ck.rule = ('case = one group function (fully connected / linked / unlinked) of one projection of one generated '
               'file with one h component (or all) on, random complex tensors; compared with an independent '
               'enumeration of contractions; non-trivial when a contraction was executed or expected')
    ck.assumptions = ['prefactor convention documented in the code: (1/k!) x!/(m! n!), x = distinct amplitudes '
                      'contracted with h; a lone amplitude is repeated once per permutation of the external labels',
                      'external labels are compared after symmetrisation']
    specs = grid(ck, 20000 if ck.thorough else 4000, 6)
    specs.sort(key=lambda s: -cost(*s))
    pmap(ck, conv_item, [s + ('full',) for s in specs])
    master_paths(ck)


def master_paths(ck):
    """the master path function feeds the optimised amplitude functions"""
    for spec in ((1, 1, 1, 1), (2, 2, 2, 2)):
        mod = load(ck, *spec)
        if mod is None:
            continue
        gs, tr = Flags(ground_state=True), flags()
        h, t = tensors(ck.seed, 2, 2, spec[0], spec[1])
        oe = mod.__dict__['oe']
        old = oe.contract_expression
        try:
            oe.contract_expression = lambda *a, **k: object()
            paths = mod.compute_all_optimized_paths(2, 2, gs, tr)
        except Exception as ex:
            ck.violation(f'master paths: compute_all_optimized_paths raises {type(ex).__name__}', f'{spec}: {excname(ex)}')
            paths = None
        finally:
            oe.contract_expression = old
        ck.case(('master', spec), True)
        if paths is None:
            paths = {}
            try:
                for p in range(spec[3] + 1):
                    paths.update(mod.__dict__[f'compute_m0_n{p}_optimized_paths'](2, 2, gs, tr))
            except ContractError as ex:
                ck.violation('paths: contract_expression is given operand shapes but no subscripts', excname(ex))
                continue
            except Exception as ex:
                ck.violation('paths', excname(ex))
                continue
        for p in range(spec[3] + 1):
            a = mod.__dict__[f'compute_m0_n{p}_amplitude'](2, 2, gs, tr, h, t)
            b = mod.__dict__[f'compute_m0_n{p}_amplitude_optimized'](2, 2, gs, tr, h, t, paths)
            if not close(a, b):
                ck.violation(f'optimised:P{p}', f'{spec}: differs from the default variant')


def check_flags(ck):
    ck.rule = ('case = one group function under one monotone (h level, t level) setting of the runtime flags; '
               'compared with the reference restricted to those levels')
    specs = grid(ck, 8000 if ck.thorough else 2500, 4)
    specs.sort(key=lambda s: -cost(*s))
    pmap(ck, conv_item, [s + ('flags',) for s in specs])
