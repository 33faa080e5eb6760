"""The generated W, residual and dt modules fit together: the chained derivatives make W obey its equation of motion (C19)."""
import itertools as it
from math import factorial

import numpy as np

from checks.residual import H_KEYS
from checks.w_ops import ANS, NAMES, trunc_flags
from vmon.harness import excname, gen_file, pmap
from vmon.loadgen import load_source
from vmon.tensor import close, sym_rand, sym_sum

DRIVER = 4         # the W driver supplies operators for amplitude levels up to quadruples


STEPS = (-3, -2, -1, 0, 1, 2, 3)


class Missing(Exception):
    pass


def modules(sub, w_order, r_order, rank, d_order):
    out = []
    for f, args, name in (('generate_residual_equations_file', (r_order, rank), 'residual_equations'),
                          ('generate_w_operator_equations_file', (w_order,), 'w'),
                          ('generate_dt_amplitude_equations_file', (d_order,), 'dt')):
        src, err = gen_file(sub, f, *args)
        if err is not None or src is None:
            raise Missing(f'{f}{args}: {excname(err) if err else "no file"}')
        out.append(load_source(src, name, residual=out[0] if name == 'dt' else None))
    return out


def stencil(f, deg):
    """derivative at 0 of a polynomial of degree <= deg with values f(s), exact"""
    pts = STEPS
    V = np.array([[float(p) ** j for j in range(len(pts))] for p in pts])
    c = np.linalg.solve(V.T, np.eye(len(pts))[1])
    assert deg < len(pts)
    return sum(ck * f(p) for ck, p in zip(c, pts))


def item(sub, spec):
    w_order, r_order, rank, d_order, A, N, seed = spec
    rng = np.random.default_rng(seed)
    tag = f'W file {w_order}, residual file {r_order} (h rank {rank}), dt file {d_order}, A={A} N={N}'
    try:
        res, wm, dm = modules(sub, w_order, r_order, rank, d_order)
    except Exception as e:
        sub.violation('load', f'{tag}: {excname(e)}')
        return
    h = tuple(sym_rand(rng, (A, A), N, sum(mn)) for mn in H_KEYS)
    full = {n: sym_rand(rng, (A, A), N, n) for n in range(1, 7)}
    for level in range(1, min(6, r_order, d_order) + 1):
        if min(6, max(3, level + 2)) > w_order:      # the W file has to reach two orders beyond the level
            continue
        for quadratic in (True, False):
            tr = trunc_flags(level)
            tr.quadratic = quadratic
            tr.cc_truncation_order = 'monitor'
            t = tuple(full[n] if n <= level else None for n in range(1, 7))
            for an, opt in it.product(ANS, (False, True)):
                chain(sub, f'{tag}, level {level}, {an}, {"optimised" if opt else "default"}, quadratic {quadratic}',
                      (spec[:4], level, an, opt, quadratic), res, wm, dm, level, tr, an, opt, A, N, h, t)
    for m in (res, wm, dm):
        sub.count('einsum_events', m._rec.einsum)


def chain(sub, tag, key, res, wm, dm, level, tr, an, opt, A, N, h, t):
    def W(tt):
        if level > DRIVER:
            if not opt:
                return tuple(getattr(wm, f'_calculate_order_{n}_w_operator')(A, N, tt, ANS[an], tr) for n in range(1, 7))
            vemx, vecc = wm.compute_optimized_vemx_paths(A, N, tr), wm.compute_optimized_vecc_paths(A, N, tr)
            return tuple(getattr(wm, f'_calculate_order_{n}_w_operator_optimized')(A, N, tt, ANS[an], tr, vemx[n - 1], vecc[n - 1])
                         for n in range(1, 7))
        if opt:
            return wm.compute_w_operators_optimized(A, N, tt, ANS[an], tr, wm.compute_optimized_vemx_paths(A, N, tr),
                                                    wm.compute_optimized_vecc_paths(A, N, tr))
        return wm.compute_w_operators(A, N, tt, ANS[an], tr)
    step = 'W operators'
    try:
        w = W(t) + (None, None)
        step = 'residual of order 0'
        eps = res.calculate_order_0_residual(A, N, tr, h, w)
        dts = []
        for n in range(1, level + 1):
            step = f'derivative of order {n}'
            f = getattr(dm, f'solve_{NAMES[n - 1]}_equations' + ('_optimized' if opt else ''))
            args = (A, N, ANS[an], tr, eps, h, t, tuple(dts) + (None,) * (6 - len(dts)), w)
            dts.append(f(*args, dm.compute_optimized_paths(A, N, tr)) if opt else f(*args))
        step = 'W operators along the derivative'
        move = [W(tuple(t[n] + s * dts[n] if n < level else None for n in range(6))) for s in STEPS]
    except Exception as e:
        sub.case(key, True)
        sub.violation(f'chain:{an}:{"opt" if opt else "std"}', f'{tag}: {step}: {excname(e)}')
        return
    for n in range(1, level + 1):
        dw = stencil(lambda s: move[s + 3][n - 1], n)
        R = getattr(res, f'calculate_order_{n}_residual')(A, N, tr, h, w)
        rhs = sym_sum(R - np.einsum('ac...,cb->ab...', w[n - 1], eps) / factorial(n), 2)
        sub.case(key + (n,), True, {'files(W,R,h,dt)': key[0], 'level': level, 'ansatz': an, 'optimised': opt, 'order': n})
        if dw.shape != rhs.shape or np.abs(dw - rhs).max() > 1e-8 * max(1, np.abs(rhs).max(), *(np.abs(m[n - 1]).max() for m in move)):
            sub.violation(f'motion:{n}:{an}:{"opt" if opt else "std"}',
                          f'{tag}: dW_{n}/dtau differs from the residual by {float(np.abs(dw - rhs).max()):.3g}')


def check(ck):
    ck.rule = ('case = (maximum orders of the three generated files, Hamiltonian rank, amplitude level, ansatz, variant, '
               'quadratic flag, order n): the modules are chained and the equation of motion of W_n is evaluated')
    ck.assumptions = ['above quadruples, where the W driver stops, the operators come from the per-order functions of the W file']
    specs = []
    dims = [(2, 2), (1, 3), (3, 2)]
    for k, (w_order, r_order, rank, d_order) in enumerate(it.product((3, 4, 5, 6), range(1, 7), (0, 1, 2), range(1, 7))):
        if not ck.thorough and k % 2 != ck.seed % 2 and not (w_order == 6 and r_order in (4, 6) and d_order in (4, 6)):
            continue
        for A, N in (dims if ck.thorough else [dims[k % 3]]):
            specs.append((w_order, r_order, rank, d_order, A, N, 7000 + ck.seed * 1000 + k))
    pmap(ck, item, specs)
