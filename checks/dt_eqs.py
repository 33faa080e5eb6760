"""Executed dt-amplitude code solves  dT_n = sym[ R_n - W_n eps/n! - (d/dtau of the disconnected part of W_n) ]."""
from math import factorial
import types

import numpy as np

from vmon.harness import gen_file, excname
from vmon.loadgen import load_source
from vmon.tensor import compositions, sym_rand, sym_sum, close
from checks.w_ops import ANS, NAMES, trunc_flags

LET = 'ijklmnop'


def disconnected(order, t, dt, ansatz, A, N):
    """Time derivative of all products of >= 2 amplitudes of total order `order` kept by the ansatz."""
    out = np.zeros((A, A) + (N,) * order, complex)
    if ansatz == 'VECI':
        return out
    for c in compositions(order):
        if len(c) < 2:
            continue
        if ansatz == 'VE_MIXED' and sum(1 for p in c if p > 1) > 1:
            continue
        chain = ['a'] + list('cdefgh')[:len(c) - 1] + ['b']
        subs, pos = [], 0
        for k, p in enumerate(c):
            subs.append(chain[k] + chain[k + 1] + LET[pos:pos + p])
            pos += p
        pre = factorial(len(c))
        for p in c:
            pre *= factorial(p)
        s = ','.join(subs) + '->ab' + LET[:order]
        for d in range(len(c)):
            out += np.einsum(s, *[(dt if k == d else t)[p] for k, p in enumerate(c)], optimize=True) / pre
    return out


class ResidualStub:
    """Stands in for the residual module; records who asked for what."""
    def __init__(self):
        self.R = {}
        self.calls = []

    def module(self):
        m = types.ModuleType('residual_stub')
        for n in range(0, 9):
            setattr(m, f'calculate_order_{n}_residual', self._fn(n))
        return m

    def _fn(self, n):
        def f(A, N, truncation, h_args, w_args):
            self.calls.append((n, h_args, w_args))
            return self.R[n].copy()
        return f


def check(ck):
    ck.rule = ('case = (file order, dt order, ansatz, default/optimised, entry point, A, N, which of '
               'residual / epsilon / t / dt components are switched off); non-trivial when the reference is non-zero')
    rng = np.random.default_rng(2000 + ck.seed)
    for max_order in range(1, 7):
        src, err = gen_file(ck, 'generate_dt_amplitude_equations_file', max_order)
        if err is not None or src is None:
            ck.violation(f'gen:{max_order}', f'generator raised {excname(err)}')
            continue
        stub = ResidualStub()
        try:
            mod = load_source(src, 'dt', residual=stub.module())
        except Exception as e:
            ck.violation(f'load:{max_order}', f'cannot execute: {excname(e)}')
            continue
        dims = [(2, 3), (3, 2)] if max_order <= 4 else [(2, 2), (1, 3)]
        if ck.thorough:
            dims = [(2, 3), (3, 2), (2, 2), (1, 3)] if max_order <= 5 else [(2, 2), (3, 2), (1, 3)]
        for A, N in dims:
            one(ck, mod, stub, max_order, A, N, rng)
        ck.count('einsum_events', mod._rec.einsum)
        ck.count('optimised_contractions', mod._rec.expr_called)


def one(ck, mod, stub, max_order, A, N, rng):
    t0 = {n: sym_rand(rng, (A, A), N, n) for n in range(1, 7)}
    d0 = {n: sym_rand(rng, (A, A), N, n) for n in range(1, 7)}
    w = {n: sym_rand(rng, (A, A), N, n) for n in range(1, 9 if max_order > 4 else 7)}
    w_args = tuple(w[n] for n in sorted(w)) if max_order <= 4 else tuple(w[n] if n <= 6 else None for n in sorted(w))
    eps = sym_rand(rng, (A, A), N, 0)
    stub.R = {n: rng.standard_normal((A, A) + (N,) * n) + 1j * rng.standard_normal((A, A) + (N,) * n)
              for n in range(0, 7)}
    h_args = tuple(object() for _ in range(6))
    for level in range(1, max_order + 1):
        tr = trunc_flags(level)
        try:
            paths = mod.compute_optimized_paths(A, N, tr)
        except Exception as e:
            ck.violation(f'paths:{max_order}:{level}', f'raised {excname(e)}')
            paths = None
        for order in range(1, level + 1):
            # component masks: everything, then one t or one dt amplitude removed
            masks = [((), ())] + [((r,), ()) for r in range(1, order)] + [((), (r,)) for r in range(1, order)]
            if order >= 5 and level < max_order and not ck.thorough and (A, N) != (2, 2):
                masks = masks[:1]
            for tm, dm in masks:
                t = {n: v * 0 if n in tm else v for n, v in t0.items()}
                d = {n: v * 0 if n in dm else v for n, v in d0.items()}
                for an in ANS:
                    ref = stub.R[order] - np.einsum('ac...,cb->ab...', w[order], eps) / factorial(order)
                    ref = sym_sum(ref - disconnected(order, t, d, an, A, N), 2)
                    run_case(ck, mod, stub, max_order, level, order, A, N, an, tr, eps, h_args, t, d,
                             w, w_args, paths, ref, tm, dm)


def run_case(ck, mod, stub, max_order, level, order, A, N, an, tr, eps, h_args, t, d, w, w_args, paths, ref, tm, dm):
    t_args = tuple(t[n] for n in range(1, 7))
    d_args = tuple(d[n] for n in range(1, 7))
    snap = [x.copy() for x in t_args + d_args + (eps, w[order])]
    for opt in (False, True):
        if opt and paths is None:
            continue
        key = f'dT{order}:{an}:{"opt" if opt else "std"}'
        name = f'solve_{NAMES[order - 1]}_equations' + ('_optimized' if opt else '')
        f = getattr(mod, name, None)
        if f is None:
            ck.violation(f'missing:{name}', f'file of order {max_order}')
            continue
        stub.calls.clear()
        try:
            args = (A, N, ANS[an], tr, eps, h_args, t_args, d_args, w_args)
            R = f(*args, paths) if opt else f(*args)
        except Exception as e:
            ck.violation(f'exec:{key}', f'max_order={max_order} level={level} raised {excname(e)}')
            continue
        ck.case((max_order, level, key, A, N, tm, dm), True,
                {'file_order': max_order, 'dt_order': order, 'ansatz': an, 'optimised': opt, 'A': A, 'N': N,
                 'zeroed_t': tm, 'zeroed_dt': dm})
        if R.shape != ref.shape or not close(R, ref):
            ck.violation(f'value:{key}', f'max_order={max_order} level={level} A={A} N={N} zeroed t{tm} dt{dm}: '
                         f'|diff|={float(np.abs(R - ref).max()) if R.shape == ref.shape else R.shape}')
        if [c[0] for c in stub.calls] != [order] or stub.calls[0][1] is not h_args or \
                any(a is not b for a, b in zip(stub.calls[0][2], w_args)):
            ck.violation(f'residual-use:{key}', f'residual calls {[c[0] for c in stub.calls]}')
        # an amplitude above the truncation must be refused
        low = trunc_flags(order - 1)
        try:
            (f(A, N, ANS[an], low, eps, h_args, t_args, d_args, w_args, paths) if opt
             else f(A, N, ANS[an], low, eps, h_args, t_args, d_args, w_args))
            ck.violation(f'gate:{key}', 'equation beyond the truncation was solved')
        except Exception:
            pass
    if any(not np.array_equal(a, b) for a, b in zip(snap, t_args + d_args + (eps, w[order]))):
        ck.violation(f'mutates:dT{order}:{an}', 'generated code modified its inputs')
