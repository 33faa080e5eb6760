"""C-W: executed W-operator code equals the reference wave-operator expansion."""
import itertools as it
from math import factorial

import numpy as np

from vmon.harness import gen_file, excname
from vmon.loadgen import load_source, Flags
from vmon.tensor import compositions, mat_product, sym_rand, sym_sum, close

NAMES = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']


def trunc_flags(level):
    """Amplitudes up to `level` are active."""
    return Flags(default=False, **{n: (i + 1) <= level for i, n in enumerate(NAMES)})


ANS = {'VECI': Flags(default=False, VECI=True), 'VE_MIXED': Flags(default=False, VE_MIXED=True),
       'VECC': Flags(default=False, VECC=True)}


def ref_w(order, t, ansatz, A, N, active):
    """W_order = sym sum over ordered products t_{c1} t_{c2} ... / (len! prod c_i!)."""
    out = np.zeros((A, A) + (N,) * order, complex)
    let = 'ijklmnop'
    for c in compositions(order):
        if any(p not in active for p in c):
            continue
        big = sum(1 for p in c if p > 1)
        if len(c) > 1 and ansatz == 'VECI':
            continue
        if len(c) > 1 and ansatz == 'VE_MIXED' and big > 1:
            continue
        subs, pos, el = [], 0, 'abcdefgh'
        chain = ['a'] + list('cdefgh')[:len(c) - 1] + ['b']
        for k, p in enumerate(c):
            subs.append(chain[k] + chain[k + 1] + let[pos:pos + p])
            pos += p
        pre = factorial(len(c))
        for p in c:
            pre *= factorial(p)
        out += np.einsum(','.join(subs) + '->ab' + let[:order], *[t[p] for p in c]) / pre
    return sym_sum(out, 2)


def amplitudes(rng, A, N, top=6):
    return {n: sym_rand(rng, (A, A), N, n) for n in range(1, top + 1)}


def check(ck):
    ck.rule = ('case = (generated file order, W order, wave-operator ansatz, active amplitude level, '
               'default/optimised variant, A, N, masked amplitude set); non-trivial when the reference '
               'tensor is non-zero or the masked contribution must vanish')
    rng = np.random.default_rng(ck.seed)
    dims = [(2, 3), (3, 2)] if not ck.thorough else [(2, 3), (3, 2), (1, 3), (2, 2), (4, 1)]
    for max_order in range(1, 7):
        src, err = gen_file(ck, 'generate_w_operator_equations_file', max_order)
        if err is not None or src is None:
            ck.violation(f'gen:{max_order}', f'generator raised {excname(err)}')
            continue
        try:
            mod = load_source(src, 'w')
        except Exception as e:
            ck.violation(f'load:{max_order}', f'generated module cannot be executed: {excname(e)}')
            continue
        for (A, N) in dims:
            if N == 3 and max_order >= 6 and not ck.thorough:
                A, N = 1, 3
            t = amplitudes(rng, A, N)
            zero = {n: v * 0 for n, v in t.items()}
            for level in range(1, max_order + 1):
                tr = trunc_flags(level)
                for an in ANS:
                    one_file(ck, mod, max_order, A, N, t, zero, level, tr, an)
        ck.count('einsum_events', mod._rec.einsum)
        ck.count('optimised_contractions', mod._rec.expr_called)
        ck.count('distinct_contractions_in_file', len(mod._rec.distinct))


def one_file(ck, mod, max_order, A, N, t, zero, level, tr, an):
    active = set(range(1, level + 1))
    try:
        vemx = mod.compute_optimized_vemx_paths(A, N, tr)
        vecc = mod.compute_optimized_vecc_paths(A, N, tr)
    except Exception as e:
        ck.violation(f'paths:{max_order}:{level}', f'path computation raised {excname(e)}')
        vemx = vecc = None
    # full input + one-amplitude-removed inputs (localises a wrong term)
    masks = [()] + [(r,) for r in range(1, level + 1)]
    for mask in masks:
        ta = {n: (zero[n] if n in mask else t[n]) for n in t}
        t_args = tuple(ta[n] for n in range(1, 7))
        snapshot = [x.copy() for x in t_args]
        for order in range(1, max_order + 1):
            ref = ref_w(order, ta, an, A, N, active) if order > 1 else ta[1]
            for opt in (False, True):
                key = f'W{order}:{an}:level{level}:{"opt" if opt else "std"}'
                f = getattr(mod, f'_calculate_order_{order}_w_operator' + ('_optimized' if opt else ''), None)
                if f is None:
                    ck.violation(f'missing:{key}', f'no function for order {order} in file of order {max_order}')
                    continue
                if opt and vemx is None:
                    continue
                try:
                    if opt:
                        vc = vecc[order - 1]
                        R = f(A, N, t_args, ANS[an], tr, vemx[order - 1], vc)
                    else:
                        R = f(A, N, t_args, ANS[an], tr)
                except Exception as e:
                    ck.violation(f'exec:{key}', f'max_order={max_order} raised {excname(e)}')
                    continue
                ck.case((max_order, key, A, N, mask), bool(np.abs(ref).max() > 0) or bool(mask),
                        {'file_order': max_order, 'W_order': order, 'ansatz': an, 'level': level,
                         'optimised': opt, 'A': A, 'N': N, 'zeroed': mask})
                if R.shape != ref.shape or not close(R, ref):
                    d = float(np.abs(R - ref).max()) if R.shape == ref.shape else 'shape'
                    ck.violation(f'value:{key}', f'max_order={max_order} A={A} N={N} zeroed={mask}: |diff|={d}')
        if any(not np.array_equal(a, b) for a, b in zip(snapshot, t_args)):
            ck.violation(f'mutates:{max_order}:{an}:{level}', 'generated code modified its t amplitudes')
    # the public driver functions
    driver_limits(ck, mod, max_order, A, N, t, level, tr, an, vemx, vecc)
    if max_order >= min(6, max(3, level + 2)) and level <= 4:
        t_args = tuple(t[n] for n in range(1, 7))
        n_out = min(6, max(3, level + 2))
        for opt in (False, True):
            if opt and vemx is None:
                continue
            key = f'compute:{an}:level{level}:{"opt" if opt else "std"}'
            try:
                if opt:
                    vc = vecc
                    Ws = mod.compute_w_operators_optimized(A, N, t_args, ANS[an], tr, vemx, vc)
                else:
                    Ws = mod.compute_w_operators(A, N, t_args, ANS[an], tr)
            except Exception as e:
                ck.violation(f'exec:{key}', f'max_order={max_order} raised {excname(e)}')
                continue
            ck.case((max_order, key, A, N), True)
            if len(Ws) != 6:
                ck.violation(f'shape:{key}', f'{len(Ws)} W operators returned')
                continue
            for i, W in enumerate(Ws, 1):
                if i > n_out:
                    if W is not None:
                        ck.violation(f'gate:{key}:W{i}', 'operator beyond the truncation returned')
                    continue
                if W is None:
                    ck.violation(f'gate:{key}:W{i}', 'operator within the truncation missing')
                    continue
                ref = ref_w(i, t, an, A, N, active) if i > 1 else t[1]
                if W.shape != ref.shape or not close(W, ref):
                    ck.violation(f'value:{key}:W{i}', f'max_order={max_order} A={A} N={N}')


def driver_limits(ck, mod, max_order, A, N, t, level, tr, an, vemx, vecc):
    """beyond quadruples, or beyond what the file contains, the drivers refuse"""
    need = min(6, max(3, level + 2))
    if vemx is None or (level <= 4 and max_order >= need):
        return
    t_args = tuple(t[n] for n in range(1, 7))
    for opt in (False, True):
        key = f'compute:{an}:level{level}:{"opt" if opt else "std"}'
        ck.case((max_order, key, A, N, 'limit'), True)
        try:
            if opt:
                Ws = mod.compute_w_operators_optimized(A, N, t_args, ANS[an], tr, vemx, vecc)
            else:
                Ws = mod.compute_w_operators(A, N, t_args, ANS[an], tr)
        except NotImplementedError:
            continue
        except (NameError, IndexError) as e:
            # the driver is the same text whatever the order of the file
            if max_order < need and f"'_calculate_order_{max_order + 1}_w_operator{'_optimized' * opt}'" in str(e):
                ck.violation(f'driver: the file of maximum order {max_order} has a driver that asks for order {max_order + 1}',
                             f'{key}: {excname(e)}')
            else:
                ck.violation(f'exec:{key}', f'max_order={max_order} raised {excname(e)}')
            continue
        except Exception as e:
            ck.violation(f'exec:{key}', f'max_order={max_order} raised {excname(e)}')
            continue
        if level >= 5:
            ck.violation(f'limit:{key}', f'max_order={max_order}: returned {len(Ws)} operators for a level it does not support')
        for i, W in enumerate(Ws, 1):
            if W is not None:
                ref = ref_w(i, t, an, A, N, set(range(1, level + 1))) if i > 1 else t[1]
                if W.shape != ref.shape or not close(W, ref):
                    ck.violation(f'value:{key}:W{i}', f'max_order={max_order} A={A} N={N}')
