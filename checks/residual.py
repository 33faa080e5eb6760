"""Executed residual code equals <n| H W |0> computed by the operator-algebra reference."""
import numpy as np

from vmon.harness import gen_file, excname
from vmon.loadgen import load_source, Flags
from vmon.tensor import apply_h, close, sym_mean, sym_rand, sym_sum

H_KEYS = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)]     # (creation, annihilation), h_args order
NAMES = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']


def flags(level, quadratic=True):
    return Flags(default=False, quadratic=quadratic, cc_truncation_order='monitor',
                 **{n: (i + 1) <= level for i, n in enumerate(NAMES)})


def h_tensors(rng, A, N):
    """h with axes (a, b, vib...).  For (1,1) the generated code and the reference are fed one tensor
    symmetric in its two vibrational axes, so no axis-order convention is assumed."""
    return {mn: sym_rand(rng, (A, A), N, sum(mn)) for mn in H_KEYS}


def reference(order, mn, k, h, w, A, N):
    """contribution of h^{m}_{n} acting on w_k to the order-th residual (None: must be absent)."""
    m, n = mn
    if k - n + m != order or order < m or k < n:
        return None
    return apply_h(h[mn], m, n, w[k], order)


def check(ck):
    ck.rule = ('case = (max order, Hamiltonian rank, residual order, single active (h component, W order) '
               'pair or full sum, which W operators are None, quadratic flag, A, N); non-trivial when the '
               'reference is non-zero or the pair must not contribute')
    rng = np.random.default_rng(1000 + ck.seed)
    for rank in (0, 1, 2):
        for max_order in range(0, 7):
            src, err = gen_file(ck, 'generate_residual_equations_file', max_order, rank)
            if err is not None or src is None:
                ck.violation(f'gen:{max_order}:{rank}', f'generator raised {excname(err)}')
                continue
            try:
                mod = load_source(src, 'residual')
            except Exception as e:
                ck.violation(f'load:{max_order}:{rank}', f'cannot execute: {excname(e)}')
                continue
            orders = range(max_order + 1)
            for order in orders:
                dims = [(2, 2)] if order >= 4 else [(2, 3), (3, 2)]
                if order == 4:
                    dims = [(2, 2), (1, 3)]
                if ck.thorough and order >= 5:
                    dims = [(2, 2), (3, 2), (1, 2)]
                for A, N in dims:
                    one(ck, mod, rank, max_order, order, A, N, rng)
            ck.count('einsum_events', mod._rec.einsum)


def classify(order, rank, has_h20, ww, quad, R, expected, part):
    """Name the one mechanism that is a listed finding: exactly the h(2,0) term is dropped, and only
    because the W operator of order n+2 was supplied with the quadratic flag on."""
    if has_h20 and quad and rank == 2 and part is not None and ww[order + 2] is not None \
            and close(R, expected - part):
        return f'R{order}:h(2,0)-term dropped because w{order + 2} is given'
    return None


def one(ck, mod, rank, max_order, order, A, N, rng):
    f = getattr(mod, f'calculate_order_{order}_residual', None)
    if f is None:
        ck.violation(f'missing:R{order}:rank{rank}', f'no residual function in file max_order={max_order}')
        return
    top = order + 2
    h = h_tensors(rng, A, N)
    w = {k: sym_rand(rng, (A, A), N, k) for k in range(1, top + 1)}
    wfull = {0: np.eye(A, dtype=complex), **w}
    hz = {k: v * 0 for k, v in h.items()}
    wz = {k: v * 0 for k, v in w.items()}
    tr = flags(max(1, order))
    snap = [x.copy() for x in (*h.values(), *w.values())]
    supported = {mn for mn in H_KEYS if sum(mn) <= rank}

    def call(hh, ww, t=tr, key=''):
        try:
            R = f(A, N, t, tuple(hh[k] for k in H_KEYS), tuple(ww[k] for k in range(1, top + 1)) + (None,))
        except Exception as e:
            ck.violation(f'exec:{key}', f'max_order={max_order} raised {excname(e)}')
            return None
        if R.shape != (A, A) + (N,) * order:
            ck.violation(f'shape:{key}', f'{R.shape}')
            return None
        return sym_sum(R, 2)

    zero = np.zeros((A, A) + (N,) * order, complex)

    def h20(k, ww):
        """the h(2,0) . w_{order-2} part of the expected value for this call"""
        j = order - 2
        if j < 0 or (j > 0 and (ww[j] is None or not np.any(ww[j]))):
            return None
        return reference(order, (2, 0), j, h, wfull, A, N)

    # ---- isolated pairs; all W present / all absent except the probed one
    for mn in H_KEYS:
        for k in range(0, top + 1):
            ref = reference(order, mn, k, h, wfull, A, N) if mn in supported else None
            ref = zero if ref is None else ref
            for others in ('zero', 'none'):
                if k == 0:
                    ww = {i: (wz[i] if others == 'zero' else None) for i in w}
                else:
                    ww = {i: (w[i] if i == k else (wz[i] if others == 'zero' else None)) for i in w}
                if ww[1] is None:
                    ww[1] = wz[1]       # singles are always present
                # k==0 probes the disconnected |0> part; for k>0 remove it by difference
                key = f'R{order}:h{mn}:w{k}:others_{others}'
                R = call({i: (h[i] if i == mn else hz[i]) for i in h}, ww, key=key)
                if R is None:
                    continue
                base = zero
                if k > 0 and mn in supported:
                    b = reference(order, mn, 0, h, wfull, A, N)
                    base = zero if b is None else b
                ck.case((rank, max_order, key, A, N), True,
                        {'residual': order, 'h(m,n)': mn, 'W': k, 'other_W': others, 'A': A, 'N': N})
                if not close(R, ref + base):
                    ck.violation(classify(order, rank, mn == (2, 0), ww, True, R, ref + base, h20(k, ww)) or
                                 f'value:rank{rank}:{key}', f'max_order={max_order} A={A} N={N} '
                                 f'|diff|={float(np.abs(R - ref - base).max()):.3g}')
    # ---- the full sum, all W present, and with the tail of W operators absent
    for cut in range(0, top):
        ww = {i: (w[i] if i <= top - cut else None) for i in w}
        if ww[1] is None:
            continue
        for quad in (True, False):
            key = f'R{order}:full:cut{cut}:quad{int(quad)}'
            R = call(h, ww, t=flags(max(1, order), quad), key=key)
            if R is None:
                continue
            tot = zero.copy()
            for mn in supported:
                if not quad and mn in ((0, 2), (2, 0)):
                    continue
                for k in range(0, top - cut + 1):
                    ref = reference(order, mn, k, h, wfull, A, N)
                    if ref is not None:
                        tot += ref
            ck.case((rank, max_order, key, A, N), True)
            if not close(R, tot):
                ck.violation(classify(order, rank, True, ww, quad, R, tot, h20(order - 2, ww)) or
                             f'value:rank{rank}:{key}', f'max_order={max_order} A={A} N={N} '
                             f'|diff|={float(np.abs(R - tot).max()):.3g}')
    if any(not np.array_equal(a, b) for a, b in zip(snap, (*h.values(), *w.values()))) or any(np.any(v) for v in (*hz.values(), *wz.values())):
        ck.violation(f'mutates:R{order}', 'generated code modified its inputs')
    # ---- truncation too low must be refused
    if order >= 1:
        low = flags(max(1, order) - 1)
        try:
            f(A, N, low, tuple(h[k] for k in H_KEYS), tuple(w[k] for k in range(1, top + 1)))
            ck.violation(f'gate:R{order}', 'residual of an order beyond the amplitude truncation was computed')
        except AssertionError:
            ck.case((rank, max_order, 'gate', order), True)
        except Exception as e:
            ck.violation(f'gate:R{order}', f'raised {excname(e)}')
