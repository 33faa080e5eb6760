"""Reference algebra used by the numeric oracles.

Bosonic creation operators are represented by commuting formal variables x_i and
annihilation operators by d/dx_i.  A "polynomial" is a dict {degree n: tensor whose last n
axes are symmetric}, standing for sum_n T_n x^n / n!.  None of this code looks at, imports
or was derived from the generators' own term enumeration.
"""
import itertools as it
from math import factorial

import numpy as np

LET = 'ijklmnopqrst'
SUM = 'uvwxyzUVWXYZ'


_plans = {}


def _plan(subs, shapes):
    """left-to-right pairwise plan for a contraction, or None when numpy should decide (and complain)."""
    key = (subs, shapes)
    if key not in _plans:
        _plans[key] = None
        text = subs.replace(' ', '')
        if text.count('->') == 1 and '.' not in text:
            left, out = text.split('->')
            ins = left.split(',')
            dims = {}
            ok = len(ins) == len(shapes) and all(len(i) == len(s) for i, s in zip(ins, shapes))
            if ok:
                for i, s in zip(ins, shapes):
                    for c, d in zip(i, s):
                        ok = ok and dims.setdefault(c, d) == d and c.isalpha()
            if ok and len(set(out)) == len(out) and set(out) <= set(dims):
                steps, cur = [], ins[0]
                for j in range(1, len(ins)):
                    if j == len(ins) - 1:
                        nxt = out
                    else:
                        later = set(out).union(*ins[j + 1:])
                        nxt = ''.join(c for c in dict.fromkeys(cur + ins[j]) if c in later)
                    steps.append(f'{cur},{ins[j]}->{nxt}')
                    cur = nxt
                _plans[key] = (steps, tuple(dims[c] for c in out))
    return _plans[key]


def contract(subs, *ops):
    """numpy.einsum, evaluated pairwise left to right; a vanishing operand short-circuits."""
    ops = [np.asarray(o) for o in ops]
    plan = _plan(subs, tuple(o.shape for o in ops))
    if plan is None:
        return np.einsum(subs, *ops)
    steps, shape = plan
    if not all(o.any() for o in ops):
        return np.zeros(shape, complex)
    if len(ops) < 3:
        return np.einsum(subs, *ops)
    cur = ops[0]
    for st, o in zip(steps, ops[1:]):
        cur = np.einsum(st, cur, o)
    return cur


def sym_sum(T, k):
    """Sum over all permutations of every axis after the first k."""
    n = T.ndim - k
    if n < 2:
        return T
    out = np.zeros_like(T)
    for perm in it.permutations(range(n)):
        out = out + np.transpose(T, tuple(range(k)) + tuple(k + p for p in perm))
    return out


def sym_mean(T, k):
    return sym_sum(T, k) / factorial(T.ndim - k)


def sym_rand(rng, lead, N, n):
    """Random complex tensor, symmetric in its last n axes (dimension N)."""
    shape = tuple(lead) + (N,) * n
    T = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    return sym_mean(T, len(lead))


def mat_product(f, g, max_n, A, N):
    """Polynomial product, electronic matrices multiplied in order: (f g)(x)."""
    out = {}
    for n in range(max_n + 1):
        acc = np.zeros((A, A) + (N,) * n, complex)
        for k in range(n + 1):
            if k not in f or (n - k) not in g:
                continue
            for S in it.combinations(range(n), k):
                Sc = [d for d in range(n) if d not in S]
                acc += np.einsum(
                    f"ac{''.join(LET[s] for s in S)},cb{''.join(LET[s] for s in Sc)}->ab{LET[:n]}",
                    f[k], g[n - k])
        out[n] = acc
    return out


def apply_h(h, m, n, W_D, P):
    """P-th derivative at 0 of  x^m/m! h d^n/n! [ W_D x^D/D! ],  D = n + P - m.

    h has axes (a, c, m creation, n annihilation); W_D has axes (c, [b,] D).
    Returns None when the degrees do not match.
    """
    lead = 'b' if _lead(W_D, n + P - m) == 2 else ''
    D = n + P - m
    if P < m or D < n:
        return None
    K = SUM[:n]
    out = 0
    for S in it.combinations(range(P), m):
        Sc = [d for d in range(P) if d not in S]
        out = out + np.einsum(
            f"ac{''.join(LET[s] for s in S)}{K},c{lead}{K}{''.join(LET[s] for s in Sc)}->a{lead}{LET[:P]}",
            h, W_D) / factorial(n)
    return out


def _lead(T, D):
    return T.ndim - D


def close(x, y, rtol=1e-9):
    """Relative comparison scaled by the larger magnitude (and an absolute floor)."""
    scale = max(1.0, float(np.abs(y).max()) if np.size(y) else 0.0,
                float(np.abs(x).max()) if np.size(x) else 0.0)
    return bool(np.all(np.isfinite(x))) and float(np.abs(x - y).max() if np.size(x) else 0.0) <= rtol * scale


def compositions(n):
    """All ordered tuples of positive integers summing to n."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest
