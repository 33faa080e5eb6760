"""The emitted symmetrize_tensor and the partition helpers against independent definitions (C23)."""
import itertools as it
import math

import numpy as np

from vmon.harness import excname
from vmon.tensor import close


def exec_symmetrizer(src):
    ns = {'np': np, 'numpy': np, 'it': it, 'itertools': it, 'math': math}
    exec(compile(src, '<symmetrize>', 'exec'), ns)
    return ns['symmetrize_tensor']


def want_sym(t, order):
    """Sum over all permutations of the mode axes (2, 3, ...), by explicit indexing of the elements."""
    if order < 2:
        return t
    out = np.zeros(t.shape, dtype=complex)
    for idx in np.ndindex(*t.shape):
        out[idx] = sum(t[idx[:2] + q] for q in it.permutations(idx[2:]))
    return out


def partitions(n, top=None):
    """Partitions of n, largest part first, by bounded recursion on the largest part."""
    top = n if top is None else top
    if n == 0:
        yield ()
    for x in range(min(n, top), 0, -1):
        for rest in partitions(n - x, x):
            yield (x,) + rest


def tensors(rng, order, thorough):
    """Random tensors of this order: real and complex, several dimensions, non-contiguous, with repeated axes."""
    dims = {0: (1, 2, 3), 1: (1, 2, 4), 2: (1, 2, 4), 3: (1, 2, 3), 4: (1, 2, 3), 5: (1, 2), 6: (1, 2)}[order]
    for A, N in it.product((1, 2, 3) if thorough or order < 5 else (1, 2), dims):
        shape = (A, A) + (N,) * order
        for kind in ('real', 'complex', 'view', 'unit', 'inf free of cancellation'):
            t = rng.standard_normal(shape)
            if kind == 'complex':
                t = t + 1j * rng.standard_normal(shape)
            elif kind == 'view':        # a Fortran ordered, read-only view
                t = np.asfortranarray(t)
                t.setflags(write=False)
            elif kind == 'unit':        # one element: each permutation shows separately
                t = np.zeros(shape)
                t[tuple(rng.integers(0, s) for s in shape)] = 1.0
            elif kind != 'real':
                t = np.round(t * 1e3) * 2.0 ** 40
            yield (A, N, kind), t


def check_symmetrizer(ck, hf):
    rng = np.random.default_rng(ck.seed)
    tops = (0, 1, 2, 3, 4, 5, 6) if not ck.thorough else (0, 1, 2, 3, 4, 5, 6, 7)
    for top in tops + (None,):
        try:
            src = hf.build_symmetrizing_function() if top is None else hf.build_symmetrizing_function(max_order=top)
            f = exec_symmetrizer(src)
        except Exception as e:
            ck.violation('sym:build', f'max_order={top}: {excname(e)}')
            continue
        ck.count('symmetrizers built')
        # orders 0 and 1 need no symmetrization whatever the bound; the default bound is 5
        for order in range(0, min(max(5 if top is None else top, 1), 6) + 1):
            for (A, N, kind), t in tensors(rng, order, ck.thorough):
                if order == 6 and N > 1 and A > 1 and not ck.thorough:
                    continue
                before = t.copy()
                try:
                    R = f(t, order)
                except Exception as e:
                    ck.violation(f'sym:exec:{order}', f'max_order={top} order={order} {kind} A={A} N={N}: {excname(e)}')
                    continue
                W = want_sym(before, order)
                if np.shape(R) != W.shape or not close(R, W):
                    ck.violation(f'sym:value:{order}', f'max_order={top} order={order} {kind} A={A} N={N}: not the sum over all permutations')
                if not np.array_equal(t, before):
                    ck.violation('sym:input', f'max_order={top} order={order}: the input tensor was changed')
                ck.count('symmetrizations compared')
                ck.case(('sym', top, order, A, N, kind), True, {'max_order': top, 'order': order, 'A': A, 'N': N, 'tensor': kind})


def check_partitions(ck, hf):
    top = 24 if ck.thorough else 17

    def compare(name, n, want, norm=lambda x: sorted(map(tuple, x))):
        try:
            got = norm(getattr(hf, name)(n))
        except Exception as e:
            ck.violation(f'part:exec:{name}', f'n={n}: {excname(e)}')
            return
        ck.count('partition lists compared')
        ck.case((name, n), True, {'helper': name, 'n': n, 'partitions': len(want)})
        if got != sorted(want):
            lost = [p for p in want if p not in got][:3]
            extra = [p for p in got if p not in want][:3]
            ck.violation(f'part:value:{name}', f'n={n}: missing {lost}, extra {extra}, {len(got)} of {len(want)}')

    # the repeated calls at the end, in another order, show state kept between calls
    for n in list(range(1, top + 1)) + [5, 3, 4, 2, 1, 6, 9]:
        P = list(partitions(n))
        mixed = [p for p in P if sum(x > 1 for x in p) <= 1]
        compare('generate_partitions_of_n', n, P)
        if n <= top - 3:
            compare('generate_mixed_partitions_of_n', n, mixed)
            compare('generate_linked_disconnected_partitions_of_n', n, [p for p in mixed if p != (n,)])
            compare('generate_un_linked_disconnected_partitions_of_n', n, [p for p in P if p not in mixed])
        compare('genereate_connected_partitions_of_n', n, [(1,) * n], norm=lambda x: [tuple(x)])


def check_permutations(ck, hf):
    rng = ck.rng
    cases = [()] + [tuple(range(n)) for n in range(1, 7 if ck.thorough else 6)] + [(0,) * 4, ('a', 'a', 'b'), ((1, 2), (1, 2), (0, 3))]
    cases += [tuple(rng.randint(0, rng.randint(0, 5)) for _ in range(rng.randint(1, 6))) for _ in range(150)]
    for c in cases:
        for shape in (tuple, list, iter):
            try:
                got = hf.unique_permutations(shape(c))
            except Exception as e:
                ck.violation('perm:exec', f'{c}: {excname(e)}')
                continue
            want = sorted(set(it.permutations(c)))
            ck.case(('perm', c), len(c) > 1, {'permutations of': c, 'distinct': len(want)})
            ck.count('permutation lists compared')
            if list(got) != want:
                ck.violation('perm:value', f'{c}: {len(got)} of {len(want)}, or not in order')


def check(ck):
    from vmon.harness import repo_modules
    repo_modules()
    import helper_funcs as hf
    ck.rule = ('a case is (bound, order, dimensions, tensor kind) for the emitted symmetrizer, (helper, n) for the partition helpers, '
               'the multiset for the permutation helper; all count except permutations of fewer than two items')
    check_symmetrizer(ck, hf)
    check_partitions(ck, hf)
    check_permutations(ck, hf)
    ck.exhaustive = None
    ck.assumptions = ['orders above max_order are not claimed (the emitted function returns zeros for them)',
                      'partitions of 0 are not claimed']
