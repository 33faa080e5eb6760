"""Executed e^T.H.Z code (and its left-hand side) equals the operator-algebra reference."""
import itertools as it
from math import factorial

import numpy as np

from vmon import harness
from vmon.harness import excname, generate, pmap
from vmon.loadgen import Flags, Refused, load_source
from vmon.tensor import LET, SUM, close, sym_rand, sym_sum

TAGS = ['', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic']
DIMS = [(2, 3), (3, 2)]


def in_model(m, n):
    """Hamiltonian blocks the vibronic model keeps: total rank below 3, or annihilation only."""
    return m + n < 3 or m == 0


class Model:
    """Random tensors plus cached reference contributions  G[side][m,n,r][P,k]."""
    def __init__(self, A, N, seed):
        rng = np.random.default_rng([seed, A, N])
        self.A, self.N = A, N
        self.hk = [(m, n) for m in range(7) for n in range(7 - m) if in_model(m, n)]
        self.h = {k: sym_rand(rng, (A, A), N, sum(k)) for k in self.hk}
        self.z = {r: sym_rand(rng, (A,), N, r) for r in range(7)}
        self.dz = {r: sym_rand(rng, (A,), N, r) for r in range(7)}
        self.dT = {m: sym_rand(rng, (), N, m) for m in range(7)}
        self.t = sym_rand(rng, (), N, 1)
        self.cache = {}

    def block(self, side, m, n, r):
        """degree D=m+r-n coefficient tensor of  x^m/m! h d^n/n! z_r x^r/r!  (or dT_m z_r / dz_r)."""
        key = (side, m, n, r)
        if key in self.cache:
            return self.cache[key]
        D = m + r - n
        if side == 'dz':
            out = self.dz[r]
        else:
            K = SUM[:n]
            out = 0
            for S in it.combinations(range(D), m):
                Sc = ''.join(LET[d] for d in range(D) if d not in S)
                S_ = ''.join(LET[s] for s in S)
                if side == 'RHS':
                    out = out + np.einsum(f'ac{S_}{K},c{K}{Sc}->a{LET[:D]}', self.h[(m, n)], self.z[r])
                else:
                    out = out + np.einsum(f'{S_},c{Sc}->c{LET[:D]}', self.dT[m], self.z[r])
            out = out / factorial(n)
        self.cache[key] = out
        return out

    def contribution(self, side, m, n, r, P, k):
        """k amplitudes t contracted into the block, P free indices, divided by k!."""
        key = (side, m, n, r, 't', k)
        if key not in self.cache:
            out = self.block(side, m, n, r)
            for _ in range(k):
                out = np.tensordot(out, self.t, axes=([out.ndim - 1], [0]))
            self.cache[key] = out / factorial(k)
        return self.cache[key]

    def expected(self, lhs_rhs, P, H, Z, e, hlev=6, zlev=6, tflag=True):
        """(total reference, the bare highest block that the LHS legitimately omits)."""
        tot = np.zeros((self.A,) + (self.N,) * P, complex)
        for (m, n), r in it.product(self.hk, range(Z + 1)):
            if m + n > H or n > r or max(m, n) > hlev or r > zlev:
                continue
            k = m + r - n - P
            if not 0 <= k <= e or (k > 0 and not tflag):
                continue
            if lhs_rhs == 'RHS':
                tot = tot + self.contribution('RHS', m, n, r, P, k)
            elif n == 0:
                if m == 0:
                    if k > 0:       # the k = 0 block is dz_P itself: it is what the equation is solved for
                        tot = tot + self.contribution('dz', 0, 0, r, P, k)
                else:
                    tot = tot + self.contribution('LHS', m, 0, r, P, k)
        return tot

    def args(self, lhs_rhs):
        z = {(r, 0): v for r, v in self.z.items()}
        t = {(0, 1): self.t}
        if lhs_rhs == 'RHS':
            return t, dict(self.h), z
        return t, {(m, 0): v for m, v in self.dT.items()}, z, {(r, 0): v for r, v in self.dz.items()}


MODELS = {}


def models(seed):
    if seed not in MODELS:
        MODELS[seed] = [Model(A, N, seed) for A, N in DIMS]
    return MODELS[seed]


def flags(hlev=6, zlev=6, tflag=True):
    kw = {f'h_at_least_{TAGS[i]}': i <= hlev for i in range(1, 7)}
    kw.update({f'z_at_least_{TAGS[i]}': i <= zlev for i in range(1, 7)})
    return Flags(default=True, t_singles=tflag, **kw)


def load(sub, H, Z, e, P, side):
    files, err = generate(sub, 'eTz', (H, Z, 1, e, P), 'python', lhs_rhs=side)
    tag = f'H{H} Z{Z} e{e} P{P} {side}'
    if err is not None:
        sub.violation(f'gen:{side}', f'{tag}: generator raised {excname(err)}', {'trunc': (H, Z, 1, e, P)})
        return None
    src = files.get(f'eT_zhz_eqs_{side}_H({H})_P({P})_T(1)_exp({e})_Z({Z}).py')
    if src is None:
        sub.violation(f'file:{side}', f'{tag}: produced {sorted(files)}')
        return None
    try:
        return load_source(src, 'eT')
    except Exception as ex:
        sub.violation(f'load:{side}', f'{tag}: cannot execute: {excname(ex)}')
        return None


def item(sub, spec):
    H, Z, e, P, side, mode = spec
    mod = load(sub, H, Z, e, P, side)
    if mod is None:
        return
    tag = f'H{H} Z{Z} e{e} P{P} {side}'
    for p in range(min(P, Z) + 1):
        for opt in (False, True):
            name = f'compute_m0_n{p}_amplitude' + ('_optimized' if opt else '')
            f = getattr(mod, name, None)
            if f is None:
                sub.violation(f'missing:{side}:P{p}', f'{tag}: no {name}')
                continue
            settings = [(6, 6, True)]
            if mode == 'flags':
                settings = [(hl, zl, tf) for hl in range(0, H + 1) for zl in range(0, Z + 1) for tf in (True, False)]
                refusals(sub, f, side, p, opt, tag, (H, Z, e, P))
            if mode != 'flags':
                groups(sub, mod, side, p, H, Z, e, opt, tag)
            for mdl in models(sub.seed):
                for hl, zl, tf in settings:
                    evaluate(sub, f, mdl, side, p, H, Z, e, P, opt, hl, zl, tf, tag, mode)
    sub.count('einsum_events', mod._rec.einsum)
    sub.count('distinct_contractions', len(mod._rec.distinct))


def refusals(sub, f, side, p, opt, tag, spec):
    """with a truncation that stops below the projection's own rank the function must refuse; otherwise it must not"""
    mdl = models(sub.seed)[0]
    for lev in range(0, 7):
        fl = flags()
        fl.__dict__['_level'] = lev
        sub.case(('confirm', spec, side, p, opt, lev), True)
        try:
            f(mdl.A, mdl.N, Flags(ground_state=True), fl, *mdl.args(side), *(((None, None),) if opt else ()))
            refused = False
        except Refused:
            refused = True
        except Exception as ex:
            sub.violation(f'confirm:{side}:P{p}:exec', f'{tag} level {lev}: raised {excname(ex)}')
            continue
        if refused != (lev < max(1, p)):
            sub.violation(f'confirm:{side}:P{p}:level{lev}', f'{tag}: projection {p} with a truncation of level {lev} '
                          + ('refused' if refused else 'was computed'), {'trunc': spec})


def groups(sub, mod, side, p, H, Z, e, opt, tag):
    """the two functions an amplitude is the sum of: what has no T, and what has some; each adds to its first argument"""
    mdl = models(sub.seed)[0]
    args = mdl.args(side)
    whole = mdl.expected(side, p, H, Z, e)
    bare = mdl.expected(side, p, H, Z, 0)
    if side == 'RHS' and p <= Z:        # F2: see evaluate()
        known = [mdl.contribution('RHS', 0, 0, p, p, 0)]
    else:
        known = []
    for g, ref in (('HZ', bare), ('eT_HZ', whole - bare)):
        name = (f'add_m0_n{p}_{g}_terms' if side == 'RHS' else f'compute_m0_n{p}_{g}_LHS') + ('_optimized' if opt else '')
        start = np.full_like(ref, 2.5)
        R = start.copy()
        sub.case((H, Z, e, side, p, name), bool(np.any(ref)))
        try:
            mod.__dict__[name](R, Flags(ground_state=True), flags(), *args, *((iter(()),) if opt else ()))
        except Exception as ex:
            sub.violation(f'exec:{side}:P{p}:{g}', f'{tag}: {name} raised {excname(ex)}')
            continue
        got = sym_sum(R - start, 1)
        if not close(got, ref) and not (g == 'HZ' and any(close(got, ref - k) for k in known)):
            sub.violation(f'group:{side}:P{p}:{name}', f'{tag}: |diff|={float(np.abs(got - ref).max()):.3g}')


def evaluate(sub, f, mdl, side, p, H, Z, e, P, opt, hl, zl, tf, tag, mode):
    args = mdl.args(side)
    snap = [{k: v.copy() for k, v in d.items()} for d in args] if mode != 'flags' else None
    what = 'opt' if opt else 'std'
    try:
        extra = ((None, None),) if opt else ()
        R = f(mdl.A, mdl.N, Flags(ground_state=True), flags(hl, zl, tf), *args, *extra)
    except Exception as ex:
        sub.violation(f'exec:{side}:P{p}:{what}', f'{tag} p={p}: raised {excname(ex)}')
        return
    ref = mdl.expected(side, p, H, Z, e, hl, zl, tf)
    sub.case((H, Z, e, P, side, p, opt, mdl.A, mdl.N, hl, zl, tf), True,
             {'H': H, 'Z': Z, 'exp': e, 'P': P, 'side': side, 'p': p, 'optimised': opt, 'A': mdl.A, 'N': mdl.N,
              'h_level': min(hl, H), 'z_level': min(zl, Z), 't_singles': tf})
    if np.shape(R) != ref.shape:
        sub.violation(f'shape:{side}:P{p}', f'{tag} p={p}: shape {np.shape(R)}')
        return
    Rs = sym_sum(R, 1)
    if not close(Rs, ref):
        # the one listed finding: exactly  h(0,0) . z_p  is absent from the right-hand side
        if side == 'RHS' and p <= zl and close(Rs, ref - mdl.contribution('RHS', 0, 0, p, p, 0)):
            sub.violation(f'RHS:P{p}:h(0,0).z({p}) absent', tag)
        else:
            lev = f':h<={hl}:z<={zl}:t{int(tf)}' if mode == 'flags' else ''
            sub.violation(f'value:{side}:P{p}:{what}{lev}', f'{tag} p={p} A={mdl.A} N={mdl.N}: '
                          f'|diff|={float(np.abs(Rs - ref).max()):.3g}',
                          {'trunc': (H, Z, 1, e, P), 'side': side, 'p': p})
    if snap is not None:
        for a, b in zip(snap, args):
            if any(not np.array_equal(a[k], b[k]) for k in a) or set(a) != set(b):
                sub.violation(f'mutates:{side}:P{p}', f'{tag}: generated code modified its inputs')


def cheap(H, Z, e):
    """generation cost grows steeply for Z of 5 and 6 together with e above 5 (10 s to 4 min): see `steep`"""
    return e <= 5 or Z <= 4


def steep(ck, share):
    """the truncations left out by `cheap`, as (H, Z, e): all of them in the thorough tier"""
    box = [(H, Z, e) for H in range(1, 7) for Z in (5, 6) for e in (6, 7, 8)]
    if ck.thorough:
        return box
    return [s for s in box if s[1:] != (6, 8) and ck.rng.random() < (share if s[1:] != (6, 7) else share / 6)]


def sweep(ck, side):
    """(H, Z, e, P) grid for one side."""
    specs = []
    for H, Z, e in it.product(range(1, 7), range(1, 7), range(1, 9)):
        if not cheap(H, Z, e):
            continue
        Ps = range(1, 7) if e <= 4 else [6, ck.rng.randint(1, 5)]
        for P in Ps:
            specs.append((H, Z, e, P, side, 'full'))
    specs += [s + (6, side, 'full') for s in steep(ck, .6)]
    ck.rng.shuffle(specs)
    specs.sort(key=lambda s: (s[2] < 6, -s[1] * s[2]))
    return specs


def run(ck, side):
    ck.rule = ('case = one executed amplitude function of one generated file: (H, Z, exp order, P) truncation, '
               'projection p, default/optimised variant, dimensions A,N with random symmetric complex tensors; '
               'every case compares a full tensor with the reference and is non-trivial')
    ck.assumptions = ['h, z, dz, dT tensors are symmetric in their vibrational indices (bosons; for h also '
                      'between creation and annihilation axes, because the code places them interchangeably)',
                      'external indices are compared after symmetrisation']
    models(ck.seed)
    pmap(ck, item, sweep(ck, side))


def check_rhs(ck):
    run(ck, 'RHS')


def check_lhs(ck):
    run(ck, 'LHS')


def check_flags(ck):
    ck.rule = ('case = one executed amplitude function under one monotone setting of the runtime truncation '
               'flags (h level, z level, t on/off); compared with the reference restricted to those levels')
    models(ck.seed)
    grid = [(H, Z, e, P, s, 'flags') for H in range(1, 7) for Z in range(1, 7) for e in range(1, 9)
            if e <= (5 if ck.thorough else 4) or cheap(H, Z, e) and Z <= 3
            for P in (range(1, 7) if ck.thorough else (6, ck.rng.randint(1, 5))) for s in ('RHS', 'LHS')]
    grid.sort(key=lambda s: -(s[1] * s[2]))
    pmap(ck, item, grid)
