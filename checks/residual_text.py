"""Residual equations in text and tuple form against operator algebra (C24)."""
import re
from fractions import Fraction
from math import factorial

from vmon.harness import excname, repo_modules

TERM = re.compile(r'^(?:(?P<pre>[^hw]+?) *\* *)?h(?:_0|(?P<up>\^\{[^}]*\})?(?P<low>_\{[^}]*\})?)(?: *\* *w\^\{(?P<w>[^}]*)\})?$')
LABEL = re.compile(r'^([ik])_(\d+)$')


def value(text):
    """Exact value of a prefactor such as (3/3!), (1/(2*4!)) or 1.0: own little expression reader."""
    try:
        return Fraction(float(text))        # a plain number, exact to a rounding error
    except ValueError:
        pass
    tok = re.findall(r'\d+\.\d+|\d+|[()/*!]', text)
    if ''.join(tok) != text.replace(' ', ''):
        raise ValueError(text)
    pos = 0

    def atom():
        nonlocal pos
        if tok[pos] == '(':
            pos += 1
            v = product()
            if tok[pos] != ')':
                raise ValueError(text)
        else:
            v = Fraction(tok[pos])
        pos += 1
        while pos < len(tok) and tok[pos] == '!':
            if v.denominator != 1:
                raise ValueError(text)
            v = Fraction(factorial(int(v)))
            pos += 1
        return v

    def product():
        nonlocal pos
        v = atom()
        while pos < len(tok) and tok[pos] in '*/':
            op = tok[pos]
            pos += 1
            x = atom()
            v = v * x if op == '*' else v / x
        return v

    v = product()
    if pos != len(tok):
        raise ValueError(text)
    return v


def labels(text):
    out = []
    for x in filter(None, (text or '').strip('^_{}').split(',')):
        m = LABEL.match(x.strip())
        if not m:
            raise ValueError(text)
        out.append((m[1], int(m[2])))
    return out


def parse(text):
    """(prefactor, upper labels of h, lower labels of h, labels of w or None)"""
    m = TERM.match(text.strip())
    if not m:
        raise ValueError(text)
    pre = value(m['pre']) if m['pre'] else Fraction(1)
    return pre, labels(m['up']), labels(m['low']), labels(m['w']) if m['w'] is not None else None


def same(x, y):
    return abs(x - y) <= abs(y) * Fraction(1, 10 ** 14)


def theory(rank, p):
    """{(m, n): coefficient} of <p| h^m_n W>: w carries the p - m labels left over and the n contracted ones."""
    return {(m, n): Fraction(1, factorial(p - m) * factorial(n) * factorial(m))
            for m in range(rank + 1) for n in range(rank + 1 - m) if m <= p}


def judge(ck, rank, p, texts, terms, tag):
    want = theory(rank, p)
    seen_text, seen_term = [], []
    if len(texts) != len(terms):
        ck.violation(f'len:{p}', f'{tag}: {len(texts)} texts, {len(terms)} tuples')
    for s in texts:
        try:
            pre, up, low, w = parse(s)
        except Exception as e:
            ck.violation(f'text:parse:{p}', f'{tag}: {s!r}: {excname(e)}')
            continue
        m, n = len(up), len(low)
        seen_text.append((m, n))
        ck.count('text terms read')
        ck.case((rank, p, 'text', m, n), True, {'rank': rank, 'order': p, 'term': s})
        if up != [('i', a) for a in range(1, m + 1)] or low != [('k', a) for a in range(1, n + 1)]:
            ck.violation(f'text:h:{p}', f'{tag}: {s!r}: labels of h')
        wl = [('i', a) for a in range(m + 1, p + 1)] + [('k', a) for a in range(1, n + 1)]
        if (w or []) != wl or (w is None) != (not wl):
            ck.violation(f'text:w:{p}', f'{tag}: {s!r}: labels of w, expected {wl}')
        if (m, n) in want and not same(pre, want[m, n]):
            ck.violation(f'text:value:{p}', f'{tag}: {s!r}: {pre}, not {want[m, n]}')
    for t in terms:
        try:
            m, n = t.h.max_i, t.h.max_k
            pre, w = value(str(t.prefactor)), tuple(t.w)
        except Exception as e:
            ck.violation(f'tuple:parse:{p}', f'{tag}: {t!r}: {excname(e)}')
            continue
        seen_term.append((m, n))
        ck.count('tuple terms read')
        ck.case((rank, p, 'tuple', m, n), True)
        if w != (p - m, n, p - m + n):
            ck.violation(f'tuple:w:{p}', f'{tag}: {t!r}: expected {(p - m, n, p - m + n)}')
        if (m, n) in want and not same(pre, want[m, n]):
            ck.violation(f'tuple:value:{p}', f'{tag}: {t!r}: {pre}, not {want[m, n]}')
    for name, seen in (('text', seen_text), ('tuple', seen_term)):
        if sorted(seen) != sorted(want):
            ck.violation(f'{name}:terms:{p}', f'{tag}: {name} has {sorted(seen)}, expected {sorted(want)}')
    if seen_text != seen_term:
        ck.violation(f'order:{p}', f'{tag}: the two forms do not list the terms in the same order')


def check(ck):
    repo_modules()
    import code_residual_equations as cre
    ck.rule = 'a case is (Hamiltonian rank, order, form, Hamiltonian component)'
    top = 40 if ck.thorough else 16
    for rank in (0, 1, 2, 2, 1):
        try:
            H = cre.generate_hamiltonian_operator(rank)
            ops = sorted((h.m, h.n, h.rank) for h in H.operator_list)
        except Exception as e:
            ck.violation('hamiltonian', f'rank {rank}: {excname(e)}')
            continue
        want = sorted((m, n, m + n) for m in range(rank + 1) for n in range(rank + 1 - m))
        if ops != want or H.maximum_rank != rank:
            ck.violation('hamiltonian', f'rank {rank}: {ops}')
        for M in list(range(0, top + 1)) + [3, 0, 6]:
            before = list(H.operator_list)
            try:
                R, T = cre.generate_residual_data(H.operator_list, M)
            except Exception as e:
                ck.violation('data', f'rank {rank}, order {M}: {excname(e)}')
                continue
            ck.count('residual data sets')
            if len(R) != M + 1 or len(T) != M + 1:
                ck.violation('data:orders', f'rank {rank}: {len(R)}, {len(T)} lists for maximum order {M}')
            for p, (r, t) in enumerate(zip(R, T)):
                judge(ck, rank, p, r, t, f'rank {rank} max {M} order {p}')
            if list(H.operator_list) != before:
                ck.violation('data:input', f'rank {rank}: the Hamiltonian was changed')
    ck.assumptions = ['Hamiltonians up to rank 2 (the residual code knows no others)']
