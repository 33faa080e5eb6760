"""LaTeX of the H.Z ansatz: every term of <omega| H Z |0>, weighted and labelled (C11)."""
import itertools as it
import re
from collections import Counter
from fractions import Fraction
from math import comb, factorial

from vmon.harness import excname, generate, pmap
from vmon.latex import ParseError, balanced, brace, coefficient, count, factors, label_counts, split_top, strip_comments


def fname(rf):
    return f"ground_state_z_t_symmetric_equations{'_no_f_terms' if rf else ''}.tex"


def in_model(m, n):
    return m + n < 3 or m == 0


def reference(M, N, H, Z):
    """(h m, h n, z rank, contracted labels) -> weight"""
    out = {}
    for m in range(H + 1):
        for n in range(H + 1 - m):
            if not in_model(m, n):
                continue
            for r in range(Z + 1):
                a, ext = n - M, N - m
                if a < 0 or ext < 0 or r != a + ext:
                    continue
                out[(m, n, r, a)] = Fraction(comb(n, a) * comb(r, a) * factorial(a),
                                             factorial(m) * factorial(n) * factorial(r))
    return out


def plain(txt):
    """labels of \\hat{\\bt}^{ij}_{k, \\gamma}: (upper letters, lower letters, zero?)"""
    m = re.match(r'\\hat\{\\b([tz])\}', txt.strip())
    if not m:
        raise ParseError(f'operator {txt!r}')
    rest, up, low, zero = txt.strip()[m.end():], '', '', False
    while rest:
        body, j = brace(rest, 1)
        if rest[0] == '^':
            up = body.strip()
        elif rest[0] == '_':
            parts = [p.strip() for p in body.split(',')]
            if parts[-1] != r'\gamma' or len(parts) > 2:
                raise ParseError(f'lower label {body!r}')
            if parts[:-1] == ['0']:
                zero = True
            elif parts[:-1]:
                low = parts[0]
        else:
            raise ParseError(f'operator {txt!r}')
        rest = rest[j:]
    if not re.fullmatch('[a-z]*', up + low) or (zero and (up or low)):
        raise ParseError(f'operator {txt!r}')
    return m.group(1), up, low, zero


BIG = re.compile(r'\\Big\(|\\Big\)')


def read_rhs(txt):
    txt = txt.replace('&', '').strip()
    m = re.fullmatch(r'(\\bh.*?)\(1-\\delta_\{x\\gamma\}\)(?:\s*\\\\\s*\+\\sum\\Big\((.*?)\\Big\)\(1-\\delta_\{cb\}\))?'
                     r'\s*\\\\\s*-i\\sum\\Big\((.*)\\Big\)', txt, re.S)
    if not m:
        raise ParseError(f'RHS {txt[:120]!r}')
    return tuple(g or '' for g in m.groups())     # no sum: no h z contraction


def first_term(txt, M, N):
    if M + N == 0:
        return None if txt == r'\bh_{0,xb}' else f'bare h term {txt!r}'
    fs = factors(txt)
    if len(fs) != 1 or fs[0][0] != 'op' or fs[0][1] != 'h':
        return f'bare h term {txt!r}'
    up, low = (''.join(t for _, t in fs[0][i]) for i in (2, 3))
    if len(up) != N or len(low) != M or len(set(up + low)) != M + N:
        return f'bare h term {txt!r}'
    return None


def third(txt, M, N):
    """[(key, weight, fbar, f)]"""
    txt = txt.strip().replace('\\\\', ' ')
    if txt == '':
        return [], set()
    if not (txt[0] == '(' and txt[-1] == ')'):
        raise ParseError(f'sum {txt[:80]!r}')
    inner = txt[1:-1].strip()
    out, exts = [], set()
    for t in (split_top(inner) if inner else []):
        fs = factors(t)
        ops = [f for f in fs if f[0] == 'op']
        if [o[1] for o in ops] != ['h', 'z'] or any(f[0] not in ('op', 'frac', 'f', 'fbar') for f in fs):
            raise ParseError(f'term {t!r}')
        h, z = ops
        if h[4] and (h[2] or h[3]) or z[4] and (z[2] or z[3]) or z[3]:
            raise ParseError(f'term {t!r}')
        if any(c == 'magenta' and x for o in ops for c, x in o[2] + o[3]):
            raise ParseError(f'label for an absent operator in {t!r}')
        b, r = (lambda o, i: count(o[i], 'blue')), (lambda o, i: count(o[i], 'red'))
        red_up, red_low = '', ''
        for ch, where in label_counts(ops).items():
            col = {w[2] for w in where}
            if col == {'blue'}:
                if sorted((w[0], w[1]) for w in where) != [(0, '_'), (1, '^')]:
                    raise ParseError(f'summed label {ch} at {where} in {t!r}')
            elif col == {'red'} and len(where) == 1:
                if where[0][1] == '^':
                    red_up += ch
                else:
                    red_low += ch
            else:
                raise ParseError(f'label {ch} at {where} in {t!r}')
        if len(red_up) != N or len(red_low) != M:
            raise ParseError(f'externals {red_up!r}/{red_low!r} in {t!r}')
        exts.add(''.join(sorted(red_up + red_low)))
        a = b(h, 3)
        out.append(((b(h, 2) + r(h, 2), a + r(h, 3), b(z, 2) + r(z, 2), a), coefficient(fs),
                    sum(f[1] for f in fs if f[0] == 'fbar'), sum(f[1] for f in fs if f[0] == 'f')))
    return out, exts


def fifth(txt, M, N):
    got = []
    for t in split_top(txt):
        m = re.fullmatch(r'\\dv\{(.*)\}\{\\tau\}\\,(.*)', t.strip(), re.S)
        if not m:
            raise ParseError(f'product {t!r}')
        a, b = plain(m.group(1)), plain(m.group(2))
        if a[0] != 't' or b[0] != 'z' or b[2]:
            raise ParseError(f'product {t!r}')
        for o in (a, b):
            if (not o[1] + o[2]) != o[3]:
                raise ParseError(f'operator of rank {len(o[1] + o[2])} in {t!r}')
        got.append((len(a[1]), len(a[2]), len(b[1]), ''.join(sorted(a[1] + b[1])), ''.join(sorted(a[2]))))
    return got


def item(sub, spec):
    H, Z, P, rf = spec
    tag = f'H{H} CC{Z} P{P} remove_f={rf}'
    files, err = generate(sub, 'zhz', (H, Z, P), 'latex', remove_f_terms=rf)
    if err is not None:
        sub.violation('gen', f'{tag}: raised {excname(err)}', {'trunc': spec})
        return
    tex = files.get(fname(rf))
    if tex is None:
        sub.violation('file', f'{tag}: produced {sorted(files)}')
        return
    if not balanced(tex) or not tex.rstrip().endswith('\\end{document}') or '\\begin{document}' not in tex:
        sub.violation('document', f'{tag}: not a complete document')
    body = strip_comments(tex[tex.index('\\clearpage'):] if '\\clearpage' in tex else tex)
    bl = re.findall(r'\\hat\{\\Omega\}\s*=((?:\s*\\(?:up|down)\{[a-z]\})+|\s*1)\s*\\qquad\s*\\qquad\s*(.*?)\\end\{equation\}'
                    r'.*?\\begin\{align\}\\begin\{split\}\s*LHS\s*&=(.*?)\\\\\s*RHS\s*&=(.*?)\\end\{split\}', body, re.S)
    top = min(Z, P)
    want = [(M, N) for M in range(top + 1) for N in range(top + 1 - M)]
    seen = []
    for om, geq, lhs, rhs in bl:
        M, N = len(re.findall(r'\\up\{', om)), len(re.findall(r'\\down\{', om))
        seen.append((M, N))
        if (M, N) not in want:
            continue
        try:
            one(sub, tag, spec, M, N, geq, lhs, rhs)
        except (ParseError, ValueError, IndexError) as e:
            sub.violation(f'parse:{M},{N}', f'{tag}: {e}')
    if sorted(seen) != sorted(want):
        sub.violation('projections', f'{tag}: equations for {sorted(seen)}, expected {sorted(want)}')


def one(sub, tag, spec, M, N, geq, lhs, rhs):
    H, Z, P, rf = spec
    where = f'{tag} omega(up {M}, down {N})'
    # ---- the t equation and the left-hand side
    m = re.fullmatch(r'\s*i\\dv\{\\hat\{\\bt\}\^\{([a-z]*)\}_\{(?:([a-z]*)\s*,\s*)?\\gamma\}\}\{\\tau\}\s*=\s*'
                     r'\\hat\{G\}\^\{([a-z]*)\}_\{(?:([a-z]*)\s*,\s*)?\\gamma\\gamma\}\s*', geq)
    if not m:
        raise ParseError(f't equation {geq!r}')
    u, l, gu, gl = [x or '' for x in m.groups()]
    if (u, l) != (gu, gl) or len(u) != N or len(l) != M or len(set(u + l)) != M + N:
        sub.violation(f't-equation:{M},{N}', f'{where}: {geq!r}')
    m = re.fullmatch(r'\s*i\\Big\(\\dv\{\\hat\{\\bz\}\^\{([a-z]*)\}_\{\\gamma\}\}\{\\tau\}\\Big\)\s*', lhs)
    if not m or len(m.group(1)) != M + N or len(set(m.group(1))) != M + N:
        sub.violation(f'lhs:{M},{N}', f'{where}: {lhs!r}')
    # ---- right-hand side
    p1, p3, p5 = read_rhs(rhs)
    e = first_term(p1, M, N)
    if e:
        sub.violation(f'bare-h:{M},{N}', f'{where}: {e}')
    ref = reference(M, N, H, Z)
    got, exts = third(p3, M, N)
    sub.case((spec, M, N), True, {'trunc(H,CC,P)': spec[:3], 'remove_f': rf, 'omega': (M, N), 'terms': len(got)})
    sub.count('terms_read', len(got))
    cnt = Counter(k for k, *_ in got)
    if len(exts) > 1:
        sub.violation(f'labels:{M},{N}', f'{where}: terms carry different external labels {sorted(exts)}')
    for k, w, fbar, f in got:
        if k not in ref:
            sub.violation(f'extra:{M},{N}', f'{where}: h^{k[0]}_{k[1]} z^{k[2]} with {k[3]} contractions')
        elif w != ref[k]:
            sub.violation(f'weight:{M},{N}', f'{where}: h^{k[0]}_{k[1]} z^{k[2]} weight {w}, expected {ref[k]}')
        if fbar != k[3] or f:
            sub.violation(f'f:{M},{N}', f'{where}: h^{k[0]}_{k[1]} z^{k[2]} has fbar^{fbar} f^{f}, {k[3]} contractions')
    for k, c in cnt.items():
        if c > 1:
            sub.violation(f'repeated:{M},{N}', f'{where}: h^{k[0]}_{k[1]} z^{k[2]} printed {c} times')
    miss = [k for k in ref if k not in cnt]
    if miss:
        sub.violation(f'missing:{M},{N}', f'{where}: {len(miss)} terms, e.g. h^{miss[0][0]}_{miss[0][1]} z^{miss[0][2]}')
    # ---- the dt/dtau products
    g5 = fifth(p5, M, N)
    if sorted(x[:3] for x in g5) != sorted((N - z, M, z) for z in range(N + 1)):
        sub.violation(f'dt-products:{M},{N}', f'{where}: {[x[:3] for x in g5]}')
    if len({x[3:] for x in g5}) != 1 or any(len(set(x[3] + x[4])) != M + N for x in g5):
        sub.violation(f'dt-labels:{M},{N}', f'{where}: products carry labels {sorted({x[3:] for x in g5})}')


def check(ck):
    ck.rule = ('case = one projection of one generated document over all truncations H, CC, P and remove-f; its '
               'terms are read back and compared with an independent enumeration of <omega|H Z|0>')
    ck.assumptions = ['Hamiltonian blocks: total rank below 3 or annihilation only (the model the generator documents)',
                      'weight = 1/(m! n! r!) times the number of distinct index pairings']
    specs = list(it.product(range(1, 7), range(1, 7), range(1, 7), (False, True)))
    ck.exhaustive = True
    pmap(ck, item, specs)
