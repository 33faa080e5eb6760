"""LaTeX of the e^T H Z ansatz, both sides of the equation (C12)."""
import itertools as it
import re
from collections import Counter
from fractions import Fraction
from math import comb, factorial

from vmon.harness import excname, generate, pmap
from vmon.latex import ParseError, balanced, brace, coefficient, count, factors, label_counts, split_top, strip_comments
from checks.eT_python import cheap, steep
from checks.latex_zhz import fifth, first_term, in_model


def fname(side, rf):
    tail = 'symmetric_equations' if side == 'RHS' else 'special_LHS_terms'
    return f"ground_state_eT_z_t_{tail}{'_no_f_terms' if rf else ''}.tex"


def reference(P, H, Z, e, side):
    """(h m, h n, z rank, t's to h, t's to z) -> weight"""
    out = {}
    for m in range(H + 1):
        for n in range(H + 1 - m):
            if not in_model(m, n) or (side == 'LHS' and n):
                continue
            for r in range(n, Z + 1):
                for k in range(e + 1):
                    for a in range(0, min(k, m) + 1):
                        zext = r - n - (k - a)
                        if zext < 0 or (m - a) + zext != P:
                            continue
                        out[(m, n, r, a, k - a)] = Fraction(
                            comb(k, a), factorial(k) * factorial(m - a) * factorial(n) * factorial(zext))
    return out


def unwrap(fs):
    """i d/dtau ( . ) wrappers -> (flat operators, [index of differentiated operators])"""
    ops, der, rest = [], [], []
    for f in fs:
        if f[0] == 'op':
            ops.append(f)
        elif f[0] == 'lr':
            t = f[1].strip()
            if not t.startswith('i'):
                raise ParseError(f'bracket {t!r}')
            inner = factors(t[1:])
            if len(inner) != 1 or inner[0][0] != 'dv' or len(inner[0][1]) != 1 or inner[0][1][0][0] != 'op':
                raise ParseError(f'bracket {t!r}')
            der.append(len(ops))
            ops.append(inner[0][1][0])
        else:
            rest.append(f)
    return ops, der, rest


def read_term(txt, P, side):
    m = re.match(r'\s*(\d+)(?=\\)', txt)
    mult = 1
    if m:
        mult, txt = int(m.group(1)), txt[m.end():]
    fs = factors(txt)
    ops, der, rest = unwrap(fs)
    ones = sum(1 for f in rest if f[0] == 'one')
    if any(f[0] not in ('one', 'frac', 'f', 'fbar') for f in rest):
        raise ParseError(f'term {txt!r}')
    names = ''.join(o[1] for o in ops)
    tn = 't' if side == 'RHS' else 's'
    if side == 'RHS':
        mm = re.fullmatch(r'(t*)hz', names)
        if not mm or der:
            raise ParseError(f'term {txt!r}')
        k = len(mm.group(1))
        want_ones = 1 if k == 0 else 0
        h, z = ops[k], ops[k + 1]
    else:
        mm = re.fullmatch(r'(s*)(t?)z', names)
        if not mm:
            raise ParseError(f'term {txt!r}')
        k = len(mm.group(1))
        want_ones = (1 if k == 0 else 0) + (0 if mm.group(2) else 1)
        if mm.group(2):
            h, z = ops[k], ops[k + 1]
            want = [k]
        else:
            h, z = ('op', 'h', [], [], True), ops[k]
            ops = ops[:k] + [h, z]
            want = [k]           # position of z before the stand-in was inserted
        if der != want:
            raise ParseError(f'wrong operator differentiated in {txt!r}')
    if ones != want_ones:
        raise ParseError(f'{ones} unit operators in {txt!r}')
    if (h[4] and (h[2] or h[3])) or (z[4] and (z[2] or z[3])) or z[3]:
        raise ParseError(f'term {txt!r}')
    if any(t[2] or t[4] for t in ops[:k]):
        raise ParseError(f't with upper labels in {txt!r}')
    H, Z = k, k + 1
    to_h = to_z = hz = 0
    ext = ''
    for ch, where in label_counts(ops).items():
        pos = sorted((w[0], w[1]) for w in where)
        if len(pos) == 1:
            if where[0][2] != 'red' or where[0][1] != '^' or where[0][0] < k:
                raise ParseError(f'label {ch} appears once, at {where}, in {txt!r}')
            ext += ch
            continue
        if len(pos) != 2 or any(w[2] == 'red' for w in where):
            raise ParseError(f'label {ch} at {where} in {txt!r}')
        if len({w[2] for w in where}) != 1:
            raise ParseError(f'label {ch} has two colours in {txt!r}')
        if pos[0][0] < k and pos[0][1] == '_' and pos[1] == (H, '^'):
            to_h += 1
        elif pos[0][0] < k and pos[0][1] == '_' and pos[1] == (Z, '^'):
            to_z += 1
        elif pos == [(H, '_'), (Z, '^')]:
            hz += 1
        else:
            raise ParseError(f'label {ch} joins {where} in {txt!r}')
    n_lab = lambda labs: sum(len(t) for _, t in labs)
    if any(n_lab(t[3]) != 1 for t in ops[:k]):
        raise ParseError(f't of rank other than 1 in {txt!r}')
    if len(ext) != P:
        raise ParseError(f'{len(ext)} external labels in {txt!r}')
    key = (n_lab(h[2]), n_lab(h[3]), n_lab(z[2]), to_h, to_z)
    if (key[0] + key[1] == 0) != h[4] or (key[2] == 0) != z[4]:
        raise ParseError(f'operator without labels in {txt!r}')
    fbar = sum(f[1] for f in rest if f[0] == 'fbar')
    if fbar != to_h + to_z + hz or any(f[0] == 'f' for f in rest):
        raise ParseError(f'fbar^{fbar} for {to_h + to_z + hz} contractions in {txt!r}')
    return key, coefficient(rest) * mult, ext


def read_sum(txt, P, side):
    txt = txt.replace('\\\\', ' ').replace('&', ' ').strip()
    if txt.startswith('(') and txt.endswith(')'):
        txt = txt[1:-1].strip()
    got, exts = [], set()
    for t in (split_top(txt) if txt else []):
        key, w, ext = read_term(t, P, side)
        got.append((key, w))
        exts.add(''.join(sorted(ext)))
    return got, exts


def item(sub, spec):
    H, Z, e, P, side, rf = spec
    tag = f'H{H} Z{Z} e{e} P{P} {side} remove_f={rf}'
    files, err = generate(sub, 'eTz', (H, Z, 1, e, P), 'latex', lhs_rhs=side, remove_f_terms=rf)
    if err is not None:
        sub.violation(f'gen:{side}', f'{tag}: raised {excname(err)}', {'spec': spec})
        return
    tex = files.get(fname(side, rf))
    if tex is None:
        sub.violation(f'file:{side}', f'{tag}: produced {sorted(files)}')
        return
    if not balanced(tex) or not tex.rstrip().endswith('\\end{document}') or '\\begin{document}' not in tex:
        sub.violation(f'document:{side}', f'{tag}: not a complete document')
    body = strip_comments(tex[tex.index('\\clearpage'):] if '\\clearpage' in tex else tex)
    bl = re.findall(r'\\hat\{\\Omega\}\s*=((?:\s*\\(?:up|down)\{[a-z]\})+|\s*1)\s*\\qquad\s*\\qquad(.*?)\\end\{equation\}'
                    r'.*?\\begin\{align\}\\begin\{split\}\s*LHS\s*&=(.*?)\\end\{split\}', body, re.S)
    want = list(range(min(Z, P) + 1))
    seen = []
    for om, _, rest in bl:
        p = len(re.findall(r'\\down\{', om))
        seen.append(p if '\\up' not in om else ('up', p))
        if seen[-1] in want:
            try:
                one(sub, tag, spec, p, rest)
            except (ParseError, ValueError, IndexError) as ex:
                sub.violation(f'parse:{side}:P{p}', f'{tag} p={p}: {ex}')
    if seen != want:
        sub.violation(f'projections:{side}', f'{tag}: equations for {seen}')


def one(sub, tag, spec, p, rest):
    H, Z, e, P, side, rf = spec
    if side == 'RHS':
        m = re.fullmatch(r'\s*i\\Big\(\\dv\{\\hat\{\\bz\}\^\{([a-z]*)\}_\{\\gamma\}\}\{\\tau\}\\Big\)\s*\\\\\s*RHS\s*&=\s*'
                         r'(\\bh.*?)\(1-\\delta_\{x\\gamma\}\)\s*\\\\\s*&\+\\sum\\Big\((.*?)\\Big\)\s*'
                         r'\\\\\s*&-i\\sum\\Big\((.*)\\Big\)\s*', rest, re.S)
        if not m:
            raise ParseError(f'equation {rest[:100]!r}')
        lab, p1, p3, p5 = m.groups()
        if len(lab) != p or len(set(lab)) != p:
            sub.violation(f'lhs:P{p}', f'{tag}: left-hand side labels {lab!r}')
        bad = first_term(p1, 0, p)
        if bad:
            sub.violation(f'bare-h:P{p}', f'{tag}: {bad}')
        g5 = fifth(p5, 0, p)
        if sorted(x[:3] for x in g5) != sorted((p - z, 0, z) for z in range(p + 1)) or \
                len({x[3:] for x in g5}) != 1 or any(len(set(x[3])) != p for x in g5):
            sub.violation(f'dt-products:P{p}', f'{tag}: {g5}')
    else:
        m = re.fullmatch(r'\s*\\\\\s*&\+\\sum\\Big\((.*)\\Big\)\s*', rest, re.S)
        if not m:
            raise ParseError(f'equation {rest[:100]!r}')
        p3 = m.group(1)
    ref = reference(p, H, Z, e, side)
    got, exts = read_sum(p3, p, side)
    sub.count('terms_read', len(got))
    sub.case((spec, p), bool(ref), {'H': H, 'Z': Z, 'exp': e, 'P': P, 'side': side, 'p': p, 'terms': len(got)})
    if len(exts) > 1:
        sub.violation(f'labels:{side}:P{p}', f'{tag}: terms carry different external labels {sorted(exts)}')
    tot, cnt = {}, Counter()
    for key, w in got:
        cnt[key] += 1
        tot[key] = tot.get(key, 0) + w
    for key, w in tot.items():
        txt = f'{tag} p={p}: t^{key[3] + key[4]} ({key[3]} to h, {key[4]} to z) h^{key[0]}_{key[1]} z^{key[2]}'
        if key not in ref:
            sub.violation(f'extra:{side}:P{p}', txt)
        elif w != ref[key]:
            sub.violation(f'weight:{side}:P{p}', f'{txt}: total weight {w} in {cnt[key]} terms, expected {ref[key]}')
    miss = [k for k in ref if k not in tot]
    if miss:
        k = miss[0]
        sub.violation(f'missing:{side}:P{p}', f'{tag} p={p}: {len(miss)} terms, e.g. t^{k[3] + k[4]} ({k[3]} to h, '
                      f'{k[4]} to z) h^{k[0]}_{k[1]} z^{k[2]}')


def check(ck):
    ck.rule = ('case = one projection of one generated document (truncation H, Z, exp order, P; side; remove-f): its '
               'terms are read back and the total weight of every contraction pattern compared with the exact one')
    ck.assumptions = ['weights are compared per contraction pattern after summing equal printed terms',
                      'Hamiltonian blocks: total rank below 3 or annihilation only']
    specs = []
    for H, Z, e, side in it.product(range(1, 7), range(1, 7), range(1, 9), ('RHS', 'LHS')):
        if not cheap(H, Z, e):
            continue
        for P in range(1, 7):
            for rf in (False, True):
                if e <= 3 or ck.rng.random() < (1 if ck.thorough or e == 4 else .7):
                    specs.append((H, Z, e, P, side, rf))
    specs += [s + (6, side, ck.rng.random() < .5) for s in steep(ck, .4) for side in ('RHS', 'LHS')]
    specs.sort(key=lambda s: (s[2] < 6, -s[1] * s[2]))
    pmap(ck, item, specs)
