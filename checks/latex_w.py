"""LaTeX of the W operators: every product of amplitudes of the right rank once, with 1/multiplicity! (C13)."""
import os
import random
import re
import shutil
from collections import Counter
from fractions import Fraction
from math import factorial

from vmon.harness import excname, gen_file, repo_modules
from vmon.latex import ParseError, balanced, brace, product, split_top, strip_comments


def partitions(n, top=None):
    top = n if top is None else top
    if n == 0:
        yield ()
        return
    for k in range(min(n, top), 0, -1):
        for rest in partitions(n - k, k):
            yield (k,) + rest


def bipartitions(m, n):
    """multisets of (a,b) != (0,0) summing to (m,n)"""
    kinds = [(a, b) for a in range(m + 1) for b in range(n + 1) if a + b]

    def rec(start, left):
        if left == (0, 0):
            yield ()
            return
        for i in range(start, len(kinds)):
            a, b = kinds[i]
            if a <= left[0] and b <= left[1]:
                for rest in rec(i, (left[0] - a, left[1] - b)):
                    yield (kinds[i],) + rest
    return list(rec(0, (m, n)))


def weight(ts):
    w = Fraction(1)
    for c in Counter(ts).values():
        w /= factorial(c)
    return w


def number(s, i):
    """exponent after ^ or _: {12} or a single character"""
    if s[i] == '{':
        t, j = brace(s, i)
        return int(t), j
    return int(s[i]), i + 1


def read_product(txt):
    """\\frac{1}{2!*3!}(\\bt^{1})^2\\bt^{3}_{1} -> (multiset of (m,n), weight)"""
    s, i, w, ts = txt.strip(), 0, Fraction(1), []
    while i < len(s):
        if s.startswith(r'\frac', i):
            a, i = brace(s, i + 5)
            b, i = brace(s, i)
            w *= Fraction(product(a), product(b))
            continue
        par = s[i] == '('
        if par:
            i += 1
        if not s.startswith(r'\bt', i):
            raise ParseError(f'{s[i:i + 30]!r} in {s!r}')
        i += 3
        m = n = 0
        while i < len(s) and s[i] in '^_':
            v, j = number(s, i + 1)
            if s[i] == '^':
                m = v
            else:
                n = v
            i = j
        p = 1
        if par:
            if s[i] != ')':
                raise ParseError(f'{s!r}')
            i += 1
            if i < len(s) and s[i] == '^':
                p, i = number(s, i + 1)
        ts += [(m, n)] * p
    return tuple(sorted(ts)), w


def read_equations(tex):
    """{(m, n): Counter((ts, weight))}"""
    out = {}
    tex = strip_comments(tex)
    m = re.search(r'\\begin\{(align|equation)\}(.*)\\end\{\1\}', tex, re.S)
    if not m:
        raise ParseError('no equation environment')
    for line in re.split(r'\\\\', m.group(2)):
        line = line.replace('&', '').strip()
        if not line:
            continue
        mm = re.match(r'(?:\\bW|\\textbf\{W\})\^(\{\d+\}|\d)(?:_(\{\d+\}|\d))?\s*=\s*', line)
        if not mm:
            raise ParseError(f'line {line[:60]!r}')
        key = (int(mm.group(1).strip('{}')), int((mm.group(2) or '0').strip('{}')))
        rhs = line[mm.end():].strip()
        if key in out:
            raise ParseError(f'two equations for W{key}')
        if rhs == '1':
            out[key] = Counter({((), Fraction(1)): 1})
            continue
        sym = re.fullmatch(r'\\hat\{S\}\((.*)\)', rhs, re.S)
        if (sym is None) != (sum(key) == 1):
            raise ParseError(f'symmetriser of {line[:60]!r}')
        out[key] = Counter(read_product(t) for t in split_top(sym.group(1) if sym else rhs))
    return out


def compare(ck, what, order, got, want):
    ck.case((what, order), True, {'generator': what, 'max_order': order, 'equations': len(got)})
    ck.count('products_read', sum(sum(c.values()) for c in got.values()))
    if set(got) != set(want):
        ck.violation(f'{what}:set', f'max order {order}: equations {sorted(set(got) ^ set(want))} missing or extra')
    for k in want:
        if k in got and got[k] != want[k]:
            ck.violation(f'{what}:W{k}', f'max order {order}: missing {want[k] - got[k]}, extra {got[k] - want[k]}')


def check(ck):
    ck.rule = ('case = one maximum order of the ground-state / excited-state W document; every printed product is '
               'read back and compared with the integer (bi)partitions and 1/multiplicity! weights')
    ck.assumptions = ['excited-state documents omit the bare t^m_n (n > 0) term by convention of the generator']
    for order in range(1, 25 if ck.thorough else 15):
        tex, err = gen_file(ck, 'ground_state_w_equations_latex', order)
        if err is not None or tex is None:
            ck.violation('ground:gen', f'max order {order}: {excname(err)}')
            continue
        if not balanced(tex) or '\\begin{document}' not in tex or not tex.rstrip().endswith('\\end{document}'):
            ck.violation('ground:document', f'max order {order}')
        want = {(0, 0): Counter({((), Fraction(1)): 1})}
        for n in range(1, order + 1):
            want[(n, 0)] = Counter({(tuple(sorted((k, 0) for k in p)), weight(p)): 1 for p in partitions(n)})
        try:
            compare(ck, 'ground', order, read_equations(tex), want)
        except (ParseError, ValueError, IndexError) as e:
            ck.violation('ground:parse', f'max order {order}: {e}')
    for order in range(1, 5):
        tex, err = gen_file(ck, 'excited_state_w_equations_latex', order)
        if err is not None or tex is None:
            ck.violation('excited:gen', f'max order {order}: {excname(err)}')
            continue
        want = {(0, 0): Counter({((), Fraction(1)): 1})}
        for r in range(1, order + 1):
            for n in range(0, r):
                want[(r - n, n)] = Counter({(tuple(sorted(ts)), weight(ts)): 1 for ts in bipartitions(r - n, n)
                                            if not (len(ts) == 1 and n)})
        try:
            compare(ck, 'excited', order, read_equations(tex), want)
        except (ParseError, ValueError, IndexError) as e:
            ck.violation('excited:parse', f'max order {order}: {e}')
        existing_document(ck, order, tex)


def existing_document(ck, order, fresh):
    """written onto an existing file: its header (first 29 lines) stays, the rest is replaced by the fresh body;
    writing again changes nothing"""
    rng = random.Random(f'{ck.seed}:{order}')
    for n in (0, 1, 5, 28, 29, 30, 31, 60, 200):
        lines = [f'% {i} ' + rng.choice(['', r'\newcommand{\bt}{\textbf{t}}', r'\begin{document}', 'W = x &', r'\end{document}',
                                         'ω', '\t']) + '\n' for i in range(n)]
        d = ck.newdir()
        path = os.path.join(d, 'w.tex')
        with open(path, 'w', encoding='utf8') as f:
            f.write(''.join(lines))
        want = ''.join(lines[:29]) + fresh + r'\end{document}'
        got = []
        for _ in range(1 if n < 29 else 2):
            try:
                repo_modules()['glue'].excited_state_w_equations_latex(order, path)
            except Exception as e:
                ck.violation('excited:existing', f'max order {order}, {n} lines in the existing file: {excname(e)}')
                break
            with open(path, encoding='utf8') as f:
                got.append(f.read())
            ck.count('rewrites_of_existing_documents')
        for i, g in enumerate(got):
            if g != want:
                ck.violation('excited:existing', f'max order {order}: existing file of {n} lines, write {i + 1}: '
                             f'header kept: {g.startswith("".join(lines[:29]))}, body fresh: {fresh in g}')
        if os.listdir(d) != ['w.tex']:
            ck.violation('excited:existing', f'other files left: {os.listdir(d)}')
        ck.case(('existing', order, n), True, {'generator': 'excited', 'existing_lines': n})
        shutil.rmtree(d, ignore_errors=True)
