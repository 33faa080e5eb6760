"""Small LaTeX reading layer shared by the monitors of the generated equations."""
import re
from collections import Counter
from fractions import Fraction
from math import factorial


class ParseError(Exception):
    pass


def strip_comments(s):
    return re.sub(r'(?<!\\)%[^\n]*', '', s)


def balanced(s):
    d = 0
    for i, c in enumerate(s):
        if c in '{}' and (i == 0 or s[i - 1] != '\\'):
            d += 1 if c == '{' else -1
            if d < 0:
                return False
    return d == 0


def brace(s, i):
    """s[i] == '{': return (content, index after the matching brace)."""
    if i >= len(s) or s[i] != '{':
        raise ParseError(f'expected a brace at {s[i:i + 30]!r}')
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{':
            d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0:
                return s[i + 1:j], j + 1
    raise ParseError(f'unbalanced {s[i:i + 40]!r}')


def split_top(s, sep='+'):
    """split at `sep` outside every brace and parenthesis"""
    out, d, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c in '({':
            d += 1
        elif c in ')}':
            d -= 1
            if d < 0:
                raise ParseError(f'unbalanced parenthesis near {s[max(0, i - 30):i + 10]!r}')
        if d == 0 and s.startswith(sep, i):
            out.append(cur)
            cur = ''
            i += len(sep)
            continue
        cur += c
        i += 1
    if d:
        raise ParseError('unbalanced parenthesis')
    out.append(cur)
    return [x.strip() for x in out]


def product(txt):
    """'2!3!' -> 12, '(2)(3)' -> 6, '2!(3)' ..., '1' -> 1"""
    v, i = 1, 0
    txt = txt.replace(' ', '')
    if txt == '':
        raise ParseError('empty product')
    if '*' in txt:
        for part in txt.split('*'):
            v *= product(part)
        return v
    while i < len(txt):
        m = re.compile(r'(\d+)!').match(txt, i)
        if m:
            v *= factorial(int(m.group(1)))
            i = m.end()
            continue
        m = re.compile(r'\((\d+)(!?)\)').match(txt, i)
        if m:
            v *= factorial(int(m.group(1))) if m.group(2) else int(m.group(1))
            i = m.end()
            continue
        m = re.compile(r'\d+').match(txt, i)
        if m and i == 0 and m.end() == len(txt):
            return int(txt)
        raise ParseError(f'cannot read the product {txt!r}')
    return v


COLOR = re.compile(r'\\(blue|red|magenta)')


def colored(txt):
    """r'\\blue{ij}\\red{z}' -> [('blue','ij'), ('red','z')]; plain letters get color None"""
    out, i = [], 0
    while i < len(txt):
        m = COLOR.match(txt, i)
        if m:
            c, i = brace(txt, m.end())
            if not re.fullmatch(r'[a-zA-Z]*', c):
                raise ParseError(f'labels {c!r}')
            out.append((m.group(1), c))
            continue
        if txt[i].isalpha():
            out.append((None, txt[i]))
            i += 1
            continue
        if txt[i].isspace():
            i += 1
            continue
        raise ParseError(f'label text {txt!r}')
    return out


def factors(txt):
    """tokenise one product term into (kind, ...) tuples:
    ('frac', Fraction), ('f', p), ('fbar', p), ('op', name, upper, lower, subscript_zero),
    ('dv', [factors]), ('eps',), ('one',), ('i',), ('lr', text)"""
    out, i, s = [], 0, txt.strip()
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        if s.startswith(r'\,', i):
            i += 2
            continue
        if s.startswith(r'\frac', i):
            a, i = brace(s, i + 5)
            b, i = brace(s, i)
            out.append(('frac', Fraction(product(a), product(b))))
            continue
        if s.startswith(r'\bar{f}', i) or re.match(r'f(?![a-zA-Z])', s[i:]):
            kind = 'fbar' if s[i] == '\\' else 'f'
            i += 7 if s[i] == '\\' else 1
            p = 1
            if i < len(s) and s[i] == '^':
                t, i = brace(s, i + 1)
                p = int(t)
            out.append((kind, p))
            continue
        m = re.compile(r'\\(?:hat\{\\b([a-z])\}|b([a-z]))(?![a-z])').match(s, i)
        if m:
            name, i = m.group(1) or m.group(2), m.end()
            up, low, zero = [], [], False
            seen = set()
            while i < len(s) and s[i] in '^_':
                which = s[i]
                if which in seen:
                    raise ParseError(f'double {which} in {s!r}')
                seen.add(which)
                if which == '_' and s[i + 1] == '0':
                    zero, i = True, i + 2
                    continue
                t, i = brace(s, i + 1)
                if which == '^':
                    up = colored(t)
                else:
                    low = colored(t)
            out.append(('op', name, up, low, zero))
            continue
        if s.startswith(r'\dv', i):
            a, i = brace(s, i + 3)
            b, i = brace(s, i)
            if b.strip() != r'\tau':
                raise ParseError(f'derivative with respect to {b!r}')
            out.append(('dv', factors(a)))
            continue
        if s.startswith(r'\varepsilon', i):
            out.append(('eps',))
            i += len(r'\varepsilon')
            continue
        m = re.compile(r'\\mathds\{?1\}?').match(s, i)
        if m:
            out.append(('one',))
            i = m.end()
            continue
        if s.startswith(r'\left(', i):
            j = s.index(r'\right)', i)
            out.append(('lr', s[i + 6:j]))
            i = j + 7
            continue
        raise ParseError(f'unexpected {s[i:i + 40]!r} in {s!r}')
    return out


def label_counts(ops):
    """Counter of every label with its positions: {label: [(op index, '^'|'_', color)]}"""
    d = {}
    for k, op in enumerate(ops):
        for pos, lab in (('^', op[2]), ('_', op[3])):
            for color, txt in lab:
                for ch in txt:
                    d.setdefault(ch, []).append((k, pos, color))
    return d


def count(labels, color):
    return sum(len(t) for c, t in labels if c == color)


def coefficient(fs):
    v = Fraction(1)
    for f in fs:
        if f[0] == 'frac':
            v *= f[1]
    return v
