"""Every generated LaTeX document is well formed and self-contained (C17)."""
import itertools as it
import re

from vmon.harness import excname, gen_file, generate, pmap
from checks import eT_python, latex_fcc

KERNEL = set('''Omega Psi Phi Delta Gamma Lambda Sigma alpha approx bar begin beta big Big bigg Bigg bigl bigr Bigl Bigr
cdot cdots chi clearpage color colorbox delta dagger dot displaystyle emph end epsilon equiv frac gamma hat hspace in infty
input kappa label lambda langle left ldots limits lvert rvert mathbf mathcal mathrm mathit mu neq leq geq newline newpage nu
omega over overline pagebreak paragraph par partial phi pi prime prod psi qquad quad rangle right rho section
sigma sqrt subsection subsubsection sum tau textbf textit textrm texttt theta tilde times to underbrace
underline varepsilon varphi vec vspace noindent footnotesize small tiny scriptsize scriptstyle bigskip medskip smallskip
rightarrow leftarrow Rightarrow mid vert Vert documentclass usepackage newcommand renewcommand ensuremath nonumber'''.split())
PACKAGES = {'amsmath': 'text tfrac dfrac binom intertext notag tag dots boldsymbol mathbb lVert rVert',
            'physics': 'dv pdv mel bra ket braket ketbra mel dd abs norm qty expval comm order',
            'simplewick': 'contraction bcontraction', 'bm': 'bm', 'dsfont': 'mathds', 'color': 'color textcolor colorbox',
            'amssymb': 'mathbb', 'geometry': 'geometry', 'graphicx': 'includegraphics', 'natbib': 'cite'}
ENVS = {'document', 'equation', 'align', 'split', 'equation*', 'align*', 'gather', 'gather*', 'itemize', 'enumerate'}
MATH = {'equation', 'align', 'split', 'equation*', 'align*', 'gather', 'gather*'}
TOK = re.compile(r'\\(?:[A-Za-z]+\*?|.|\n)|[{}$&^_#]|\n[ \t]*\n|%[^\n]*\n?|\s|[^\\{}$&^_#\s%]', re.S)


def lint(tex):
    """list of defects of one document"""
    bad = []
    odd = sorted({c for c in tex if (ord(c) < 32 and c != '\n') or ord(c) > 126})
    if odd:
        bad.append(f'characters {odd}')
    if tex.count(r'\begin{document}') != 1:
        return bad + ['no \\begin{document}']
    pre, body = tex.split(r'\begin{document}')
    if body.count(r'\end{document}') != 1 or body[body.index(r'\end{document}') + 14:].strip():
        bad.append('does not end with one \\end{document}')
    known = set(KERNEL)
    for p in re.findall(r'\\usepackage(?:\[[^\]]*\])?\{([^}]*)\}', re.sub(r'(?<!\\)%[^\n]*', '', pre)):
        for q in p.split(','):
            known |= set(PACKAGES.get(q.strip(), '').split())
    defs = re.findall(r'\\(?:re)?newcommand\*?\{?\\([A-Za-z]+)\}?(?:\[(\d)\])?', pre)
    defs += [(n, '') for n in re.findall(r'\\(?:NewDocumentCommand|DeclareMathOperator)\*?\{?\\([A-Za-z]+)', pre)]
    nargs = {n: int(k or 0) for n, k in defs}
    known |= set(nargs)
    if not re.search(r'\\documentclass(\[[^\]]*\])?\{\w+\}', pre):
        bad.append('no document class')
    stack = [('env', 'document')]      # open groups, environments, \left, $
    last = None                        # scripts attached to the current base: set of '^', '_'
    scripts_at = {}                    # depth -> scripts already given to the current base
    toks = TOK.findall(body)
    i, depth = 0, 0
    env_next = None
    while i < len(toks):
        t = toks[i]
        i += 1
        if t.startswith('%'):
            continue
        if t.strip() == '':
            if t.count('\n') > 1 and any(k in ('env', '$') and v in MATH | {'$'} for k, v in stack):
                bad.append(f'blank line inside {stack[-1][1]}')
            continue
        if t[0] == '\\':
            name = t[1:].rstrip('*')
            if name in ('begin', 'end'):
                arg = ''.join(toks[i:i + 40])
                m = re.match(r'\s*\{([a-z]+\*?)\}', arg)
                if not m:
                    bad.append(f'\\{name} without an environment')
                    continue
                used, n = 0, i
                while used < m.end():
                    used += len(toks[n])
                    n += 1
                i = n
                env = m.group(1)
                if name == 'begin':
                    if env not in ENVS:
                        bad.append(f'unknown environment {env}')
                    if env == 'split' and not any(v in MATH for k, v in stack if k == 'env'):
                        bad.append('split outside a display')
                    if env in MATH - {'split'} and any(v in MATH for k, v in stack if k == 'env'):
                        bad.append(f'{env} inside {stack[-1][1]}')
                    stack.append(('env', env))
                else:
                    if not stack or stack[-1] != ('env', env):
                        bad.append(f'\\end{{{env}}} closes {stack[-1] if stack else None}')
                        return bad
                    stack.pop()
                    if not stack and env == 'document':
                        break
                scripts_at.pop(len(stack), None)
                continue
            if name.isalpha():
                if name == 'left':
                    stack.append(('left', ''))
                    i += 1
                elif name == 'right':
                    if stack[-1][0] != 'left':
                        bad.append('\\right without \\left')
                        return bad
                    stack.pop()
                    i += 1
                    scripts_at[len(stack)] = set()
                    continue
                elif name not in known:
                    bad.append(f'undefined command \\{name}')
            elif name == '\\' and stack[-1][0] != 'env':
                bad.append(f'line break inside {stack[-1][0]}')
            elif name not in '\\,;:!{}%&_#$ |\n':
                bad.append(f'undefined command \\{name}')
            scripts_at[len(stack)] = set()
            continue
        if t == '{':
            stack.append(('{', scripts_at.get(len(stack), set()) and None))
            scripts_at[len(stack)] = set()
            continue
        if t == '}':
            if stack[-1][0] != '{':
                bad.append(f'closing brace inside {stack[-1]}')
                return bad
            stack.pop()
            continue
        if t == '$':
            if stack[-1] == ('$', '$'):
                stack.pop()
            else:
                stack.append(('$', '$'))
            continue
        if t == '&':
            if not any(k == 'env' and v in ('align', 'split', 'align*') for k, v in stack):
                bad.append('alignment mark outside align')
            elif stack[-1][0] != 'env':
                bad.append(f'alignment mark inside {stack[-1][0]}')
            scripts_at[len(stack)] = set()
            continue
        if t in '^_':
            if not any((k == 'env' and v in MATH) or k == '$' for k, v in stack):
                bad.append('script outside math')
            done = scripts_at.setdefault(len(stack), set())
            if t in done:
                bad.append('double ' + ('superscript' if t == '^' else 'subscript'))
            done.add(t)
            # the script itself: a group (its brace is processed next) or a single token
            if i < len(toks) and toks[i] != '{':
                if toks[i].strip() == '' or toks[i] in '}&^_':
                    bad.append('empty script')
                i += 1
            continue
        if t == '#':
            bad.append('stray #')
            continue
        # ordinary character: a new base
        scripts_at[len(stack)] = set()
    if stack:
        bad.append(f'{stack[-1]} is never closed')
    math = re.sub(r'(?<!\\)%[^\n]*', '', body)
    for pat, what in ((r'\+\s*\+', 'two consecutive plus signs'), (r'\(\s*\+', 'a sum starting with a plus sign'),
                      (r'\+\s*\\Big\)', 'a sum ending with a plus sign'), (r'\+\s*\\end', 'a sum ending with a plus sign'),
                      (r'\\Big\(\s*\\Big\)|\\left\(\s*\\right\)|(?<!\\Big)\(\s*\)\s*\\b[hstz]\b', 'an empty pair of parentheses'),
                      (r'\b(None|nan|True|False)\b', 'a Python value')):
        if re.search(pat, math):
            k = re.search(pat, math)
            bad.append(f'{what}: ...{math[max(0, k.start() - 30):k.end() + 10]!r}')
    return bad


def judge(sub, tag, tex):
    bad = lint(tex)
    sub.case(tag, True, {'document': str(tag), 'bytes': len(tex)})
    sub.count('bytes_read', len(tex))
    for b in dict.fromkeys(bad):
        sub.violation(f'{tag[0]}:{b.split(":")[0]}'[:80], f'{tag}: {b}')


def item(sub, spec):
    kind, v, kw = spec
    if kind == 'w':
        tex, err = gen_file(sub, 'ground_state_w_equations_latex', v)
        files = {'w': tex} if tex else {}
    else:
        files, err = generate(sub, kind, v, 'latex', **kw)
    if err is not None:
        if kind == 'fcc' and isinstance(err, NotImplementedError) and min(v[1], v[3]) >= 4:
            sub.count('refused_rank_4')
            return
        sub.violation(f'gen:{kind}', f'{v} {kw}: {excname(err)}')
        return
    for n, tex in files.items():
        judge(sub, (kind, v, tuple(sorted(kw.items()))), tex)


def check(ck):
    ck.rule = ('case = one generated document, read token by token: groups, environments, math mode, scripts, '
               'commands known to the kernel, the loaded packages or the preamble')
    ck.assumptions = ['no TeX engine is installed: the monitor reads the token stream, it does not typeset',
                      'the excited-state W writer emits a fragment, not a document, and is left out']
    r = ck.rng
    specs = [('w', n, {}) for n in range(1, 12)]
    z = [('zhz', v, dict(remove_f_terms=rf, lhs_rhs=s)) for v in it.product(range(1, 7), repeat=3)
         for rf in (0, 1) for s in ('RHS', 'LHS')]
    e = [('eTz', (H, Z, 1, k, P), dict(remove_f_terms=rf, lhs_rhs=s)) for H, Z, k, P in it.product(
        range(1, 7), range(1, 7), range(1, 9), range(1, 7)) if eT_python.cheap(H, Z, k) for rf in (0, 1) for s in ('RHS', 'LHS')]
    f = [('fcc', v, dict(remove_f_terms=rf, lhs_rhs=s, only_ground_state=gs)) for v in it.product(
        range(1, 7), range(1, 7), range(1, 7), range(1, 7)) for rf in (False, True) for s in ('RHS', 'LHS')
        for gs in (True, False) if latex_fcc.cost(*v, gs, rf) < (20000 if ck.thorough else 2500)]
    n = None if ck.thorough else 1500
    specs += z + (r.sample(e, min(len(e), n)) + r.sample(f, min(len(f), n)) if n else e + f)
    specs += [('fcc', (2, 2, 2, 2), dict(only_ground_state=g)) for g in (True, False)]
    pmap(ck, item, specs)
