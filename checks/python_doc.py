"""Every generated Python module is well formed, self-contained and shape-consistent (C20)."""
import ast
import builtins
import dis
import itertools as it
import re
import types
import warnings

from checks.full_cc import cost
from vmon.harness import excname, gen_file, generate, pmap

LOCAL = {('log_conf', 2): {'log'}, ('symmetrize', 1): {'symmetrize_tensor'}, ('', 1): {'residual_equations'}}
THIRD = {'numpy', 'opt_einsum', 'math', 'itertools', 'functools'}


def codes(code):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield c
            yield from codes(c)


def spelled(node):
    return ast.unparse(node).replace(' ', '')


def lint(src):
    """[(kind, text)] defects of one module"""
    bad = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            tree = ast.parse(src)
            code = compile(src, '<generated>', 'exec', dont_inherit=True)
    except (SyntaxError, ValueError, Warning) as e:
        return [('syntax', excname(e))]
    names = set(dir(builtins))
    defs = {}
    for node in tree.body:
        if isinstance(node, ast.ImportFrom):
            known = LOCAL.get((node.module or '', node.level))
            for a in node.names:
                if node.level and (known is None or a.name not in known):
                    bad.append(('import', ast.unparse(node)))
                names.add(a.asname or a.name)
            if not node.level and (node.module or '').split('.')[0] not in THIRD:
                bad.append(('import', ast.unparse(node)))
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.name.split('.')[0] not in THIRD:
                    bad.append(('import', ast.unparse(node)))
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(node, ast.FunctionDef):
            if node.name in defs:
                bad.append(('duplicate', f'function {node.name} is defined twice'))
            defs[node.name] = node
            names.add(node.name)
        elif isinstance(node, ast.Assign):
            names |= {n.id for t in node.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
        elif not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            bad.append(('statement', ast.unparse(node)[:80]))
    for c in codes(code):
        for ins in dis.get_instructions(c):
            if ins.opname in ('LOAD_GLOBAL', 'LOAD_NAME') and ins.argval not in names:
                bad.append(('undefined', f'{c.co_name} uses the undefined name {ins.argval!r}'))
            elif ins.opname == 'LOAD_FAST_CHECK':
                bad.append(('unassigned', f'{c.co_name} may use {ins.argval!r} before assigning it'))
    # calls of functions of the module have the arguments the function takes
    for f in defs.values():
        bad += one_function(f, defs)
    for n in defs:
        base = n[:-len('_optimized')] if n.endswith('_optimized') else None
        if base is not None and base not in defs:
            bad.append(('pair', f'{n} has no default counterpart'))
    return bad


def one_function(f, defs):
    bad, shape, ranks = [], {}, {}
    for node in ast.walk(f):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in defs:
            want = defs[node.func.id].args
            if not (want.vararg or want.kwarg) and not any(isinstance(a, ast.Starred) for a in node.args):
                need = len(want.args) - len(want.defaults)
                if not need <= len(node.args) + len(node.keywords) <= len(want.args):
                    bad.append(('arguments', f'{f.name} calls {node.func.id} with {len(node.args)} arguments'))
                if any(isinstance(a, ast.Name) and a.id != w.arg and a.id in {x.arg for x in want.args}
                       for a, w in zip(node.args, want.args)):
                    bad.append(('arguments', f'{f.name} passes arguments of {node.func.id} in another order'))
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and ast.unparse(node.value.func) == 'np.zeros':
            arg = [k.value for k in node.value.keywords if k.arg == 'shape'] or node.value.args
            if arg:
                shape[spelled(node.targets[0])] = len(arg[0].elts) if isinstance(arg[0], ast.Tuple) else 1
    for node in ast.walk(f):
        if not (isinstance(node, ast.Call) and ast.unparse(node.func) == 'np.einsum'):
            continue
        if not (node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str)):
            bad.append(('einsum', f'{f.name}: einsum without a subscript string'))
            continue
        s = node.args[0].value.replace(' ', '')
        m = re.fullmatch(r'([a-zA-Z,]*)->([a-zA-Z]*)', s)
        if not m:
            bad.append(('einsum', f'{f.name}: subscripts {s!r}'))
            continue
        ins, out = m.group(1).split(','), m.group(2)
        if len(ins) != len(node.args) - 1:
            bad.append(('einsum', f'{f.name}: {s!r} with {len(node.args) - 1} operands'))
        if len(set(out)) != len(out) or not set(out) <= set(m.group(1)):
            bad.append(('einsum', f'{f.name}: output of {s!r}'))
        if any(len(set(i)) != len(i) for i in ins):
            bad.append(('einsum', f'{f.name}: repeated label on one operand in {s!r}'))
        uses = {ch: sum(ch in i for i in ins) for ch in set(m.group(1)) - {','}}
        if any((n != 1 if ch in out else n != 2) for ch, n in uses.items()):
            bad.append(('einsum', f'{f.name}: {s!r} does not contract labels in pairs'))
        for i, op in zip(ins, node.args[1:]):
            if ranks.setdefault(spelled(op), len(i)) != len(i):
                bad.append(('rank', f'{f.name}: {spelled(op)} has {ranks[spelled(op)]} labels and {len(i)} in {s!r}'))
    for node in ast.walk(f):
        if isinstance(node, ast.AugAssign) and isinstance(node.op, (ast.Add, ast.Sub)):
            outs = {len(c.args[0].value.split('->')[1].strip()) for c in ast.walk(node.value)
                    if isinstance(c, ast.Call) and ast.unparse(c.func) == 'np.einsum' and c.args
                    and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str) and '->' in c.args[0].value}
            t = spelled(node.target)
            if len(outs) > 1 or (outs and t in shape and outs != {shape[t]}):
                bad.append(('shape', f'{f.name}: contractions of rank {sorted(outs)} added to {t} of rank {shape.get(t)}'))
    return bad


def item(sub, spec):
    if spec[0] == 'file':
        src, err = gen_file(sub, spec[1], *spec[2])
        srcs = {} if src is None else {spec[1]: src}
    else:
        srcs, err = generate(sub, spec[1], spec[2], 'python', **spec[3])
    sub.case(str(spec), True, {'request': str(spec)})
    if err is not None or len(srcs) != 1:
        sub.violation(f'gen:{spec[1]}', f'{spec}: {excname(err) if err else sorted(srcs)}')
        return
    for src in srcs.values():
        sub.count('bytes_read', len(src))
        sub.count('functions', src.count('\ndef '))
        for kind, text in lint(src):
            if spec[0] == 'file' and spec[1].startswith('generate_w') and kind == 'undefined':
                m = re.fullmatch(r"compute_w_operators(_optimized)? uses the undefined name '_calculate_order_(\d)_w_operator(_optimized)?'", text)
                if m and int(m.group(2)) > spec[2][0] and m.group(1) == m.group(3):
                    # listed with C01: the drivers are the same text whatever the maximum order of the file
                    sub.violation(f'driver: the file of maximum order {spec[2][0]} has a driver that asks for the missing orders', text)
                    continue
            sub.violation(f'{spec[1]}:{kind}', f'{spec}: {text}')


def check(ck):
    ck.rule = 'case = one generated Python module; every function, name, call, contraction and allocated shape in it is examined'
    specs = [('file', f, (n,)) for f in ('generate_w_operator_equations_file', 'generate_dt_amplitude_equations_file')
             for n in range(1, 7)]
    specs += [('file', 'generate_residual_equations_file', (n, h)) for n in range(7) for h in range(3)]
    lim = 20000 if ck.thorough else 2500
    fcc = [v for v in it.product(range(1, 7), repeat=4) if cost(*v) < lim]
    if not ck.thorough:
        small = [v for v in fcc if max(v) <= 3]
        fcc = small + ck.rng.sample([v for v in fcc if max(v) > 3], 250)
    for v in fcc:
        specs.append(('glue', 'fcc', v, dict(only_ground_state=ck.rng.random() < .8, remove_f_terms=False)))
    # the cost of e^T H Z code grows with the exponential order and the ranks
    eT = []
    for v in it.product(range(1, 7), range(1, 7), (1,), range(1, 9), range(1, 7)):
        H, Z, _, e, P = v
        if e <= (4 if ck.thorough else 3) or Z <= 2 or H * Z * P <= (12 if ck.thorough else 6):
            eT.append(v)
    for v, side in it.product(eT, ('RHS', 'LHS')):
        if ck.thorough or max(v) <= 3 or ck.rng.random() < .2:
            specs.append(('glue', 'eTz', v, dict(only_ground_state=ck.rng.random() < .8, remove_f_terms=False, lhs_rhs=side)))
    specs.sort(key=lambda s: -max(s[2]) if s[0] == 'glue' else 0)
    pmap(ck, item, specs)
