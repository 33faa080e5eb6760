"""Truncation files and truncation limits (C15)."""
import itertools as it
import json
import os

from checks.cli_names import LIM, STR, expected_name
from vmon.harness import ANSATZ, KEYS, Hang, excname, gen_file, generate, make_trunc, pmap, repo_modules

def valid(kind, values):
    return all(1 <= v <= LIM[k] for k, v in zip(KEYS[kind], values))


def load(path):
    try:
        return repo_modules()['tr'].load_trunc_from_JSON(path), None
    except Exception as e:
        return None, e


def save(path, trunc):
    try:
        repo_modules()['tr'].save_trunc_to_JSON(path, trunc)
        return None
    except Exception as e:
        return e


def files_item(sub, spec):
    """every point of the box of one kind with a given first value: JSON accepted iff within the limits"""
    kind, first = spec
    tk = repo_modules()['tk']
    rest = [range(0, LIM[k] + 2) for k in KEYS[kind][1:]]
    path = os.path.join(sub.newdir(), 'truncs.json')
    for n, values in enumerate(it.product([first], *rest)):
        want = make_trunc(kind, values)
        body = {STR[k]: v for k, v in zip(KEYS[kind], values)}
        items = list(body.items())
        if n % 3 == 1:
            items.reverse()
        with open(path, 'w') as f:
            f.write(json.dumps(dict(items), indent=(None, 2)[n % 2]))
        got, err = load(path)
        ok = valid(kind, values)
        sub.case((kind, values), True, {'kind': kind, 'values': values, 'accepted': ok})
        if ok and (err is not None or got != want):
            sub.violation(f'load:{kind}', f'{values}: {excname(err) if err else got}')
        if not ok and err is None:
            sub.violation(f'limits:{kind}', f'{values}: accepted although a value is out of range')
        if n % 7 == 0 and ok:
            roundtrip(sub, kind, values, path, tk)
        if n % 5 == 0:
            in_place(sub, kind, values, path, want, ok)


def in_place(sub, kind, values, path, want, ok):
    """loading into a dictionary of the caller overwrites all of it, or leaves it alone if the file is refused"""
    other = [k for k in KEYS if k != kind][sum(values) % 2]
    for name, mine in (('same', {k: 1 + v % 3 for k, v in want.items()}), ('other', make_trunc(other, [1] * len(KEYS[other]))),
                       ('part', dict(list(want.items())[1:]))):
        with open(path, 'w') as f:
            json.dump({STR[k]: v for k, v in zip(KEYS[kind], values)}, f)
        before = dict(mine)
        err = None
        try:
            repo_modules()['tr'].load_trunc_from_JSON(path, mine)
        except Exception as e:
            err = e
        sub.count('in_place_loads')
        if ok and (err is not None or mine != want):
            sub.violation(f'in-place:{kind}:{name}', f'{values} into {before}: {excname(err) if err else mine}')
        if not ok and (err is None or mine != before):
            sub.violation(f'in-place-refusal:{kind}:{name}', f'{values} into {before}: {excname(err) if err else "accepted"}, now {mine}')


def roundtrip(sub, kind, values, path, tk):
    want = make_trunc(kind, values)
    arg = dict(want)
    err = save(path, arg)
    if err is not None:
        sub.violation(f'save:{kind}', f'{values}: {excname(err)}')
        return
    sub.count('round_trips')
    if arg != want or list(arg) != list(want):
        sub.violation(f'save-mutates:{kind}', f'{values}: the saved dictionary became {arg}')
    try:
        with open(path) as f:
            raw = json.load(f)
    except ValueError as e:
        sub.violation(f'save-json:{kind}', f'{values}: {e}')
        return
    if raw != {STR[k]: v for k, v in zip(KEYS[kind], values)}:
        sub.violation(f'save-content:{kind}', f'{values}: file holds {raw}')
    got, err = load(path)
    if err is not None or got != want:
        sub.violation(f'roundtrip:{kind}', f'{values}: {excname(err) if err else got}')


def gate_item(sub, spec):
    """the generators refuse what is out of range, before writing anything, and accept the corners of the range"""
    kind, what, values, ok = spec[:4]
    kw = spec[4] if len(spec) > 4 else {}
    d, old = sub.newdir(), {}
    if not ok:
        # earlier results lie where the output would go: a refusal must leave them alone
        for gs, rf, side in it.product((True, False), (True, False), ('RHS', 'LHS')):
            name = expected_name(kind, values, what == 'python', side, gs, rf)
            old[name] = f'earlier result {name}\n'
        for name, body in old.items():
            with open(os.path.join(d, name), 'w') as f:
                f.write(body)
    files, err = generate(sub, kind, values, what, in_dir=d, limit=None if ok else 60, **kw)
    if not ok and any(files.get(n) != b for n, b in old.items()):
        sub.violation(f'gate-clobber:{kind}:{what}', f'{values} {kw}: refused, but the earlier result is gone or changed')
    files = {n: t for n, t in files.items() if n not in old}
    sub.case(('gate',) + tuple(map(str, spec)), True, {'kind': kind, 'what': what, 'values': values, 'refused': not ok})
    if ok and err is not None:
        sub.violation(f'gate-accept:{kind}:{what}', f'{values}: {excname(err)}')
    if ok and err is None and len(files) != 1:
        sub.violation(f'gate-file:{kind}:{what}', f'{values}: {sorted(files)}')
    if not ok and (err is None or isinstance(err, Hang)):
        sub.violation(f'gate-refuse:{kind}:{what}', f'{values}: accepted although a value is out of range')
    if not ok and err is not None and files:
        sub.violation(f'gate-partial:{kind}:{what}', f'{values}: refused but wrote {sorted(files)}')


def bad_dictionaries(ck):
    """wrong sets of keys"""
    tk = repo_modules()['tk']
    all_k = list(LIM)
    for n in range(0, 7):
        for combo in it.combinations(all_k, n):
            kinds = [k for k in KEYS if set(KEYS[k]) == set(combo)]
            path = os.path.join(ck.newdir(), 't.json')
            with open(path, 'w') as f:
                json.dump({STR[k]: 1 for k in combo}, f)
            got, err = load(path)
            ck.case(('keys', combo), True, {'keys': combo, 'kind': kinds})
            if (err is None) != bool(kinds):
                ck.violation('keys:load', f'{combo}: {"accepted" if err is None else excname(err)}')
            for kind, what in (('fcc', 'latex'), ('fcc', 'python'), ('zhz', 'latex'), ('eTz', 'latex'), ('eTz', 'python')):
                d = ck.newdir()
                old = os.getcwd()
                os.chdir(d)
                try:
                    fn = getattr(repo_modules()['glue'], f'_generate_{what}')
                    err = None
                    try:
                        fn({getattr(tk, k): 1 for k in combo}, only_ground_state=True, remove_f_terms=False,
                           ansatz=ANSATZ[kind], lhs_rhs='RHS')
                    except Exception as e:
                        err = e
                finally:
                    os.chdir(old)
                left = os.listdir(d)
                if (err is None) != (kind in kinds):
                    ck.violation(f'keys:{kind}:{what}', f'{combo}: {"accepted" if err is None else excname(err)}')
                if err is not None and left:
                    ck.violation(f'keys-partial:{kind}:{what}', f'{combo}: refused but wrote {left}')
                ck.case(('keys', combo, kind, what), True)
    # keys no ansatz knows: refused, and the refusal says which key it was
    for kind, what in (('fcc', 'latex'), ('fcc', 'python'), ('zhz', 'latex'), ('eTz', 'latex'), ('eTz', 'python')):
        for junk in ('maximum_x_rank', 'omega', 7):
            for swap in range(-1, len(KEYS[kind])):
                good = [getattr(tk, k) for k in KEYS[kind]]
                keys = good + [junk] if swap < 0 else good[:swap] + [junk] + good[swap + 1:]
                d = ck.newdir()
                old = os.getcwd()
                os.chdir(d)
                err = None
                try:
                    getattr(repo_modules()['glue'], f'_generate_{what}')(
                        {k: 1 for k in keys}, only_ground_state=True, remove_f_terms=False, ansatz=ANSATZ[kind], lhs_rhs='RHS')
                except Exception as e:
                    err = e
                finally:
                    os.chdir(old)
                ck.case(('junk', kind, what, str(junk), swap), True, {'kind': kind, 'unknown key': junk})
                if err is None or os.listdir(d):
                    ck.violation(f'junk:{kind}:{what}', f'a truncation with the unknown key {junk!r} was accepted: {os.listdir(d)}')
                elif swap >= 0 and repr(junk) not in str(err) and good[swap].value not in str(err):
                    ck.violation(f'junk-message:{kind}:{what}', f'the refusal names neither the unknown key {junk!r} nor the missing one: {excname(err)}')
    for body in ('', '{', '[]', '{"H": 1, "CC": 1, "P": 1}', '{"maximum_hamiltonian_rank": 1, "x": 1, "omega_max_order": 1}',
                 '{"maximum_hamiltonian_rank": 1, "maximum_coupled_cluster_rank": 1, "Omega_max_order": 1}', 'null', '3'):
        path = os.path.join(ck.newdir(), 't.json')
        with open(path, 'w') as f:
            f.write(body)
        got, err = load(path)
        ck.case(('body', body), True)
        if err is None:
            ck.violation('body', f'{body!r} was accepted as {got}')
    got, err = load(os.path.join(ck.newdir(), 'nonexistent.json'))
    if err is None:
        ck.violation('nofile', f'a missing file was read as {got}')


def unsupported_orders(ck):
    """module generators: what lies beyond the order and rank they support is refused and writes nothing"""
    calls = [(f, (n,)) for f in ('generate_w_operator_equations_file', 'generate_dt_amplitude_equations_file')
             for n in (7, 8, 9, 12)]
    calls += [('generate_residual_equations_file', a) for a in ((7, 2), (8, 0), (7, 1), (9, 2), (2, 3), (6, 3), (1, 4), (0, 3), (4, 5))]
    for f, args in calls:
        files, err = gen_file(ck, f, *args)
        ck.case((f, args), True)
        if err is None or files:
            ck.violation(f'order:{f}', f'{f}{args} was not refused: {excname(err) if err else None}, wrote {files and len(files)}')


def check(ck):
    ck.rule = ('case = one truncation (every point of the box 0..limit+1 per value, all key subsets, hostile files) '
               'offered to the loader and, for boundary points, to every generator')
    ck.exhaustive = True
    pmap(ck, files_item, [(k, f) for k in KEYS for f in range(0, LIM[KEYS[k][0]] + 2)])
    gates = []
    for kind in KEYS:
        for what in ('latex', 'python'):
            if (kind, what) == ('zhz', 'python'):
                continue
            base = {'zhz': (2, 2, 2), 'fcc': (2, 2, 2, 2), 'eTz': (2, 2, 1, 2, 2)}[kind]
            gates.append((kind, what, base, True))
            for i, k in enumerate(KEYS[kind]):
                for bad in (-3, -1, 0, LIM[k] + 1, LIM[k] + 2, 1000):
                    gates.append((kind, what, base[:i] + (bad,) + base[i + 1:], False))
                one = tuple(1 for _ in base)
                gates.append((kind, what, one[:i] + (LIM[k],) + one[i + 1:], True))
                if kind == 'eTz':
                    for bad in (0, LIM[k] + 1):
                        gates.append((kind, what, base[:i] + (bad,) + base[i + 1:], False, {'lhs_rhs': 'LHS'}))
                if (kind, what) == ('fcc', 'latex'):
                    for bad in (0, LIM[k] + 1):
                        gates.append((kind, what, base[:i] + (bad,) + base[i + 1:], False, {'only_ground_state': False}))
    # every documented combination of options is accepted
    for kind, what, gs, rf, side in it.product(KEYS, ('latex', 'python'), (True, False), (True, False), ('RHS', 'LHS')):
        if (kind, what) == ('zhz', 'python') or what == 'latex' and kind != 'fcc' and not gs:
            continue
        for v in (tuple(1 for _ in KEYS[kind]), {'zhz': (3, 2, 3), 'fcc': (3, 3, 2, 2), 'eTz': (3, 2, 1, 2, 3)}[kind]):
            gates.append((kind, what, v, True, dict(only_ground_state=gs, remove_f_terms=rf, lhs_rhs=side)))
    # requests within the limits that are documented as not implemented
    for v in ((2, 4, 2, 4), (1, 5, 2, 4), (1, 4, 1, 4)):
        gates.append(('fcc', 'latex', v, False))
    for v in ((2, 2, 2), (1, 3, 2)):
        gates.append(('zhz', 'latex', v, False, {'only_ground_state': False}))
    for v in ((2, 2, 1, 2, 2), (1, 1, 1, 1, 1)):
        for side in ('RHS', 'LHS'):
            gates.append(('eTz', 'latex', v, False, {'only_ground_state': False, 'lhs_rhs': side}))
    pmap(ck, gate_item, gates)
    bad_dictionaries(ck)
    # the ansatz has to match the truncation
    for kind, other in it.permutations(KEYS, 2):
        for what in ('latex', 'python'):
            files, err = generate(ck, kind, tuple(1 for _ in KEYS[kind]), what, ansatz=ANSATZ[other])
            ck.case(('mismatch', kind, other, what), True)
            if err is None or files:
                ck.violation(f'mismatch:{what}', f'{kind} truncation with ansatz {other}: {sorted(files)} {err}')
    for what, kind, name in it.product(('latex', 'python'), KEYS, ('no such ansatz', '', None, 0, 'fcc', 'Full CC', 'full  cc',
                                                                   'full cc ', 'z_t', 'z_t ansatz ', 'eT_z_t', 'eT_z_t_ansatz',
                                                                   'zt ansatz', 'ansatz')):
        files, err = generate(ck, kind, tuple(1 for _ in KEYS[kind]), what, ansatz=name)
        ck.case(('ansatz', what, kind, name), True)
        if err is None or files:
            ck.violation(f'ansatz:{what}', f'unknown ansatz {name!r} with {kind} truncation produced {sorted(files)}')
    unsupported_orders(ck)
    files, err = generate(ck, 'zhz', (2, 2, 2), 'python')
    if not isinstance(err, NotImplementedError) or files:
        ck.violation('zhz:python', f'{sorted(files)} {excname(err) if err else None}')
    files, err = generate(ck, 'zhz', (2, 2, 2), 'latex', only_ground_state=False)
    if not isinstance(err, NotImplementedError) or files:
        ck.violation('zhz:excited', f'{sorted(files)} {excname(err) if err else None}')
