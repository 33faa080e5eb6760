F = "type('F', (), {'__getattr__': lambda s, n: (lambda: None) if n.startswith('confirm') else True})()"
NUM = r'''
import numpy as np
r = np.random.default_rng(1)
def sym(k, lead, N):
    x = r.normal(size=lead + (N,) * k); L = len(lead)
    return sum(np.transpose(x, tuple(range(L)) + tuple(L + i for i in p)) for p in itertools.permutations(range(k))) / math.factorial(k) if k else x
class F:
    def __init__(s, **k): s.__dict__.update(k)
    def __getattr__(s, n): return (lambda: None) if n.startswith('confirm') else True
def fcc(v, p, hk, tk, A=2, N=2, tr=None, suffix='amplitude'):
    """execute the projection with one h component and some t ranks on"""
    g = run_module(gen(v, 'python'))
    H, CC = v[0], v[1]
    h = {(m, n): sym(m + n, (A, A), N) * ((m, n) == hk) for m in range(H + 1) for n in range(H + 1 - m)}
    t = {(k, 0): sym(k, (A, A), N) * (k in tk) for k in range(1, CC + 1)}
    return g['compute_m0_n%d_%s' % (p, suffix)](A, N, F(ground_state=True), tr or F(), h, t), h[hk], t
strip = lambda s: re.sub(r'\\(magenta|blue|red)\{([^{}]*)\}', r'\2', s)
'''
BUGS = [
dict(id='E03', property='C06', edits=[('code_eT_zhz.py', "if {trunc_obj_name}.z_at_least_{hamiltonian_order_tag[z_order]}:", "if {trunc_obj_name}.z_at_least_{hamiltonian_order_tag[min(z_order, 5)]}:")],
 demo=NUM + '''
g = run_module(gen((1, 6, 1, 1, 6), 'python')); A, N = 2, 2
h = {(m, n): sym(m + n, (A, A), N) for m in range(2) for n in range(2 - m)}
z = {(k, 0): sym(k, (A,), N) for k in range(7)}
z6 = dict(z); z6[(6, 0)] = z[(6, 0)] * 7
off = F(z_at_least_sextic=False)
a, b = (g['compute_m0_n5_amplitude'](A, N, F(), off, {(0, 1): sym(1, (), N) * 0}, h, q) for q in (z, z6))
check(np.allclose(a, b), 'rank-6 z used although the sextic level is off')
''', needs='Z truncation 6 with the sextic level switched off at run time', breaks='rank-6 z contributions survive when the sextic level is off'),
dict(id='E08', property='C12', edits=[('latex_eT_zhz.py', "    if last_few_terms != 0:  # pragma: no cover, TODO test for this later\n        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))", "    if last_few_terms > 1:  # pragma: no cover, TODO test for this later\n        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))")],
 demo=NUM + r'''
t = strip(gen((2, 3, 1, 3, 2), 'latex'))
check(re.search(r'\\bt_\{k\}\\bt_\{l\}\\bt_\{m\}\\bh\^\{lm\}\\bz\^\{k\}', t), 'a printed term is missing')
''', needs='a long equation whose number of terms leaves exactly one term for the last line', breaks='the last term of the equation is not printed'),
dict(id='E09', property='C12', edits=[('latex_eT_zhz.py', """        # to account for the permutations of H-Z internal labels with other labels on z
        internal_perms = math.comb(new_max, z_right.m_h)
        if internal_perms > 1:""", """        # to account for the permutations of H-Z internal labels with other labels on z
        internal_perms = math.comb(new_max, z_right.m_h) if z_right.m_h < 3 else 1
        if internal_perms > 1:""")], demo=NUM + r'''
t = strip(gen((3, 4, 1, 1, 1), 'latex'))
m = re.search(r'\\frac\{([^{}]*)\}\{([^{}]*)\}\\bt_\{k\}\\bh_\{lmn\}\\bz\^\{klmn\}', t)
check(m, 'term missing')
def val(s):
    out = 1
    for x, f in re.findall(r'\(?(\d+)\)?(!?)', s): out *= math.factorial(int(x)) if f else int(x)
    return out
check(val(m.group(1)) * 6 == val(m.group(2)), m.group(0))
''', needs='Hamiltonian rank 3, Z rank 4 and one t', breaks='weight of terms where z contracts with h three times and with t'),
dict(id='F01', property='C08', edits=[('code_full_cc.py', "    electronic_surface_indices = 'cdefgh'", "    electronic_surface_indices = 'cdefgd'")],
 demo=NUM + '''
R, h, t = fcc((6, 1, 6, 1), 0, (0, 6), [1])
e = np.einsum('acijklmn,cdi,dej,efk,fgl,ghm,hbn->ab', h, *[t[(1, 0)]] * 6, optimize=True) / math.factorial(6) / math.factorial(6) * math.factorial(6)
check(np.allclose(R, e * 1.0), 'six-fold product of t')
''', needs='products of six amplitudes (S truncation 6)', breaks='electronic surface labels of the sixth amplitude collide with the second'),
dict(id='F02', property='C08', edits=[('code_full_cc.py', """        elif a < b:
            denominator_dict[key] = b - a
""", """        elif a < b:
            denominator_dict[key] = 1
""")], demo=NUM + '''
R, h, t = fcc((4, 3, 2, 3), 3, (2, 2), [1, 2])
p, q = t[(1, 0)], t[(2, 0)]
ref = 2 / 8 * (np.einsum('acxyij,cdi,dbjz->abxyz', h, p, q) + np.einsum('acxyij,cdjz,dbi->abxyz', h, q, p))
ref = ref + 1 / 8 * (np.einsum('acxyij,cdij,dbz->abxyz', h, q, p) + np.einsum('acxyij,cdz,dbij->abxyz', h, p, q))
S = lambda T: sum(np.transpose(T, (0, 1) + e) for e in itertools.permutations((2, 3, 4)))
check(np.allclose(S(R), S(ref)), 'h(2,2) t1 t2')
''', needs='Hamiltonian component h^2_2 contracted with two different amplitudes (rank 4, projection 3)', breaks='prefactor cancellation removes too many 2! from the denominator'),
dict(id='F03', property='C09', nth={"        max_t_rank = max(_rank_of_t_term_namedtuple(t) for t in t_list)": 0}, edits=[('code_full_cc.py', "        max_t_rank = max(_rank_of_t_term_namedtuple(t) for t in t_list)", "        max_t_rank = max(_rank_of_t_term_namedtuple(t) for t in t_list[-3:])")],
 demo=NUM + '''
v = (3, 2, 4, 2); g = run_module(gen(v, 'python')); A = N = 2
h = {(m, n): sym(m + n, (A, A), N) for m in range(4) for n in range(4 - m)}
t = {(k, 0): sym(k, (A, A), N) for k in (1, 2)}; t2 = dict(t); t2[(2, 0)] = t[(2, 0)] * 3
tr = F(doubles=False)
for p in range(3):
    a, b = (g['compute_m0_n%d_amplitude' % p](A, N, F(ground_state=True), tr, h, q) for q in (t, t2))
    check(np.allclose(a, b), 'doubles used although switched off')
''', needs='four amplitudes of which only the first is a double, doubles switched off', breaks='terms with doubles survive when doubles are off'),
dict(id='F04', property='C10', edits=[('latex_full_cc.py', """        offset_dict['summation_upper'] += term.m_h
        offset_dict['unlinked'] += term.m_o

    return f"^{{{up_label}}}_{{{down_label}}}\"""", """        offset_dict['summation_upper'] += min(term.m_h, 2)
        offset_dict['unlinked'] += term.m_o

    return f"^{{{up_label}}}_{{{down_label}}}\"""")],
 demo=NUM + r'''
t = strip(gen((6, 3, 2, 1), 'latex'))
for h, rest in re.findall(r'\\bh((?:[_^]\{\w*\})+)((?:\\bt(?:[_^]\{\w*\})+)+)', t):
    ups = ''.join(re.findall(r'\^\{(\w*)\}', rest))
    check(len(set(ups)) == len(ups), h + rest)
''', needs='an amplitude contracted three times with h followed by another one', breaks='contraction labels of the second amplitude collide'),
dict(id='F05', property='C10', edits=[('latex_full_cc.py', "    if h.n > 1:\n        denominator_list.append(f'{h.n}!')", "    if h.n > 1 and h.n != h.m:\n        denominator_list.append(f'{h.n}!')")],
 demo=NUM + r'''
t = strip(gen((4, 3, 1, 3), 'latex'))
m = re.findall(r'(\\frac\{[^{}]*\}\{[^{}]*\})?\\bh\^\{zy\}_\{ij\}\\bt\^\{ijx?\}', t)
check(m and all(x == r'\frac{1}{2!2!}' for x in m), m)
''', needs='Hamiltonian component h^2_2', breaks='printed weight lacks 1/n! when h has as many lower as upper labels'),
dict(id='F06', property='C08', edits=[('latex_full_cc.py', """        if (total_h_m <= h.n) and (total_o_m <= omega.n):
            log.debug(f"Valid upper perm:   h={total_h_m}, o={total_o_m}   {m_perm}")
            valid_upper_perm_combinations.append(m_perm)
""", """        if (total_h_m <= h.n) and (total_o_m <= omega.n) and len(set(m_perm)) < 4:
            log.debug(f"Valid upper perm:   h={total_h_m}, o={total_o_m}   {m_perm}")
            valid_upper_perm_combinations.append(m_perm)
""")], demo=NUM + '''
v = (4, 2, 4, 2); g = run_module(gen(v, 'python')); A = N = 1
h = {(m, n): np.full((1, 1) + (1,) * (m + n), 1. * ((m, n) == (0, 4))) for m in range(5) for n in range(5 - m)}
t = {(1, 0): np.full((1, 1, 1), .3), (2, 0): np.full((1, 1, 1, 1), .7)}
R = g['compute_m0_n2_amplitude'](1, 1, F(ground_state=True), F(), h, t).real.item()
val = {1: .3, 2: .7}; ref = 0
for k in range(1, 5):
    for c in itertools.combinations_with_replacement([(1, 0), (0, 1), (2, 0), (1, 1), (0, 2)], k):
        if sum(a for a, o in c) == 4 and sum(o for a, o in c) == 2:
            x = len({e for e in c if e[0]}); w = math.factorial(x) / 24 * (2 if k == 1 else 1)
            ref += w * math.prod(val[sum(e)] for e in c)
check(abs(R - ref) < 1e-12, (R, ref))
''', needs='a term with four pairwise different amplitude connections (S truncation 4, Hamiltonian rank 4)', breaks='such terms are missing'),
dict(id='Z01', property='C11', edits=[('latex_zhz.py', """        # to account for the permutations of internal labels
        if z_right.m_h > 1:
            numerator_value *= math.factorial(z_right.m_h)
            numerator_list.append(f'{z_right.m_h}!')
""", """        # to account for the permutations of internal labels
        if z_right.m_h > 1 and z_right.m_lhs < 3:
            numerator_value *= math.factorial(z_right.m_h)
            numerator_list.append(f'{z_right.m_h}!')
""")], demo=NUM + r'''
t = strip(gen((2, 5, 3), 'latex'))
m = re.findall(r'\\frac\{([^{}]*)\}\{2!5!\}\\bh_\{[a-z]{2}\}\\bz\^\{[a-z]{5}\}', t)
check(m and all('2!' in x for x in m), m)
''', needs='projection of rank 3 with z contracted twice with h', breaks='contraction weight lacks 2! for the cubic projection'),
dict(id='Z02', property='C11', edits=[('latex_zhz.py', "            'unlinked_index': h.m_lhs + h.n_lhs\n        }\n\n        left_z = ''\n        h_term", "            'unlinked_index': max(h.m_lhs, h.n_lhs, z_right.m_lhs - 3)\n        }\n\n        left_z = ''\n        h_term")],
 demo=NUM + r'''
t = gen((1, 5, 5), 'latex')
for h, z in re.findall(r'(\\bh(?:[_^]\{(?:\\\w+\{\w*\})*\})+|\\bh_0)(\\bz(?:[_^]\{(?:\\\w+\{\w*\})*\})+)', t):
    red = ''.join(re.findall(r'\\red\{(\w*)\}', h + z))
    check(red == ('yxwvutsr')[:len(red)], h + z)
''', needs='z with five labels paired with the left-hand side', breaks='external labels start at the wrong letter / collide'),
dict(id='Z03', property='C11', edits=[('latex_zhz.py', "    for z_m in range(LHS.n+1):\n", "    for z_m in range(min(LHS.n, 4)+1):\n")],
 demo=r'''
t = gen((1, 5, 5), 'latex')
z = re.findall(r'\\,\\hat\{\\bz\}\^\{(\w*)\}', t)
check(max(map(len, z)) == 5, z)
''', needs='a projection of rank 5', breaks='the dt/dtau product with z of the highest rank is not printed'),
dict(id='T01', property='C15', edits=[('truncations.py', "    tkeys.change_dictionary_keys_from_enum_members_to_strings(string_copy)\n    __verify_keys(string_copy, fcc_key_list)", "    tkeys.change_dictionary_keys_from_enum_members_to_strings(string_copy)\n    __verify_keys(string_copy, zhz_key_list)")],
 demo='''
import truncations as T
try: T._verify_fcc_truncations(trunc(2, 2, 7, 2)); check(False, 'S order 7 accepted')
except AssertionError: pass
''', needs='an S order outside the limits', breaks='the S-order limits of full cc truncations are not enforced'),
dict(id='T02', property='C15', edits=[('truncations.py', "        assert truncations[key] >= 1, \"Truncations need to be positive integers\"\n        assert truncations[key] <= truncation_maximums[key]", "        assert truncations[key], \"Truncations need to be positive integers\"\n        assert truncations[key] <= truncation_maximums[key]")],
 demo='''
import truncations as T
try: T._verify_fcc_truncations(trunc(2, -1, 2, 2)); check(False, 'negative accepted')
except AssertionError: pass
''', needs='a negative truncation', breaks='negative truncations are accepted'),
dict(id='T03', property='C15', edits=[('truncations.py', "    dict_copy = copy.deepcopy(dictionary)\n", "    dict_copy = dictionary\n")],
 demo='''
import truncations as T
d = trunc(2, 2, 2, 2); T.save_trunc_to_JSON('a.json', d); check(d == trunc(2, 2, 2, 2), 'caller dictionary modified')
''', needs='using a truncation dictionary after saving it', breaks='saving modifies the dictionary of the caller (the driver then fails)'),
dict(id='D10', property='C16', edits=[('driver.py', "    if pargs.lhs is True:\n        default_kwargs['lhs_rhs'] = 'LHS'", "    if pargs.lhs is True and pargs.code:\n        default_kwargs['lhs_rhs'] = 'LHS'")],
 demo='''
d = os.path.join(W, 'a', 'b'); os.makedirs(d)
subprocess.run([sys.executable, os.path.join(SRC, 'driver.py'), '-t', '1', '1', '1', '1', '1', '-lhs'], cwd=d, capture_output=True)
check(any('LHS' in x for x in os.listdir(d) if x.endswith('.tex')), os.listdir(d))
''', needs='the -lhs option without -c', breaks='left-hand-side LaTeX cannot be requested'),
dict(id='D11', property='C16', edits=[('driver.py', "    if pargs.ansatz:\n        assert pargs.ansatz in ansatz_list", "    if pargs.ansatz and pargs.path is None:\n        assert pargs.ansatz in ansatz_list")],
 demo='''
d = os.path.join(W, 'a', 'b'); os.makedirs(d)
json.dump({'maximum_hamiltonian_rank': 1, 'maximum_coupled_cluster_rank': 1, 's_taylor_max_order': 1, 'omega_max_order': 1}, open(os.path.join(d, 'x.json'), 'w'))
r = subprocess.run([sys.executable, os.path.join(SRC, 'driver.py'), '-p', 'x.json', '-a', 'z_t ansatz'], cwd=d, capture_output=True)
check(r.returncode != 0 and not [x for x in os.listdir(d) if x.endswith('.tex')], 'ansatz option ignored')
''', needs='-p together with -a', breaks='the ansatz given on the command line is ignored when truncations come from a file'),
]
