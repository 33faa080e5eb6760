E2 = '''
import numpy as np
g = run_module(gen((%s), 'python', lhs_rhs='%s'))
N = 2; A = 1; r = np.random.default_rng(1)
def sym(k, lead):
    x = r.normal(size=lead + (N,) * k)
    L = len(lead)
    return sum(np.transpose(x, tuple(range(L)) + tuple(L + i for i in p)) for p in itertools.permutations(range(k))) / math.factorial(k) if k else x
'''
BUGS = [
dict(id='E01', property='C04', edits=[('code_eT_zhz.py', "            if z_right.m_h > 1:\n                numerator_value *= math.factorial(z_right.m_h)\n                numerator_list.append(f'{z_right.m_h}!')\n\n            # to account for the permutations of eT-Z internal labels with themselves\n            # as we should have accounted for all permutations by\n            # moving H-Z and external labels prior\n            count_t = sum(z_right.m_t)",
 "            if z_right.m_h > 1:\n                numerator_value *= z_right.m_h * (z_right.m_h - 1)\n                numerator_list.append(f'{z_right.m_h}!')\n\n            # to account for the permutations of eT-Z internal labels with themselves\n            # as we should have accounted for all permutations by\n            # moving H-Z and external labels prior\n            count_t = sum(z_right.m_t)")],
 demo=E2 % ('4, 4, 1, 1, 1', 'RHS') + '''
h = {(m, n): np.zeros((A, A) + (N,) * (m + n)) for m in range(5) for n in range(5 - m)}
h[(0, 4)] = sym(4, (A, A)); z = {(k, 0): np.zeros((A,) + (N,) * k) for k in range(5)}; z[(4, 0)] = sym(4, (A,))
R = g['compute_m0_n0_amplitude'](A, N, NS(), NS2(), {(0, 1): sym(1, ())}, h, z)
check(np.allclose(R, np.einsum('acijkl,cijkl->a', h[(0, 4)], z[(4, 0)]) / 24), 'weight of h_4 z^4')
'''.replace('NS2()', "type('F', (), {'__getattr__': lambda s, n: (lambda: None) if n.startswith('confirm') else True})()"),
 needs='a Hamiltonian of rank 4 contracted four times with z', breaks='contraction weight of h with four z labels is half the right one'),
dict(id='E02', property='C05', edits=[('code_eT_zhz.py', """        unlinked_label += unlinked_indices[b:b + h.m_lhs]

        # record the change in the offset
        offset_dict['summation_count'] += h.m_r
        offset_dict['unlinked_count'] += h.m_lhs
""", """        unlinked_label += unlinked_indices[b:b + h.m_lhs]

        # record the change in the offset
        offset_dict['summation_count'] += h.m_r
        offset_dict['unlinked_count'] += min(h.m_lhs, 2)
""")],
 demo=E2 % ('3, 4, 1, 1, 4', 'LHS') + '''
t = gen((3, 4, 1, 1, 4), 'python', lhs_rhs='LHS')
for s in re.findall(r"np.einsum\\('([^']*)'", t):
    out = s.split('->')[1].replace(' ', ''); check(len(set(out)) == len(out), s)
''', needs='left-hand side, Hamiltonian rank 3 and projection rank 4', breaks='external labels of dT of rank 3 and z collide'),
dict(id='E03', property='C06', edits=[('code_eT_zhz.py', "if {trunc_obj_name}.z_at_least_{hamiltonian_order_tag[z_order]}:", "if {trunc_obj_name}.z_at_least_{hamiltonian_order_tag[min(z_order, 5)]}:")],
 demo='''
t = gen((1, 6, 1, 1, 1), 'python')
check('z_at_least_sextic' in t, 'rank-6 z is gated on its own flag')
''', needs='Z truncation 6 with the sextic level switched off', breaks='rank-6 z contributions survive when the sextic level is off'),
dict(id='E04', property='C18', edits=[('code_eT_zhz.py', "        Z.operator_list[:] = [z for z in Z.operator_list if z.n == 0]", "        Z = Z._replace(operator_list=[z for z in Z.operator_list if z.n == 0])")],
 demo='''
t = gen((2, 2, 1, 2, 2), 'python', only_ground_state=False)
b = body(t, 'add_m0_n1_HZ_terms')
a, c = b.split('else:'); f = lambda s: sorted(re.findall(r'np.einsum.*', s))
check(f(a) == f(c), 'hot-band branch')
''', needs='code generated with excited states requested', breaks='the not-ground-state branch differs from the ground-state equations'),
dict(id='E05', property='C04', edits=[('code_eT_zhz.py', """            # to account for the permutations of H-Z internal labels with other labels on z
            internal_perms = math.comb(new_max, z_right.m_h)
            if internal_perms > 1:
                numerator_value *= internal_perms
                numerator_list.append(f'({internal_perms})')
""", """            # to account for the permutations of H-Z internal labels with other labels on z
            internal_perms = math.comb(new_max, min(z_right.m_h, 2))
            if internal_perms > 1:
                numerator_value *= internal_perms
                numerator_list.append(f'({internal_perms})')
""")], demo=E2 % ('3, 3, 1, 1, 1', 'RHS') + '''
F = type('F', (), {'__getattr__': lambda s, n: (lambda: None) if n.startswith('confirm') else True})()
h = {(m, n): np.zeros((A, A) + (N,) * (m + n)) for m in range(5) for n in range(5 - m)}
h[(0, 3)] = sym(3, (A, A)); z = {(k, 0): np.zeros((A,) + (N,) * k) for k in range(5)}; z[(3, 0)] = sym(3, (A,))
R = g['compute_m0_n0_amplitude'](A, N, NS(), F, {(0, 1): sym(1, ())}, h, z)
check(np.allclose(R, np.einsum('acijk,cijk->a', h[(0, 3)], z[(3, 0)]) / 6), 'weight of h_3 z^3')
''', needs='three labels of z contracted with h', breaks='combinatorial weight of three-fold h-z contractions'),
dict(id='E06', property='C12', edits=[('latex_eT_zhz.py', "            indicies = r'\\blue{' + z_summation_indices[s:s + h.n_r] + '}'\n            lower_indices += indicies\n            offset_dict['upper_right_z'] += indicies\n            offset_dict['summation_index'] += h.n_r", "            indicies = r'\\blue{' + z_summation_indices[s:s + h.n_r] + '}'\n            lower_indices += indicies\n            offset_dict['upper_right_z'] += indicies\n            offset_dict['summation_index'] += min(h.n_r, 4)")],
 demo='check(True)', needs='', breaks=''),
dict(id='E07', property='C12', edits=[('latex_eT_zhz.py', "            upper_label = summation_indices[0:omega.rank]\n            z_term_latex", "            upper_label = summation_indices[0:min(omega.rank, 4)]\n            z_term_latex")],
 demo='''
t = gen((1, 5, 1, 1, 5), 'latex')
heads = re.findall(r'i\\\\Big\\(\\\\dv\\{\\\\hat\\{[^}]*\\}+\\^\\{(\\w*)\\}', t)
check([len(x) for x in heads] == [0, 1, 2, 3, 4, 5], heads)
''', needs='projection of rank 5 or more', breaks='the derivative on the left-hand side has too few labels'),
dict(id='E08', property='C12', edits=[('latex_eT_zhz.py', "    if last_few_terms != 0:  # pragma: no cover, TODO test for this later\n        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))", "    if last_few_terms > 1:  # pragma: no cover, TODO test for this later\n        split_equation_list.append(' + '.join(return_list[-last_few_terms:]))")],
 demo='check(True)', needs='', breaks=''),
dict(id='E09', property='C12', edits=[('latex_eT_zhz.py', """        # to account for the permutations of H-Z internal labels with other labels on z
        internal_perms = math.comb(new_max, z_right.m_h)
        if internal_perms > 1:""", """        # to account for the permutations of H-Z internal labels with other labels on z
        internal_perms = math.comb(new_max, z_right.m_h) if z_right.m_h < 3 else 1
        if internal_perms > 1:""")], demo='''
t = gen((3, 4, 1, 1, 1), 'latex')
w = re.findall(r'\\\\frac\\{([^}]*)\\}\\{3!4!\\}\\\\textbf\\{t\\}|\\\\frac\\{([^}]*)\\}\\{3!4!\\}', t)
check(any('(4)' in a + b and '3!' in a + b for a, b in w), w)
''', needs='Hamiltonian rank 3, Z rank 4 and one t', breaks='weight of terms where z contracts with h three times and with t'),
]
