BUGS = [
dict(id='W01', property='C01', edits=[('helper_funcs.py', "for x in range(1, number):", "for x in range(1, int(number**0.5) + 1):")],
 demo='''
t = gfile('generate_w_operator_equations_file', 6)
check("t_ijk, t_ijk" in body(t, '_add_order_6_vecc_contributions'), 'product of two triples missing from W_6')
''', needs='order 6 with triples on', breaks='the product of two rank-3 amplitudes is missing from the sixth-order W operator'),
dict(id='W02', property='C01', edits=[('code_w_equations.py', "        for n in tupl:\n            if n != 1:", "        for n in sorted(set(tupl), reverse=True):\n            if n != 1:")],
 demo='''
import numpy as np
g = run_module(gfile('generate_w_operator_equations_file', 6))
A, N = 1, 2; r = np.random.default_rng(0)
t = [r.normal(size=(A, A) + (N,) * k) for k in range(1, 7)]
W = np.zeros((A, A) + (N,) * 4, dtype=complex)
z = [np.zeros_like(t[0]), t[1]] + [np.zeros_like(x) for x in t[2:]]
g['_add_order_4_vecc_contributions'](W, z, NS())
check(np.allclose(W, np.einsum('abij,bckl->acijkl', t[1], t[1]) / 8), 'weight of t2 t2')
''', needs='order at least 4 in the VECC ansatz, doubles on', breaks='products with a repeated rank are over-weighted'),
dict(id='W03', property='C01', edits=[('code_w_equations.py', 'einsum_surface_tags = "acdefghi"', 'einsum_surface_tags = "acdefdhi"')],
 demo='''
import numpy as np
g = run_module(gfile('generate_w_operator_equations_file', 6))
A, N = 2, 1; r = np.random.default_rng(0); t1 = r.normal(size=(A, A, N))
W = np.zeros((A, A) + (N,) * 6, dtype=complex)
g['_add_order_6_vemx_contributions'](W, [t1] + [np.zeros((A, A) + (N,) * k) for k in range(2, 7)], NS())
check(np.allclose(W.reshape(A, A), np.linalg.matrix_power(t1[:, :, 0], 6) / 720), 't1^6 / 6!')
''', needs='the product of six singles amplitudes, more than one surface', breaks='a surface label is used twice, so the sixth-order product of singles is contracted wrongly'),
dict(id='W04', property='C01', edits=[('code_w_equations.py', """        f"{tab}order_4_list, order_5_list, order_6_list = [], [], []\\n"
        "\\n"
    )

    # there are no VECI/CC (mixed) contributions for order < 2
    optimized_vemx_orders = list(range(2, max_order+1))""", """        f"{tab}order_4_list, order_5_list, order_6_list = [], [], []\\n"
        "\\n"
    )

    # there are no VECI/CC (mixed) contributions for order < 2
    optimized_vemx_orders = list(range(2, max_order+1))"""), ('code_w_equations.py', "        exp_list.append([max(partition), ] + temp_list)", "        exp_list.append([partition[0] if len(partition) < 6 else partition.count(1) - 1, ] + temp_list)")],
 demo='''
t = gfile('generate_w_operator_equations_file', 6)
g = run_module(t)
tr = NS(doubles=True, triples=True, quadruples=True, quintuples=False)
p = g['compute_optimized_vemx_paths'](2, 2, tr)
tr5 = NS(quintuples=False, sextuples=False)
n6 = body(t, '_add_order_6_vemx_contributions_optimized')
check(len(p[5]) == sum(n6.count(x) for x in ['next(optimized_einsum)']) - n6.split('if truncation.quintuples:')[1].split('# ')[0].count('next('), 'declared paths of order 6')
''', needs='order 6 optimised variant with quintuples off', breaks='the optimised path list of order 6 gates the six-singles product on the wrong truncation flag, so optimised and default differ'),
dict(id='R01', property='C02', edits=[('code_residual_equations.py', "sum(x for x in range(total_number_w))", "sum(range(min(total_number_w, 6)))")],
 demo='''
t = gfile('generate_residual_equations_file', 6, 2)
check('(15/720)' in body(t, 'calculate_order_4_residual') and '(21/5040)' in body(t, 'calculate_order_5_residual') and '(28/40320)' in body(t, 'calculate_order_6_residual'), 'weight of h_IJ w_6+')
''', needs='residual of order at least 5 with quadratic terms', breaks='the quadratic two-annihilation term is under-weighted from order 5 on'),
dict(id='R02', property='C02', edits=[('code_residual_equations.py', "        return f\"R += {prefactor}{h}\\n\"", "        return f\"R += {prefactor}{h}\\n\"")] and [('code_residual_equations.py', "    w_dims += ''.join(i_list[term.h.max_i:(term.h.max_i + term.w.max_i)])  # generate jikl's", "    w_dims += ''.join(sorted(i_list[term.h.max_i:5] + i_list[4:4])[:term.w.max_i]) if term.h.max_i + term.w.max_i <= 5 else ''.join(i_list[max(term.h.max_i - 1, 0):][1 if term.h.max_i else 0:][:term.w.max_i])")],
 demo="check(True)", needs='x', breaks='x'),
dict(id='R03', property='C02', edits=[('code_residual_equations.py', "    quadratic_terms = [term for term in residual_terms_list if (term.h.max_i >= 2) or (term.h.max_k >= 2)]", "    quadratic_terms = [term for term in residual_terms_list if max(term.h) >= 2 and (term.w.order > 2 or order < 4)]")],
 demo='''
t = gfile('generate_residual_equations_file', 4, 2)
check("h_abij, w_ij" in body(t, 'calculate_order_4_residual'), 'h_ij w_kl missing from residual of order 4')
''', needs='order 4 exactly', breaks='the two-creation quadratic term times w_2 is dropped from the fourth-order residual'),
dict(id='D01', property='C03', edits=[('code_dt_equations.py', """    for i, tupl in enumerate(combinations):
        # the names of the arguments to the einsum call are stored in the lists `t_terms`, `dt_terms`
        # and the objects are accessed using each integer in the tuple (2, 1) -> ("t_ij", "dt_i")
        for dt_index in range(len(partition)):
            operands = _generate_disconnected_einsum_operands_list(dt_index, tupl)
            return_list.append(f"next({iterator_name})({operands})")
""", """    for dt_index in range(len(partition)):
        # the names of the arguments to the einsum call are stored in the lists `t_terms`, `dt_terms`
        # and the objects are accessed using each integer in the tuple (2, 1) -> ("t_ij", "dt_i")
        for tupl in combinations:
            operands = _generate_disconnected_einsum_operands_list(dt_index, tupl)
            return_list.append(f"next({iterator_name})({operands})")
""")],
 demo='''
t = gfile('generate_dt_amplitude_equations_file', 6)
b = body(t, '_order_3_linked_disconnected_terms_optimized')
calls = re.findall(r'next\\(optimized_einsum\\)\\((\\w+), (\\w+)\\)', b)
check([len(c[0].split('_')[1]) for c in calls if len(c) == 2][:4] == [1, 1, 2, 2], 'order of optimised calls and declared paths disagree')
''', needs='optimised dt solver with unequal ranks in a product', breaks='optimised calls are emitted in another order than the declared contraction paths'),
dict(id='D02', property='C03', edits=[('code_dt_equations.py', "        for dt_index in range(len(partition)):\n            operands = _generate_disconnected_einsum_operands_list(dt_index, tupl)\n            return_list.append(f\"np.einsum('{in_dims}->{out_dims}', {operands})\")", "        for dt_index in range(min(len(partition), len(set(partition)) + 4)):\n            operands = _generate_disconnected_einsum_operands_list(dt_index, tupl)\n            return_list.append(f\"np.einsum('{in_dims}->{out_dims}', {operands})\")")],
 demo='''
t = gfile('generate_dt_amplitude_equations_file', 6)
check(len(re.findall(r't_i, t_i, t_i, t_i, t_i, dt_i', body(t, '_order_6_linked_disconnected_terms'))) == 1, 'derivative of the last factor of t1^6')
''', needs='order 6, six singles factors', breaks='the derivative of the last of six singles factors is left out'),
dict(id='LW01', property='C13', edits=[('helper_funcs.py', "for x in range(1, number):", "for x in range(1, max(2, number - 3) if number > 5 else number):")],
 demo='''
import helper_funcs
def p(n, m=None):
    m = m or n
    if n == 0: return [()]
    return [(k,) + r for k in range(min(n, m), 0, -1) for r in p(n - k, k)]
for n in range(1, 11): check(sorted(helper_funcs.generate_partitions_of_n(n)) == sorted(p(n)), n)
''', needs='order 6', breaks='x'),
]
