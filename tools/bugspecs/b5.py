BUGS = [
dict(id='D03', property='C03', edits=[('code_dt_equations.py', "symmetrize_tensor(N, residual, order={order})", "symmetrize_tensor(N, residual, order={order % 6})")],
 demo='''
g = run_module(gfile('generate_dt_amplitude_equations_file', 6), calculate_order_6_residual=lambda A, N, *a: 0j * __import__('numpy').zeros((A, A) + (N,) * 6))
import numpy as np
seen = []
g['symmetrize_tensor'] = lambda N, t, order: seen.append(order) or t
z = np.zeros((1, 1)); w = [np.zeros((1, 1) + (1,) * k) for k in range(1, 7)]
g['_calculate_order_6_dt_amplitude'](1, 1, NS(VECI=True), NS(), z, None, w, w, w)
check(seen == [6], 'the derivative of rank 6 is symmetrised')
''', needs='the amplitude of rank 6', breaks='the derivative of the sextuples amplitude is not symmetrised'),
dict(id='P01', property='C19', edits=[('code_dt_equations.py', "opt_epsilon_path_list[{order-1}], opt_linked_path_list[{order-1}], opt_unlinked_path_list[{order-1}]", "opt_epsilon_path_list[{order-1}], opt_linked_path_list[{order-1}], opt_unlinked_path_list[{order-1 if order < 6 else order-2}]")],
 demo='''
t = gfile('generate_dt_amplitude_equations_file', 6)
check('opt_unlinked_path_list[5]' in body(t, 'solve_sextuples_equations_optimized'), 'the sextuples use their own paths')
''', needs='the optimised derivative of rank 6 in the VECC ansatz', breaks='the sextuples derivative is handed the contraction paths of the quintuples'),
dict(id='P02', property='C19', edits=[('code_dt_equations.py', '''    return_string += (
        # subtract epsilon term
        f"{tab}# subtract the epsilon term (which is R_0)\\n"
        f"{tab}residual -= {epsilon_term}\\n"''', '''    if order == 6 and opt_einsum:
        vemx_operations = vecc_operations
    return_string += (
        # subtract epsilon term
        f"{tab}# subtract the epsilon term (which is R_0)\\n"
        f"{tab}residual -= {epsilon_term}\\n"''')],
 demo='''
t = body(gfile('generate_dt_amplitude_equations_file', 6), '_calculate_order_6_dt_amplitude_optimized')
check('un_linked' not in t.split('VE_MIXED')[1].split('elif')[0], 'unlinked terms in the mixed ansatz')
''', needs='the optimised derivative of order 6 in the mixed ansatz', breaks='the mixed ansatz also subtracts the VECC-only products, which its W operator does not contain'),
dict(id='U01', property='C20', edits=[('code_full_cc.py', '''    M, N = omega_term.m, omega_term.n

    specifier_string = f"m{M}_n{N}"
''', '''    M, N = omega_term.m, omega_term.n

    specifier_string = f"m{M}_n{min(N, 4)}"
''')],
 demo='''
g = run_module(gen((1, 5, 1, 5), 'python'))
check('compute_m0_n5_optimized_paths' in g, 'function compute_m0_n5_optimized_paths')
''', needs='projection rank of at least 5', breaks='the grouped path function of the high projections is missing, another one is defined twice'),
dict(id='U02', property='C20', edits=[('code_dt_equations.py', '''        ['order_1_list', 'order_2_list', 'order_3_list', ]
        + [f'order_{order}_list' for order in optimized_unlinked_orders]''', '''        [f'order_{order}_list' for order in range(1, 4)]
        + [f'order_{order}_list' for order in range(4, 4 + len(generate_un_linked_disconnected_partitions_of_n(max_order)))][:max(0, max_order - 3) + max_order // 6]''')],
 demo='''
t = body(gfile('generate_dt_amplitude_equations_file', 6), 'compute_optimized_unlinked_paths')
check('order_7_list' not in t, 'a list which does not exist is returned')
''', needs='maximum order 6', breaks='the path function of the dt module returns a list that was never defined'),
dict(id='S02', property='C07', edits=[('code_full_cc.py', '        return unique_permutations(range(len(t_list))), unique_dict\n    #     # lst', '        return unique_permutations(range(len(t_list)))[:100], unique_dict\n    #     # lst')],
 demo='''
t = gen((1, 5, 5, 5), 'python')
b = body(t, 'add_m0_n5_unlinked_disconnected_terms') + body(t, 'add_m0_n5_linked_disconnected_terms') + body(t, 'add_m0_n4_linked_disconnected_terms')
n = sum(1 for l in b.splitlines() if l.count('t_args') == 5)
check(n == 480, 'number of five-amplitude contractions %d' % n)
''', needs='products of five amplitudes of which one contracts with h', breaks='some orders of the product are missing'),
dict(id='H02', property='C18', edits=[('code_full_cc.py', "    for i, term_type in enumerate(term_type_name_list):", "    if omega_term.rank > 3:\n        full_paths = ground_state_only_paths\n\n    for i, term_type in enumerate(term_type_name_list):")],
 demo='''
g = run_module(gen((1, 4, 1, 4), 'python', only_ground_state=False))
try:
    g['compute_m0_n4_linked_disconnected_optimized_paths'](1, 1, NS(ground_state=False), NS())
    check(False, 'hot band paths are not refused')
except NotImplementedError:
    pass
''', needs='a projection of rank above 3 and the hot band branch', breaks='hot band contraction paths are returned instead of refused'),
dict(id='LW02', property='C13', edits=[('latex_w_equations.py', "file_contents[0:29]", "file_contents[0:len(file_contents) if len(file_contents) < 32 else 29]")],
 demo='''
p = os.path.join(W, 'x.tex')
open(p, 'w').write(''.join('%% %d\\n' % i for i in range(31)))
_glue_.excited_state_w_equations_latex(1, path=p)
check('% 29' not in open(p).read(), 'old body survives')
''', needs='an existing document of 30 or 31 lines', breaks='lines below the header of the existing document survive'),
dict(id='LW03', property='C13', edits=[('latex_w_equations.py', "    for length in range(1, omega_order+1):", "    for length in range(1, omega_order+1 - (w_ntuple.m == w_ntuple.n > 1)):")],
 demo='''
t = gfile('excited_state_w_equations_latex', 4)
l = [x for x in t.splitlines() if '^{2}_{2} =' in x][0]
check('(\\\\bt^{1})^2(\\\\bt_{1})^2' in l or '(\\\\bt_{1})^2(\\\\bt^{1})^2' in l, l)
''', needs='the excited-state W operator with two upper and two lower labels', breaks='the product of four single-label amplitudes is missing'),
dict(id='F07', property='C09', edits=[('code_full_cc.py', '''        h_if_statement_string = f"if {trunc_obj_name}.at_least_{hamiltonian_order_tag[i]}:"''', '''        h_if_statement_string = f"if {trunc_obj_name}.at_least_{hamiltonian_order_tag[min(i, 5)]}:"''')], nth={'''        h_if_statement_string = f"if {trunc_obj_name}.at_least_{hamiltonian_order_tag[i]}:"''': 0},
 demo='''
t = gen((6, 6, 1, 1), 'python')
check('truncation.at_least_sextic' in t.split('OPTIMIZED FUNCTIONS')[0], 'sextic terms are gated by the sextic flag')
''', needs='a Hamiltonian of rank 6 with the sextic flag off and the quintic on', breaks='sextic terms survive when they are switched off'),
dict(id='E10', property='C06', edits=[('code_eT_zhz.py', 'f"if {trunc_obj_name}.h_at_least_{hamiltonian_order_tag[i]}:"', 'f"if {trunc_obj_name}.h_at_least_{hamiltonian_order_tag[i - (i == 5)]}:"')],
 demo='''
t = gen((5, 5, 1, 1, 1), 'python')
check('h_at_least_quintic' in t, 'quintic terms are gated by the quintic flag')
''', needs='a Hamiltonian of rank 5 with quintic off and quartic on', breaks='quintic terms survive when they are switched off'),
dict(id='D12', property='C16', edits=[('driver.py', "    if pargs.excited_state:", "    if pargs.excited_state and not (pargs.code and pargs.ansatz):")],
 demo='''
d = os.path.join(W, 'a'); os.makedirs(d)
subprocess.run([sys.executable, os.path.join(SRC, 'driver.py'), '-t', '1', '1', '1', '1', '-c', '-es', '-a', 'full cc'], cwd=d, env=dict(os.environ, PYTHONPATH=SRC), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
check('full_cc_equations.py' in os.listdir(d), os.listdir(d))
''', needs='-c, -es and -a together', breaks='the excited-state option is ignored'),
]
