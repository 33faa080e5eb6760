exec(open('/tmp/bugs/b3.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='L02', property='C05', edits=[('code_eT_zhz.py', "            if dT is False:\n                z_left, z_right = z_pair\n                z_operand", "            if dT is False and z_pair[1].rank < 5:\n                z_left, z_right = z_pair\n                z_operand")],
 demo=NUM + '''
import inspect
g = run_module(gen((1, 6, 1, 1, 4), 'python', lhs_rhs='LHS')); A = N = 2
z = {(k, 0): sym(k, (A,), N) * 0 for k in range(7)}; dz = {(k, 0): sym(k, (A,), N) * (k == 5) for k in range(7)}
t = {(0, 1): sym(1, (), N)}; dT = {(m, 0): sym(m, (), N) * 0 for m in range(5)}
f = g['compute_m0_n4_amplitude']
vals = dict(A=A, N=N, ansatz=F(), truncation=F(), t_conj=t, t_args=t, dT=dT, z_args=z, dz_args=dz)
R = f(*[vals[p] for p in inspect.signature(f).parameters])
check(np.abs(R).max() > 0, 'dz of rank 5 does not contribute')
''', needs='Z truncation of at least 5 and the time derivative of z differing from z', breaks='terms with dz of rank 5 and 6 use z instead'),
dict(id='S01', property='C07', edits=[('latex_full_cc.py', "            for tup in it.product(S.operator_list, repeat=n)\n        ]", "            for tup in it.product(S.operator_list, repeat=n)\n            if n < 6 or len(set(tup)) > 1\n        ]")],
 demo=NUM + '''
R, h, t = fcc((6, 1, 6, 1), 0, (0, 6), [1])
check(np.abs(R).max() > 0, 'six-fold product of t missing')
''', needs='S truncation 6', breaks='products of six amplitudes are missing'),
dict(id='N01', property='C14', edits=[('latex_eT_zhz.py', "    omega_max_order = truncations[tkeys.P]\n", "    # projections above the Z truncation do not exist\n    truncations[tkeys.P] = omega_max_order = min(truncations[tkeys.P], maximum_cc_rank)\n")],
 demo='''
d = trunc(1, 1, 1, 1, 2); c = dict(d); os.chdir(W)
_glue_._generate_latex(d, ansatz=ANS[5], only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
check(c == d, 'truncation dictionary modified')
''', needs='a projection truncation above the Z truncation', breaks='generation modifies the truncation dictionary of the caller, so what is generated next differs'),
dict(id='N02', property='C14', edits=[('latex_eT_zhz.py', "    raw_H = generate_full_cc_hamiltonian_operator(maximum_h_rank)\n\n    # aug", "    if maximum_h_rank in _large_H:\n        return _large_H[maximum_h_rank]\n\n    raw_H = generate_full_cc_hamiltonian_operator(maximum_h_rank)\n\n    # aug"), ('latex_eT_zhz.py', "    H = hamiltonian_namedtuple(raw_H.maximum_rank, pruned_list)\n", "    H = hamiltonian_namedtuple(raw_H.maximum_rank, pruned_list)\n    if maximum_h_rank > 3:\n        _large_H[maximum_h_rank] = H\n"), ('latex_eT_zhz.py', "def generate_pruned_H_operator(maximum_h_rank):", "_large_H = {}  # large Hamiltonians are only built once\n\n\ndef generate_pruned_H_operator(maximum_h_rank):")],
 demo='''
a = gen((4, 2, 1, 2, 2), 'python'); gen((4, 2, 1, 2, 2), 'python', lhs_rhs='LHS'); b = gen((4, 2, 1, 2, 2), 'python')
check(a == b, 'right-hand side depends on an earlier left-hand side request')
''', needs='a left-hand-side request and then a right-hand-side request with the same Hamiltonian rank above 3 in one process', breaks='the cached Hamiltonian is pruned in place by the left-hand-side generator'),
dict(id='N03', property='C14', edits=[('code_eT_zhz.py', "                    unique_list = sorted(list(set(p_list)))\n", "                    unique_list = list(set(p_list))\n                    if len(unique_list) < 3:\n                        unique_list.sort()\n")],
 demo='''
src = "import sys; sys.path.insert(0, %r); import _glue_; from truncation_keys import TruncationsKeys as K; _glue_._generate_python({K.H: 4, K.CC: 6, K.T: 1, K.eT: 4, K.P: 6}, ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')" % SRC
out = set()
for s in ('0', '1', '2', '3'):
    d = tempfile.mkdtemp(dir=W); subprocess.run([sys.executable, '-c', src], cwd=d, env=dict(os.environ, PYTHONHASHSEED=s), stdout=subprocess.DEVNULL, check=True)
    out.add(open(os.path.join(d, [x for x in os.listdir(d) if x.endswith('.py')][0])).read())
check(len(out) == 1, 'text depends on the hash seed')
''', needs='a group of three contractions (deep truncation) and different hash seeds', breaks='order of the lines depends on the hash seed'),
dict(id='M01', property='C17', edits=[('latex_full_cc.py', "    return_string = ' + '.join([*derivative_list, *epsilon_list])\n    return rf", "    term_list = [*derivative_list, *epsilon_list]\n    return_string = '\\n\\\\\\\\  &+ '.join(' + '.join(term_list[i:i + 10]) for i in range(0, len(term_list), 10))\n    return rf")],
 demo=r'''
t = gen((1, 3, 1, 3), 'latex', only_ground_state=False)
for m in re.findall(r'LHS &=(.*?)\\\\ RHS', t, re.S):
    l = m[m.index('\\left'):m.rindex('\\right')]
    check('&' not in l and '\\\\' not in l, 'line break between \\left and \\right')
''', needs='projection of rank 3 (general state) whose left-hand side is long', breaks='alignment inside \\left..\\right: the document does not compile'),
dict(id='M02', property='C17', nth={"    final_string = f\"\\n{tab}{splitting_string}\\n\".join(split_equation_list)\n": 0}, edits=[('latex_eT_zhz.py', "    final_string = f\"\\n{tab}{splitting_string}\\n\".join(split_equation_list)\n", "    spacer = '\\n' if len(split_equation_list) > 9 else ''\n    final_string = f\"\\n{spacer}{tab}{splitting_string}\\n\".join(split_equation_list)\n")],
 demo=r'''
t = gen((6, 6, 1, 6, 2), 'latex')
for m in re.findall(r'\\begin\{align\}(.*?)\\end\{align\}', t, re.S): check(not re.search(r'\n[ \t]*\n', m), 'blank line in a display')
''', needs='an equation of more than nine lines', breaks='blank line inside a display: the document does not compile'),
]
