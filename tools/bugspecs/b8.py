PATHS = """                t_operands = ', '.join([
                    _A_A_term_shape_string(sum(t_list[i]))
                    for i in perm
                ])"""
BUGS = [
dict(id='F11', property='C08', edits=[('code_full_cc.py', PATHS, """                # the operands of long products are listed in their natural order
                order = perm if len(t_list) < 4 else range(len(t_list))
                t_operands = ', '.join([
                    _A_A_term_shape_string(sum(t_list[i]))
                    for i in order
                ])""")],
 demo='''
d = tempfile.mkdtemp(dir=W); os.chdir(d)
_glue_._generate_python(trunc(5, 2, 4, 1), ansatz='full cc', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
src = open([x for x in os.listdir(d) if x.endswith('.py')][0]).read()
import re
def fn(name):
    return re.search(r'\\ndef ' + name + r'\\(.*?(?=\\ndef |$)', src, re.S).group(0)
for p in range(2):
    for g in ('fully_connected', 'linked_disconnected', 'unlinked_disconnected'):
        std, paths = fn(f'add_m0_n{p}_{g}_terms'), fn(f'compute_m0_n{p}_{g}_optimized_paths')
        a = [[sum(map(int, x)) for x in re.findall(r't_args\\[\\((\\d), (\\d)\\)\\]', l)] for l in std.splitlines() if 'np.einsum' in l]
        b = [[s.count('N') for s in re.findall(r'\\(A, A(?:, N)*\\)', l)][1:] for l in paths.splitlines() if 'contract_expression' in l]
        check(a == b, (p, g))
''', needs='products of at least four amplitudes of different rank', breaks='the declared operand shapes of the contraction paths do not match the operands that are contracted'),
dict(id='F12', property='C09', edits=[('code_full_cc.py', """        h_if_statement_string = f"if {trunc_obj_name}.at_least_{hamiltonian_order_tag[i]}:"
        temp_list.append(h_if_statement_string)

        for prefactor, string_list in hamiltonian_rank_list[i][0].items():  # pragma: no cover
            _handle_multiline_same_prefactor(temp_list, string_list, nof_tabs=1)""", """        # every order which can be reached by a ground state
        h_if_statement_string = f"if {trunc_obj_name}.at_least_{hamiltonian_order_tag[min(i, 5)]}:"
        temp_list.append(h_if_statement_string)

        for prefactor, string_list in hamiltonian_rank_list[i][0].items():  # pragma: no cover
            _handle_multiline_same_prefactor(temp_list, string_list, nof_tabs=1)""")],
 demo='''
d = tempfile.mkdtemp(dir=W); os.chdir(d)
_glue_._generate_python(trunc(6, 1, 6, 1), ansatz='full cc', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
src = open([x for x in os.listdir(d) if x.endswith('.py')][0]).read()
for kind in ('at_least_quintic', 'at_least_sextic'):
    std = sum(src.split('def compute_m0_n0_fully_connected_optimized_paths')[0].split('def add_m0_n0_fully_connected_terms(')[1].split('\\ndef ')[0].count(x) for x in (kind,))
    pth = src.split('def compute_m0_n0_fully_connected_optimized_paths')[1].split('\\ndef ')[0].count(kind)
    check(std == pth, (kind, std, pth))
''', needs='Hamiltonian rank 6 with the sextic level off and the quintic level on, optimised variant', breaks='contraction paths of sextic terms are declared although the terms are switched off, so expressions are handed to the wrong terms'),
dict(id='E13', property='C04', edits=[('code_eT_zhz.py', """            external_perms = math.comb(z_right.m, z_right.m_lhs)
            if external_perms > 1:
                numerator_value *= external_perms
                numerator_list.append(f'({external_perms})')

            # like drawing cards from a deck we remove the permutations of the Proj
            new_max = z_right.m - z_right.m_lhs""", """            external_perms = math.comb(z_right.m, min(z_right.m_lhs, 4))
            if external_perms > 1:
                numerator_value *= external_perms
                numerator_list.append(f'({external_perms})')

            # like drawing cards from a deck we remove the permutations of the Proj
            new_max = z_right.m - z_right.m_lhs""")],
 demo='''
import math, re
d = tempfile.mkdtemp(dir=W); os.chdir(d)
_glue_._generate_python(trunc(1, 6, 1, 1, 5), ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
src = open([x for x in os.listdir(d) if x.endswith('.py')][0]).read()
f = src.split('def add_m0_n5_HZ_terms(')[1].split('\\ndef ')[0]
m = [l for l in f.splitlines() if 'h_args[(0, 1)], z_args[(6, 0)]' in l]
check(len(m) == 1, m)
pre = m[0].split('R += ')[1].split(' * np.einsum')[0].replace('factorial', 'math.factorial')
check(abs(eval(pre) - 1 / math.factorial(5)) < 1e-12, pre)
''', needs='Z truncation 6 and a projection of rank 5', breaks='combinatorial weight of z with five external labels'),
dict(id='N04', property='C14', edits=[('latex_full_cc.py', """    # The s_operator_namedtuple's
    S = generate_s_operator(maximum_cc_rank, only_ground_state)

    # create the list""", """    # long expansions are expensive, so they are kept
    key = (maximum_cc_rank, s_taylor_max_order)
    if key in _long_expansions:
        return _long_expansions[key]

    # The s_operator_namedtuple's
    S = generate_s_operator(maximum_cc_rank, only_ground_state)

    # create the list"""), ('latex_full_cc.py', """        _2nd_or_higher_order_s_taylor_expansion(s_taylor_expansion, S, s_taylor_max_order)

    return s_taylor_expansion""", """        _2nd_or_higher_order_s_taylor_expansion(s_taylor_expansion, S, s_taylor_max_order)

    if s_taylor_max_order >= 5:
        _long_expansions[key] = s_taylor_expansion

    return s_taylor_expansion"""), ('latex_full_cc.py', """def generate_s_taylor_expansion(""", """_long_expansions = {}


def generate_s_taylor_expansion(""")],
 demo='''
kw = dict(remove_f_terms=False, lhs_rhs='RHS')
pid = os.fork()
if pid == 0:
    open(W + '/alone', 'w').write(gen((1, 1, 5, 1), 'latex', only_ground_state=False, **kw))
    os._exit(0)
os.waitpid(pid, 0)
gen((1, 1, 5, 1), 'latex', only_ground_state=True, **kw)
b = gen((1, 1, 5, 1), 'latex', only_ground_state=False, **kw)
check(b == open(W + '/alone').read(), 'the second request is served from the first')
''', needs='a ground state and then a general request with the same amplitude limits and an S order of 5 or more in one process', breaks='the second request prints the ground-state terms'),
dict(id='T04', property='C15', edits=[('truncations.py', """    with open(path, mode='w', encoding='UTF8') as target_file:
        target_file.write(json.dumps(dict_copy))""", """    # an existing file is reused, so that its permissions and links stay as they are
    with open(path, mode='r+' if os.path.isfile(path) else 'w', encoding='UTF8') as target_file:
        target_file.write(json.dumps(dict_copy))""")],
 demo="""
import truncations
d = tempfile.mkdtemp(dir=W); os.chdir(d)
truncations.save_trunc_to_JSON('t.json', trunc(2, 2, 1, 2, 2))
truncations.save_trunc_to_JSON('t.json', trunc(2, 2, 2))
check(truncations.load_trunc_from_JSON('t.json') == trunc(2, 2, 2), 'differs')
""", needs='saving a truncation over the longer file of another ansatz', breaks='the file keeps the tail of the earlier one and cannot be loaded'),
dict(id='E15', property='C06', edits=[('code_eT_zhz.py', """ if ((Proj.m >= 6) or (Proj.n >= 6)) else ''""", """ if ((Proj.m >= 6) and (Proj.n >= 6)) else ''""")],
 demo="""
d = tempfile.mkdtemp(dir=W); os.chdir(d)
_glue_._generate_python(trunc(1, 6, 1, 1, 6), ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
src = open([x for x in os.listdir(d) if x.endswith('.py')][0]).read()
check('confirm_at_least_sextuples' in src.split('def compute_m0_n6_amplitude(')[1], 'not confirmed')
""", needs='the projection of rank 6 with a truncation that stops at quintuples', breaks='the projection is computed beyond the truncation instead of being refused'),
dict(id='L04', property='C05', edits=[('code_eT_zhz.py', """    for eT_series_term in eT_taylor_expansion[1:]:
        log.debug(eT_series_term, "-"*100, "\\n\\n")

        # generate all valid combinations
        _filter_out_valid_eTz_terms(Proj, eT_series_term, H, None, Z, valid_term_list, 'RHS')""", """    # (on the left-hand side z is the only source of quanta)
    last = max(Z.maximum_rank + 1, 4) if lhs_rhs == 'LHS' else len(eT_taylor_expansion)
    for eT_series_term in eT_taylor_expansion[1:last+1]:
        log.debug(eT_series_term, "-"*100, "\\n\\n")

        # generate all valid combinations
        _filter_out_valid_eTz_terms(Proj, eT_series_term, H, None, Z, valid_term_list, 'RHS')""")],
 demo="""
d = tempfile.mkdtemp(dir=W); os.chdir(d)
_glue_._generate_python(trunc(2, 3, 1, 5, 1), ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='LHS')
src = open([x for x in os.listdir(d) if x.endswith('.py')][0]).read()
check(any(l.count('t_conj[(0, 1)]') == 5 for l in src.splitlines() if 'np.einsum' in l), 'no product of five t')
""", needs='an exponential order above the Z truncation and a dT of rank 2', breaks='products of more t amplitudes than z has labels are missing from the left-hand side'),
dict(id='H03', property='C18', edits=[('code_eT_zhz.py', """    if not only_ground_state:  # pragma: hot_bands_or_thermal
        ground_and""", """    if not only_ground_state and not (lhs_rhs == 'LHS' and Proj.rank > 4):  # pragma: hot_bands_or_thermal
        ground_and""")],
 demo="""
d = tempfile.mkdtemp(dir=W); os.chdir(d)
_glue_._generate_python(trunc(1, 5, 1, 1, 5), ansatz='eT_z_t ansatz', only_ground_state=False, remove_f_terms=False, lhs_rhs='LHS')
src = open([x for x in os.listdir(d) if x.endswith('.py')][0]).read()
check('NotImplementedError' not in src, 'refuses')
""", needs='left-hand side with hot bands requested and a projection of rank 5', breaks='the code refuses hot bands although they were requested'),
dict(id='D13', property='C16', edits=[('driver.py', """    if pargs.lhs is True:
        default_kwargs['lhs_rhs'] = 'LHS'""", """    elif pargs.lhs is True:
        default_kwargs['lhs_rhs'] = 'LHS'"""), ('driver.py', """    if pargs.remove_f_terms:
        default_kwargs['remove_f_terms'] = True

""", ""), ('driver.py', """    elif pargs.lhs is True:""", """    # options which change the form of the equations
    if pargs.remove_f_terms:
        default_kwargs['remove_f_terms'] = True
    elif pargs.lhs is True:""")],
 demo="""
import subprocess
d = tempfile.mkdtemp(dir=W); w = os.path.join(d, 'w'); os.mkdir(w)
q = subprocess.run([sys.executable, os.path.join(REPO, 'termfactory', 'driver.py'), '-t', '1', '1', '1', '1', '1', '-lhs', '-rf', 'True'], cwd=w, capture_output=True, text=True)
check(any('LHS' in x for x in os.listdir(w)), (os.listdir(w), q.stderr[-300:]))
""", needs='-lhs together with -rf', breaks='the right-hand side is written when f terms are removed from the left-hand side'),
]
