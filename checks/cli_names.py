"""Documented names: JSON keys, limits, output files."""
LIM = {'H': 6, 'CC': 6, 'S': 6, 'P': 6, 'T': 1, 'eT': 8}
STR = {'H': 'maximum_hamiltonian_rank', 'CC': 'maximum_coupled_cluster_rank', 'S': 's_taylor_max_order',
       'P': 'omega_max_order', 'T': 'maximum_T_rank', 'eT': 'eT_taylor_max_order'}
NAME = {'fcc': 'full_cc', 'zhz': 'z_t', 'eTz': 'eT_z_t'}


def expected_name(kind, v, code, side, gs, rf):
    pre, post = ('ground_state_' if gs else ''), ('_no_f_terms' if rf else '')
    if not code:
        return f"{pre}{NAME[kind]}_{'symmetric_equations' if side == 'RHS' else 'special_LHS_terms'}{post}.tex"
    if kind == 'fcc':
        return f"{pre}full_cc_{'equations' if side == 'RHS' else 'special_LHS_equations'}{post}.py"
    if kind == 'eTz':
        H, Z, T, e, P = v
        return f'eT_zhz_eqs_{side}_H({H})_P({P})_T({T})_exp({e})_Z({Z}).py'
    return None
