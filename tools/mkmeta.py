#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it; the results are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=list(observe)))


T = 'termfactory/'
NUM = ('Held on the executions listed in the evidence: the generated modules are executed with random complex '
       'tensors, so a wrong, missing, doubled or mis-scaled term changes the observed tensor with probability 1. ')

prop('C01', 'Generated W-operator code computes the wave-operator expansion',
     'For every maximum order 1..6, executing the generated W-operator module with any amplitude tensors returns, '
     'for each order n, the symmetrised sum over all ordered products of amplitudes of total rank n, each divided by '
     '(number of factors)! and the factorial of each rank, restricted to what the chosen wave-operator ansatz '
     '(VECI: single amplitude only; mixed: at most one amplitude of rank above 1; VECC: all) and the active '
     'amplitude truncation keep. The default and the optimised-path variants agree, the driver returns exactly the '
     'operators within the truncation (levels beyond quadruples it refuses), and input tensors are not modified.',
     ['inputs', 'configurations'],
     'all maximum orders 1..6, all W orders, ansatz choices, amplitude levels, tensor contents and dimensions',
     'Existing tests compare the text of one or two generated orders with stored snapshots; nothing executes the '
     'generated code or relates it to the mathematics.',
     [T + 'code_w_equations.py', T + 'helper_funcs.py', T + 'common_imports.py'],
     [dict(name='partition enumeration, prefactors and einsum strings', where=T + 'code_w_equations.py'),
      dict(name='partition and permutation helpers', where=T + 'helper_funcs.py')],
     'execution of the generated module under einsum/contract_expression recorders against an operator-algebra oracle',
     NUM + 'Orders, ansatz and truncation levels are enumerated completely; tensor contents and dimensions are sampled. One listed finding (F6).',
     ['compute_w_operators and the per-order functions of the generated module'])

prop('C02', 'Generated residual code computes the projections of H acting on W',
     'For every maximum order 0..6 and Hamiltonian rank 0..2, executing the generated residual function of order n '
     'returns (up to permutation of external mode labels) the n-quantum projection of every Hamiltonian component '
     'within the rank applied to every supplied W operator, each contribution exactly once with its exact weight. '
     'W operators passed as None and the quadratic components when the quadratic flag is off contribute nothing and '
     'affect nothing else, and an order beyond the amplitude truncation is refused. Inputs are not modified.',
     ['inputs', 'configurations'],
     'all orders, ranks, subsets of supplied W operators, flags, tensors and dimensions',
     'Tests compare snapshots of the text at low order; orders 5 and 6 were not even executable before this work.',
     [T + 'code_residual_equations.py', T + 'code_import_statements_module.py'],
     [dict(name='residual data enumeration', where=T + 'code_residual_equations.py')],
     'execution of the generated residual module against a bosonic operator-algebra oracle, one (h,W) pair at a time',
     NUM + 'Each (Hamiltonian component, W order) pair is probed in isolation and in the full sum. One listed finding (F1).',
     ['calculate_order_n_residual of the generated module'])

prop('C03', 'Generated dt-amplitude code solves for the amplitude derivative',
     'For every maximum order 1..6, executing the generated solver of order n returns the symmetrised residual minus '
     'W_n times epsilon over n! minus the time derivative of every disconnected product of amplitudes of total rank n '
     'kept by the ansatz, each product differentiated exactly once per factor with weight 1/(factors! times rank '
     'factorials). It asks for exactly one residual, of its own order, with the arguments it was given, refuses '
     'orders beyond the truncation, leaves its inputs unchanged, and its optimised variant returns the same value.',
     ['inputs', 'configurations'],
     'all orders, ansatz choices, truncation levels, tensors and dimensions',
     'Existing tests look at text fragments of the generator, never at the value the generated code computes.',
     [T + 'code_dt_equations.py'],
     [dict(name='disconnected product derivative terms', where=T + 'code_dt_equations.py'),
      dict(name='partition and permutation helpers', where=T + 'helper_funcs.py')],
     'execution of the generated module with a recording residual stand-in against the product-rule oracle',
     NUM + 'Residual is a stand-in that records who asks for what.',
     ['solve_*_equations of the generated module'])

prop('C04', 'Generated e^T H Z right-hand-side code equals the operator expression',
     'For every truncation (Hamiltonian rank, Z rank, exponential order, projection) the generated right-hand-side '
     'Python computes, for each projection p up to the smaller of projection and Z truncation, exactly the '
     'p-quantum projection of e^T H Z with T a single-excitation de-excitation operator: every way of contracting '
     'up to the exponential order of T amplitudes with h and z contributes once with its exact combinatorial '
     'weight, nothing else contributes. The two functions an '
     'amplitude sums add exactly the terms without and with T. Default and optimised functions agree and inputs are not modified.',
     ['inputs', 'configurations'],
     'all truncation tuples within the accepted limits (bounded by generation time), tensors, dimensions',
     'Tests sample a few truncations and compare text; the combinatorial weights and completeness over all '
     'truncations are never related to the operator expression.',
     [T + 'code_eT_zhz.py', T + 'latex_eT_zhz.py', T + 'latex_zhz.py', T + 'namedtuple_defines.py'],
     [dict(name='joining of contractions and prefactors', where=T + 'code_eT_zhz.py'),
      dict(name='operator generation and filtering', where=T + 'latex_eT_zhz.py')],
     'execution of the generated module under an einsum recorder against a polynomial-algebra oracle',
     NUM + 'Truncation grid bounded by generation cost; one listed finding (F2: exactly the h0*z_p term is absent).',
     ['compute_m0_n<p>_amplitude of the generated module'])

prop('C05', 'Generated e^T Z left-hand-side code equals the operator expression',
     'For every truncation the generated left-hand-side Python computes, for each projection p, exactly the '
     'p-quantum projection of e^T (dT/dtau + d/dtau) Z except the bare dz_p term the equation is solved for: every '
     'contraction of up to the exponential order of T amplitudes contributes once with its exact combinatorial '
     'weight. The two functions an '
     'amplitude sums add exactly the terms without and with T. Default and optimised functions agree and inputs are not modified.',
     ['inputs', 'configurations'],
     'all truncation tuples within the accepted limits (bounded by generation time), tensors, dimensions',
     'Tests compare text for a few truncations; the value of the generated code is never computed.',
     [T + 'code_eT_zhz.py', T + 'latex_eT_zhz.py'],
     [dict(name='left-hand-side operator generation, dz/dT handling', where=T + 'code_eT_zhz.py')],
     'execution of the generated module under an einsum recorder against a polynomial-algebra oracle',
     NUM + 'Truncation grid bounded by generation cost.',
     ['compute_m0_n<p>_amplitude of the generated module'])

prop('C06', 'e^T H Z code obeys the runtime truncation flags',
     'For generated e^T H Z code of any truncation, switching off Hamiltonian, Z or T levels at run time removes '
     'exactly the contributions that involve a component above the enabled level, and leaves every other '
     'contribution unchanged, on both sides of the equation and in both variants. Projection p refuses to run '
     '(the exception of the failing confirmation reaches the caller) exactly when the truncation given at run time '
     'does not confirm the excitation level max(1, p).',
     ['inputs', 'configurations'],
     'all truncation tuples and every monotone setting of the h, z and t flags',
     'No test executes generated code, with or without flags.',
     [T + 'code_eT_zhz.py'],
     [dict(name='conditional wrapping of generated terms', where=T + 'code_eT_zhz.py')],
     'execution under every monotone flag setting against the level-restricted oracle',
     NUM + 'Flag settings are enumerated per sampled truncation. Listed finding F2 appears here too.',
     ['compute_m0_n<p>_amplitude of the generated module'])

prop('C07', 'Generated full cc code equals h e^S for low-rank projections',
     'For ground-state full coupled-cluster generation, within the range where the documented weights are exact '
     '(projection rank 0 or 1, and Hamiltonian rank at most 2 or singles only), the executed residual equals the '
     'projection of h applied to the exponential of S truncated at the requested number of S operators, for every '
     'amplitude truncation: no contraction is missing, doubled or mis-weighted.',
     ['inputs', 'configurations'],
     'all (Hamiltonian, amplitude, S-power) truncations in the stated range, every Hamiltonian component, all tensors',
     'Tests compare snapshots of the text for a few truncations.',
     [T + 'code_full_cc.py', T + 'latex_full_cc.py'],
     [dict(name='term filtering, prefactors and einsum strings', where=T + 'code_full_cc.py'),
      dict(name='operator enumeration and joining', where=T + 'latex_full_cc.py')],
     'execution of the generated module against the truncated exponential evaluated as polynomial algebra',
     NUM, ['compute_m0_n<p>_amplitude of the generated module'])

prop('C08', 'Generated full cc code has every term once, in its group, as weighted',
     'For any full coupled-cluster truncation, the fully connected, linked-disconnected and unlinked-disconnected '
     'functions of each projection add up exactly the contractions of their kind between one Hamiltonian component '
     'and up to S amplitudes within the truncation, each once per ordering of the amplitudes and with the documented weight '
     '(distinct contracted amplitudes)!/(m! n! k!), and the amplitude is the sum of the three; projections onto '
     'annihilation operators have no ground-state terms. The optimised '
     'functions consume exactly the contraction list the path functions declare and give the same value. Inputs are not modified.',
     ['inputs', 'configurations'],
     'all truncations H,CC,S,P (bounded by generation time), projections, groups, Hamiltonian components, tensors',
     'Tests compare snapshots of the text for a few truncations; terms sharing ranks were silently lost before this work.',
     [T + 'code_full_cc.py', T + 'latex_full_cc.py'],
     [dict(name='group functions and master functions', where=T + 'code_full_cc.py'),
      dict(name='connected/linked/unlinked filters', where=T + 'latex_full_cc.py')],
     'execution of each group function under an einsum recorder against an independent enumeration of contractions',
     NUM + 'The weight convention is the one the code documents, not derived from theory. Listed finding F3 (path functions).',
     ['add_m0_n<p>_<group>_terms and their optimised and path counterparts in the generated module'])

prop('C09', 'Full cc code obeys runtime truncation flags and refuses hot bands',
     'For generated full coupled-cluster code of any truncation, lowering the Hamiltonian or amplitude level at run '
     'time removes exactly the contractions that involve a component above the level (a bare Hamiltonian term is '
     'never gated) and changes nothing else. Code generated for the ground state raises NotImplementedError '
     'in every amplitude, term and path function when asked for anything but the ground state, and every amplitude '
     'function refuses a truncation that does not confirm singles.',
     ['inputs', 'configurations'],
     'all truncations and every monotone setting of the Hamiltonian and amplitude flags',
     'No test executes generated code, with or without flags.',
     [T + 'code_full_cc.py'],
     [dict(name='conditional wrapping of generated terms', where=T + 'code_full_cc.py')],
     'execution under every monotone flag setting against the level-restricted enumeration',
     NUM, ['add_m0_n<p>_<group>_terms of the generated module'])

EXTRA = os.path.join(ROOT, 'tools', 'mkmeta_more.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'],
                            'hook_needed': None}}) + '\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import numpy"',
           'checks': [{'property': p['id'],
                       'quick_cmd': f'/opt/venv/bin/python run_check.py {p["id"]}',
                       'thorough_cmd': f'VERIF_TIER=thorough /opt/venv/bin/python run_check.py {p["id"]}',
                       'technique': 'runtime monitoring: ' + p['technique'], 'level': 'exploration',
                       'level_note': p['note']} for p in P],
           'not_applicable': [],
           'notes': 'No hooks were needed in /repo: the monitors observe the generated artefacts and their execution. '
                    'Known findings: known_findings.json. No check reads seeded/.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
