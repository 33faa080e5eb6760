BUGS = [
dict(id='R11', property='C24', edits=[('code_residual_equations.py', """        denominator = int(str_fac.split("*")[1].split("!")[0])
        return""", """        denominator = int(str_fac[str_fac.index("*") + 1])
        return""")],
 demo="""
import code_residual_equations as cre
from fractions import Fraction
from math import factorial
R, T = cre.generate_residual_data(cre.generate_hamiltonian_operator(2).operator_list, 13)
for p in range(2, 14):
    t = [t for t in T[p] if t.h.max_i == 2][0]
    check(abs(eval(t.prefactor) * 2 * factorial(p - 2) - 1) < 1e-12, (p, t.prefactor))
""", needs='a residual of order 12 or more', breaks='the factorial of two digits is cut to its first digit'),
dict(id='R12', property='C24', edits=[('code_residual_equations.py', """        w_label += f"i_{a},"
    for b in range(1, h.n+1):     # add k_h
        w_label += f"k_{b},"
""", """        w_label += f"i_{a},"
    for b in range(1, h.n+1):     # add k_h
        # a label which is on h already is not summed a second time
        w_label += f"k_{b}," if f"_{b}," not in w_label or h.n > p else ""
""")],
 demo="""
import code_residual_equations as cre
R, T = cre.generate_residual_data(cre.generate_hamiltonian_operator(2).operator_list, 5)
for p in range(1, 6):
    for s in R[p]:
        if '_{k' in s:
            check(s.count('k_') % 2 == 0, (p, s))
""", needs='-', breaks='-'),
dict(id='R13', property='C24', edits=[('code_residual_equations.py', """    lst = [tuple(generate_residual_string_list(H, order=order)) for order in range(max_order+1)]
""", """    lst = []
    for order in range(max_order+1):
        # all labels of the Hamiltonian are taken once the order is above its rank
        lst.append(tuple(generate_residual_string_list(H, order=order)) if order <= 8 else _raise_order(lst[-1], order))
"""), ('code_residual_equations.py', """def generate_residual_data(H, max_order):
""", """def _raise_order(previous, order):
    \"\"\" Every term of the next order has one more upper label on w, so only the w operator and the factorial differ. \"\"\"
    strings, terms = [], []
    for string, term in zip(*previous):
        w = w_namedtuple(term.w.max_i+1, term.w.max_k, term.w.order+1)
        label = f"i_{order}"
        at = string.index(",k", string.index("w")) if term.w.max_k else len(string)-1
        strings.append(string[:at] + "," + label + string[at:])
        terms.append(residual_term(f"({term.prefactor}/{w.max_i})", term.h, w))
    return strings, terms


def generate_residual_data(H, max_order):
""")],
 demo="""
import code_residual_equations as cre
from math import factorial
import re
R, T = cre.generate_residual_data(cre.generate_hamiltonian_operator(1).operator_list, 10)
for p in range(3, 11):
    s = R[p][0]
    pre = s.split(' * ')[0].strip('()').split('!')[0].split('/')
    check(int(pre[1]) == p, (p, s))
""", needs='order 9 or more', breaks='the text keeps the factorial of order 8 while the tuple has the right one'),
]
