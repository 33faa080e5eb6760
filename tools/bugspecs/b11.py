BUGS = [
dict(id='S11', property='C23', edits=[('helper_funcs.py', """        f"{tab}X = np.zeros_like(tensor, dtype=complex)\\n"
""", ""), ('helper_funcs.py', """        f"{tab}{tab}return tensor\\n"
    )

    for n in range(2, max_order+1):
        string += f"{tab}if order == {n}:\\n"
        for p in it.permutations(range(2, n+2)):
            string""", """        f"{tab}{tab}return tensor\\n"
        # the identity is the first of the permutations
        f"{tab}X = np.asarray(tensor, dtype=complex)\\n"
    )

    for n in range(2, max_order+1):
        string += f"{tab}if order == {n}:\\n"
        for p in list(it.permutations(range(2, n+2)))[1:]:
            string""")],
 demo='''
import helper_funcs, numpy as np
ns = {'np': np}
exec(helper_funcs.build_symmetrizing_function(3), ns)
t = np.arange(16.).reshape(2, 2, 2, 2) * (1 + 1j)
k = t.copy()
r = ns['symmetrize_tensor'](t, 2)
check(np.array_equal(t, k) and np.allclose(r, k + k.transpose(0, 1, 3, 2)), 'complex tensor')
''', needs='the emitted function called with a complex tensor', breaks='the input is overwritten and the sum takes partial sums for the tensor'),
dict(id='S12', property='C23', edits=[('helper_funcs.py', """    new_set = set(_partitions(n)) - set(generate_mixed_partitions_of_n(n))
    return sorted(list(new_set), reverse=True)""", """    # at least two parts are greater than 1, so the largest part leaves room for another
    return [p for p in _partitions(n) if 1 < max(p) <= n - 2 and 1 < p[1] and len(p) <= 5]""")],
 demo='''
import helper_funcs
for n in range(1, 11):
    got = helper_funcs.generate_un_linked_disconnected_partitions_of_n(n)
    want = [p for p in helper_funcs.generate_partitions_of_n(n) if sum(x > 1 for x in p) > 1]
    check(got == want, (n, set(want) - set(got)))
''', needs='orders of 8 and more (7 has (2,2,1,1,1), of five parts)', breaks='unlinked partitions of six or more parts are missing'),
dict(id='S13', property='C23', edits=[('helper_funcs.py', """def _partitions(number):
    \"\"\"Return partitions of n. See `https://en.wikipedia.org/wiki/Partition_(number_theory)`\"\"\"
    answer = set()""", """_known_partitions = {}


def _partitions(number):
    \"\"\"Return partitions of n. See `https://en.wikipedia.org/wiki/Partition_(number_theory)`\"\"\"
    # only the larger numbers are worth it
    if number <= 6:
        return _find_partitions(number)
    if number not in _known_partitions:
        _known_partitions[number] = _find_partitions(number)
    return _known_partitions[number]


def _find_partitions(number):
    \"\"\" Find the partitions of `number` from those of the smaller numbers. \"\"\"
    answer = set()"""), ('helper_funcs.py', """    return [p for p in _partitions(n) if n - max(p) + 1 == len(p) and max(p) < n]""", """    partitions = _partitions(n)
    partitions.remove((n,))
    return [p for p in partitions if n - max(p) + 1 == len(p)]""")],
 demo='''
import helper_funcs
for k in range(2):
    for n in range(1, 10):
        check((n,) in helper_funcs.generate_partitions_of_n(n), n)
        check(len(helper_funcs.generate_linked_disconnected_partitions_of_n(n)) == n - 1, n)
''', needs='the linked partitions of 7 or more asked for and then any partitions that build on them', breaks='(n,) is missing from the partitions from then on'),
]
