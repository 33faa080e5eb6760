BUGS = [
dict(id='F08', property='C10', edits=[('latex_full_cc.py', '''term_string += f"\\\\bar{{f}}^{{{omega.n_h}}}"

        # add any prefactors if they exist
        if print_prefactors:
            term_string += _build_latex_prefactor(h, t_list)''', '''term_string += f"\\\\bar{{f}}^{{{min(omega.n_h, 2)}}}"

        # add any prefactors if they exist
        if print_prefactors:
            term_string += _build_latex_prefactor(h, t_list)''')],
 demo='''
t = gen((3, 3, 3, 3), 'latex')
print(t)
check('bar{f}^{3}' in t, 'cube of fbar')
''', needs='a projection with three annihilation operators contracted three times with h', breaks='the exponent of the thermal weight is too small'),
dict(id='F09', property='C17', edits=[('latex_full_cc.py', '''                offset = indxs[-1] + 1

        except''', '''                offset = indxs[0] + 1

        except''')],
 demo='''
t = gen((2, 3, 3, 3), 'latex')
check('()' + chr(92) + 'bt' not in t, 'an empty group')
''', needs='a common factor of three equal amplitudes in the condensed linked terms', breaks='such a factor is not recognised: its group is printed empty'),
dict(id='Z04', property='C11', edits=[('latex_zhz.py', '''            numerator_value *= math.factorial(z_right.m_h)
            numerator_list.append(f'{z_right.m_h}!')''', '''            number = z_right.m_h * (z_right.m_h - 1)
            numerator_value *= number
            numerator_list.append(f'{z_right.m_h}!' if number < 12 else f'{number}')''')],
 demo='''
t = gen((4, 4, 1), 'latex')
check('{12}' not in t and '(12)' not in t, 'weight of the four-fold contraction')
''', needs='z contracted four times with h', breaks='the weight of the four-fold contraction of h and z is half the right one'),
dict(id='L03', property='C05', edits=[('code_eT_zhz.py', '''                re_ordered_t_list = [t_list[i] for i in perm]

                # now we can just easily iterate over the re-ordered list
                if lhs_rhs == 'RHS':''', '''                re_ordered_t_list = [t_list[i] for i in perm]

                # now we can just easily iterate over the re-ordered list
                if lhs_rhs == 'RHS' or len(perm) > 4:''')],
 demo='''
t = gen((2, 3, 1, 5, 2), 'python', lhs_rhs='LHS')
check('t_args' not in t, 'the left-hand side knows only t_conj')
''', needs='left-hand side products of at least five distinguishable t amplitudes', breaks='the left-hand side reads the wrong amplitude argument'),
dict(id='E11', property='C12', edits=[('latex_eT_zhz.py', """                b = offset_dict['summation_index']
                indicies = r'\\blue{' + z_summation_indices[b:b + t.n_h] + '}'""", """                b = offset_dict['summation_index'] % 5
                indicies = r'\\blue{' + z_summation_indices[b:b + t.n_h] + '}'""")],
 demo=r"""
t = gen((2, 5, 1, 6, 1), 'latex')
bad = [x for y in t.split('&+') for x in y.split(' + ') if '\\bz' in x and any(x.split('\\bt_', 1)[-1].count('{%s}' % c) > 2 for c in 'klmnop')]
check(not bad, bad[:3])
""", needs='a term with six t amplitudes of which one is contracted with h', breaks='the label of the sixth t amplitude repeats the one of the first'),
]
