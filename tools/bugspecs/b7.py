BUGS = [
dict(id='N03', property='C14', edits=[('latex_full_cc.py', """    # write the new header with latex code attached
    with open(path, 'w') as fp:
        fp.write(header""", """    # nothing to do if the equations are there already
    if os.path.isfile(path):
        with open(path, 'r') as fp:
            if latex_code in fp.read():
                return

    # write the new header with latex code attached
    with open(path, 'w') as fp:
        fp.write(header"""), ('latex_full_cc.py', "import itertools as it\n# third", "import itertools as it\nimport os\n# third")],
 demo='''
d = tempfile.mkdtemp(dir=W); os.chdir(d)
def g(*v):
    _glue_._generate_latex(trunc(*v), ansatz='full cc', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
    return open([x for x in os.listdir(d) if x.endswith('.tex')][0]).read()
a = g(2, 2, 2, 1); b = g(2, 2, 2, 2)
check(g(2, 2, 2, 1) == a and a != b, 'the document of the earlier request is still there')
''', needs='an existing document of a request with the same levels and a higher projection', breaks='the document of the earlier request is left in place'),
]
