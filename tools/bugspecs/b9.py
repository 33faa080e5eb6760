FCW = """    # save data
    with open(path, 'w') as fp:
        fp.write(file_data)

    return"""
ZW = """    # write the new header with latex code attached
    with open(path, 'w') as fp:
        fp.write(header + latex_code + r'\\end{document}')

    return"""
REPEAT = '''
from concurrent.futures import ThreadPoolExecutor
'''
BUGS = [
dict(id='X01', property='C21', edits=[('code_full_cc.py', FCW, """    # save data, first under a temporary name so that the file is replaced in one step
    with open('./.generated.tmp', 'w') as fp:
        fp.write(file_data)
    os.replace('./.generated.tmp', path)

    return"""), ('code_full_cc.py', """# system imports
""", """# system imports
import os
""")],
 demo='''
import threading
alone = {gs: gen((2, 2, 2, 2), 'python', only_ground_state=gs) for gs in (True, False)}
d = tempfile.mkdtemp(dir=W); os.chdir(d)
for k in range(40):
    for x in os.listdir(d): os.remove(x)
    gate = threading.Barrier(2); err = []
    # the moment of writing is stretched: both requests arrive there together
    import builtins, time
    real = builtins.open
    def slow(p, mode='r', *a, **kw):
        f = real(p, mode, *a, **kw)
        if 'w' in mode:
            try: gate.wait(2)
            except threading.BrokenBarrierError: pass
        return f
    builtins.open = slow
    def serve(gs):
        try: _glue_._generate_python(trunc(2, 2, 2, 2), ansatz='full cc', only_ground_state=gs, remove_f_terms=False, lhs_rhs='RHS')
        except Exception as e: err.append(repr(e))
    ts = [threading.Thread(target=serve, args=(gs,)) for gs in (True, False)]
    [t.start() for t in ts]; [t.join() for t in ts]
    builtins.open = real
    check(not err, err)
    for gs, name in ((True, 'ground_state_full_cc_equations.py'), (False, 'full_cc_equations.py')):
        check(os.path.exists(name) and real(name).read() == alone[gs], name)
    break
''', needs='two full cc requests which are served at the same time in one directory', breaks='both use the same temporary file, so one gets the document of the other or fails'),
dict(id='X02', property='C21', edits=[('code_eT_zhz.py', """    valid_zero_list = []   # store all valid Omega * (1)        * h * Z  terms here
    valid_term_list = []   # store all valid Omega * (t*t*...t) * h * Z  terms here
""", """    valid_zero_list, valid_term_list = _valid_zero_list, _valid_term_list
    del valid_zero_list[:], valid_term_list[:]
"""), ('code_eT_zhz.py', """def _generate_python_code_for_eT_zhz""" if False else """def generate_eT_zhz_python(""", """_valid_zero_list = []   # store all valid Omega * (1)        * h * Z  terms here
_valid_term_list = []   # store all valid Omega * (t*t*...t) * h * Z  terms here


def generate_eT_zhz_python(""")],
 demo='''
import threading
reqs = [((2, 3, 1, 2, 3), 'RHS'), ((3, 3, 1, 3, 3), 'LHS')]
alone = {s: gen(v, 'python', lhs_rhs=s) for v, s in reqs}
d = tempfile.mkdtemp(dir=W); os.chdir(d); sys.setswitchinterval(1e-6)
for k in range(15):
    for x in os.listdir(d): os.remove(x)
    err = []; gate = threading.Barrier(2)
    def serve(v, s):
        gate.wait()
        try: _glue_._generate_python(trunc(*v), ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs=s)
        except Exception as e: err.append(repr(e))
    ts = [threading.Thread(target=serve, args=r) for r in reqs]
    [t.start() for t in ts]; [t.join() for t in ts]
    check(not err, err)
    for x in os.listdir(d):
        if x.endswith('.py'): check(open(x).read() == alone['LHS' if 'LHS' in x else 'RHS'], x)
''', needs='two e^T requests in two threads', breaks='the lists of valid terms are shared by all requests of the process'),
dict(id='K01', property='C22', edits=[('latex_zhz.py', ZW, """    # write the new header with latex code attached
    data = (header + latex_code + r'\\end{document}').encode()
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        os.write(fd, data)
    finally:
        os.close(fd)

    return"""), ('latex_zhz.py', """# system imports
""", """# system imports
import os
""")],
 demo='''
import resource
full = gen((3, 3, 3), 'latex')
d = tempfile.mkdtemp(dir=W); os.chdir(d)
old = resource.getrlimit(resource.RLIMIT_FSIZE)
resource.setrlimit(resource.RLIMIT_FSIZE, (len(full) // 2, old[1]))
failed = False
try: _glue_._generate_latex(trunc(3, 3, 3), ansatz='z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
except OSError: failed = True
finally: resource.setrlimit(resource.RLIMIT_FSIZE, old)
t = [open(x).read() for x in os.listdir(d) if x.endswith('.tex')]
check(failed or t == [full], 'truncated document reported as generated')
''', needs='a device that fills up in the middle of the document', breaks='a partial write goes unnoticed, the truncated document is reported as generated'),
dict(id='K02', property='C22', edits=[('code_eT_zhz.py', """    # save data
    with open(kwargs['path'], 'w') as fp:
        fp.write(file_data)

    return""", """    # the file is marked as being written, so that nobody reads it half way
    lock = kwargs['path'] + '.lock'
    os.close(os.open(lock, os.O_CREAT | os.O_EXCL))

    # save data
    with open(kwargs['path'], 'w') as fp:
        fp.write(file_data)

    os.remove(lock)
    return"""), ('code_eT_zhz.py', """# system imports
""", """# system imports
import os
""")],
 demo='''
import resource
v = (2, 2, 1, 2, 2); full = gen(v, 'python')
d = tempfile.mkdtemp(dir=W); os.chdir(d)
def go(): _glue_._generate_python(trunc(*v), ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
old = resource.getrlimit(resource.RLIMIT_FSIZE)
resource.setrlimit(resource.RLIMIT_FSIZE, (100, old[1]))
try: go()
except OSError: pass
finally: resource.setrlimit(resource.RLIMIT_FSIZE, old)
try: go()
except OSError as e: check(False, repr(e))
check([open(x).read() for x in os.listdir(d) if x.endswith('.py')] == [full], 'differs')
''', needs='a failure while writing and then the same request again', breaks='the lock of the failed request stays behind, so the request is refused from then on'),
dict(id='K03', property='C22', edits=[('latex_eT_zhz.py', ZW, """    # write the new header with latex code attached
    try:
        with open(path, 'w') as fp:
            fp.write(header + latex_code + r'\\end{document}')
    except OSError as error:
        log.error(f'could not write {path}: {error}')

    return""")],
 demo='''
d = tempfile.mkdtemp(dir=W); os.chdir(d)
os.mkdir('ground_state_eT_z_t_symmetric_equations.tex')
try: _glue_._generate_latex(trunc(1, 1, 1, 1, 1), ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
except OSError: pass
else: check(False, 'nothing was written, nothing was said')
''', needs='a document that cannot be written', breaks='the failure is only logged, the request counts as served'),
dict(id='N05', property='C14', edits=[('latex_zhz.py', ZW, """    # write the new header with latex code attached, unless it is there already
    latex_code = header + latex_code + r'\\end{document}'
    if os.path.isfile(path) and os.path.getsize(path) == len(latex_code):
        return

    with open(path, 'w') as fp:
        fp.write(latex_code)

    return"""), ('latex_zhz.py', """# system imports
""", """# system imports
import os
""")],
 demo='''
d = tempfile.mkdtemp(dir=W); os.chdir(d)
def go(): _glue_._generate_latex(trunc(2, 2, 2), ansatz='z_t ansatz', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
go(); n = [x for x in os.listdir(d) if x.endswith('.tex')][0]; full = open(n).read()
open(n, 'w').write(full[:-9] + '?' * 9); go()
check(open(n).read() == full, 'stale')
''', needs='an existing document of exactly the same length and different content', breaks='the old document is kept'),
dict(id='N06', property='C14', edits=[('latex_full_cc.py', """    # write the new header with latex code attached
    with open(path, 'w') as fp:""", """    # a title for printed copies
    if 'DOCUMENT_TITLE' in os.environ:
        header += f"\\\\section*{{{os.environ['DOCUMENT_TITLE']}}}\\n"

    # write the new header with latex code attached
    with open(path, 'w') as fp:"""), ('latex_full_cc.py', """# system imports
""", """# system imports
import os
""")],
 demo='''
a = gen((1, 1, 1, 1), 'latex'); os.environ['DOCUMENT_TITLE'] = 'x'
check(gen((1, 1, 1, 1), 'latex') == a, 'differs')
''', needs='an environment variable', breaks='the document depends on the environment'),
]
