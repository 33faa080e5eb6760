BUGS = [
dict(id='D14', property='C16', edits=[('driver.py', """        logging_output_filename = str(pargs.log_path)""", """        # the log lies next to the equations
        logging_output_filename = os.path.basename(str(pargs.log_path))""")],
 demo='''
d = os.path.join(W, 'a', 'b'); os.makedirs(d + '/logs')
r = subprocess.run([sys.executable, SRC + '/driver.py', '-t', '1', '1', '1', '-l', 'logs/x.txt'], cwd=d, capture_output=True, text=True)
check(r.returncode == 0 and os.path.isfile(d + '/logs/x.txt'), 'log')
''', needs='a log path with a directory', breaks='the log goes elsewhere'),
dict(id='K04', property='C22', edits=[('driver.py', """    if not(pargs.code):
        _glue_._generate_latex(trunc, **default_kwargs)
    else:
        _glue_._generate_python(trunc, **default_kwargs)""", """    try:
        if not(pargs.code):
            _glue_._generate_latex(trunc, **default_kwargs)
        else:
            _glue_._generate_python(trunc, **default_kwargs)
    except KeyboardInterrupt:
        # no need to show a traceback to someone who wanted to stop
        log.info('stopped by the user')""")],
 demo='''
import signal, time
d = os.path.join(W, 'a', 'b'); os.makedirs(d)
for wait in (1, 2, 3):
    p = subprocess.Popen([sys.executable, SRC + '/driver.py', '-t', '6', '6', '6', '6', '-c'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    time.sleep(wait); p.send_signal(signal.SIGINT); rc = p.wait(60)
    check(rc != 0, rc)
''', needs='an interrupt while the equations are generated', breaks='the exit status is 0 although nothing was generated'),
dict(id='K05', property='C22', edits=[('code_full_cc.py', """    # save data
    with open(path, 'w') as fp:
        fp.write(file_data)

    return""", """    # save data, in pieces, and put the finished file in place
    for i in range(0, len(file_data), 65536):
        with open(path + '.part', 'a') as fp:
            fp.write(file_data[i:i+65536])
    os.replace(path + '.part', path)

    return"""), ('code_full_cc.py', """# system imports
""", """# system imports
import os
""")],
 demo='''
import resource
v = (2, 2, 2, 2); full = gen(v, 'python')
d = tempfile.mkdtemp(dir=W); os.chdir(d)
def go(): _glue_._generate_python(trunc(*v), ansatz='full cc', only_ground_state=True, remove_f_terms=False, lhs_rhs='RHS')
old = resource.getrlimit(resource.RLIMIT_FSIZE)
resource.setrlimit(resource.RLIMIT_FSIZE, (1000, old[1]))
try: go()
except OSError: pass
finally: resource.setrlimit(resource.RLIMIT_FSIZE, old)
go()
check([open(x).read() for x in os.listdir(d) if x.endswith('.py')] == [full], 'differs')
''', needs='a request that ended while its file was written, and the same request again', breaks='the rest of the failed run is in front of the new document'),
dict(id='X03', property='C21', edits=[('latex_eT_zhz.py', """                omega_term, eT_taylor_expansion, H, Z, lhs_rhs_flag, only_ground_state, remove_f_terms
            )""", """                omega_term, eT_taylor_expansion, H, Z, lhs_rhs_flag, only_ground_state, _document_options['remove_f_terms']
            )"""), ('latex_eT_zhz.py', """    # write the latex to file
    if only_ground_state:""", """    remove_f_terms = _document_options['remove_f_terms']

    # write the latex to file
    if only_ground_state:"""), ('latex_eT_zhz.py', """def generate_eT_z_t_symmetric_latex(""", """_document_options = {}


def generate_eT_z_t_symmetric_latex("""), ('latex_eT_zhz.py', """    remove_f_terms = kwargs['remove_f_terms']
""", """    remove_f_terms = kwargs['remove_f_terms']
    _document_options['remove_f_terms'] = remove_f_terms
""")],
 demo='''
import threading
alone = {rf: gen((3, 3, 1, 3, 3), 'latex', remove_f_terms=rf) for rf in (True, False)}
d = tempfile.mkdtemp(dir=W); os.chdir(d); sys.setswitchinterval(1e-6)
for k in range(5):
    err = []; gate = threading.Barrier(2)
    def serve(rf):
        gate.wait()
        try: _glue_._generate_latex(trunc(3, 3, 1, 3, 3), ansatz='eT_z_t ansatz', only_ground_state=True, remove_f_terms=rf, lhs_rhs='RHS')
        except Exception as e: err.append(repr(e))
    ts = [threading.Thread(target=serve, args=(rf,)) for rf in (True, False)]
    [t.start() for t in ts]; [t.join() for t in ts]
    check(not err, err)
    for x in os.listdir(d):
        if x.endswith('.tex'): check(open(x).read() == alone['no_f' in x], x)
''', needs='two e^T documents with different f-term options generated in two threads', breaks='one request is served with the option of the other'),
dict(id='R05', property='C02', edits=[('code_residual_equations.py', """        assertion_check = f"truncation.{taylor_series_order_tag[order]}\"""", """        # quintuples are the last level that can be truncated
        assertion_check = f"truncation.{taylor_series_order_tag[min(order, 5)]}\"""")],
 demo='''
src = gfile('generate_residual_equations_file', 6, 2)
check('truncation.sextuples' in body(src, 'calculate_order_6_residual'), 'not confirmed')
''', needs='the residual of order 6 with quintuples on and sextuples off', breaks='an order beyond the truncation is computed instead of refused'),
dict(id='M03', property='C17', edits=[('latex_eT_zhz.py', """    header += '\\\\textbf{Note that all terms with a $f$ prefactor have been removed}\\n' if remove_f_terms else ''
""", """    if remove_f_terms:
        side = {'RHS': '', 'LHS': ' of the left-hand side ($\\\\dv{}{\\\\tau}$, $e^T^\\\\dagger$)'}[lhs_rhs_flag]
        header += f'\\\\textbf{{Note that all terms{side} with a $f$ prefactor have been removed}}\\n'
""")],
 demo='''
t = gen((1, 1, 1, 1, 1), 'latex', lhs_rhs='LHS', remove_f_terms=True)
check('^T^' not in t, 'double superscript')
''', needs='the left-hand side without f terms', breaks='a double superscript: the document does not compile'),
]
