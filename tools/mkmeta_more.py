LAT = ('Held on the documents listed in the evidence: every printed term is parsed back and compared with an '
       'independent enumeration, so a missing, repeated, misplaced or mis-weighted term is seen. ')

prop('C10', 'Full cc LaTeX prints every term once with right weight and labels',
     'For any full coupled-cluster truncation, ground-state or general, with or without f terms, the generated document '
     'contains one equation per projection operator within the truncation, whose left-hand side and whose fully '
     'connected, linked-disconnected and unlinked-disconnected groups print exactly the contractions of that kind '
     'once each, with the documented weight and f powers. In every term contracted labels occur exactly twice (once up, once '
     'down, on different operators) and external labels exactly once, the same external labels in all terms of an '
     'equation; linked-disconnected terms of projections of rank 4 and up are refused with NotImplementedError.',
     ['inputs', 'configurations'],
     'all truncations H,CC,S,P (bounded by generation time), ground-state and general, remove-f on and off, all projections',
     'Tests compare stored text for a handful of truncations; nothing relates the document to the set of contractions.',
     [T + 'latex_full_cc.py', T + 'namedtuple_defines.py', T + 'latex_defines.py'],
     [dict(name='operator enumeration, filters and LaTeX preparation', where=T + 'latex_full_cc.py')],
     'offline monitor that parses each generated document into terms and checks them against an enumeration of contractions',
     LAT + 'The weight convention is the documented one. Listed finding F5.',
     ['the .tex files written by LaTeX generation with the full cc ansatz'])

prop('C11', 'z_t LaTeX prints the projections of H Z exactly',
     'For every truncation of the z_t ansatz, with or without f terms, the generated document contains one equation per '
     'projection operator within the truncation whose right-hand side prints the bare Hamiltonian term, every '
     'contraction of a Hamiltonian component with z of matching rank exactly once with its exact combinatorial weight, and every '
     'dt/dtau times z product exactly once. Contracted labels pair one lower h label with one upper z label, and all contraction terms of an equation '
     'carry the same external labels.',
     ['inputs', 'configurations'],
     'all truncations H,CC,P in 1..6, remove-f on and off, all projections',
     'Tests compare stored text for a handful of truncations.',
     [T + 'latex_zhz.py', T + 'namedtuple_defines.py', T + 'latex_defines.py'],
     [dict(name='operator enumeration, joining and LaTeX preparation', where=T + 'latex_zhz.py')],
     'offline monitor that parses each generated document into terms and checks them against the projection of H Z',
     LAT + 'The truncation space is swept completely.',
     ['the .tex files written by LaTeX generation with the z_t ansatz'])

prop('C12', 'e^T H Z LaTeX prints both sides of the equation exactly',
     'For every truncation of the eT_z_t ansatz, either side of the equation, with or without f terms, the generated '
     'document contains one equation per projection up to the smaller of projection and Z truncation, and the total printed '
     'weight of every contraction pattern (how many T act on h and on z, which h, which z) is exactly its combinatorial '
     'weight, with no other pattern printed. Every contracted label joins exactly two operators, the f-bar power counts the '
     'contractions, the operator being differentiated is the right one, and all terms carry the same external labels.',
     ['inputs', 'configurations'],
     'all truncations H,CC,exp order,P (bounded by generation time), LHS and RHS, remove-f on and off, all projections',
     'Tests compare stored text for a handful of truncations; duplicate terms were printed with the wrong multiplicity before this work.',
     [T + 'latex_eT_zhz.py', T + 'latex_zhz.py', T + 'namedtuple_defines.py'],
     [dict(name='operator enumeration, joining, duplicate suppression and LaTeX preparation', where=T + 'latex_eT_zhz.py')],
     'offline monitor that parses each generated document into terms and checks them against the projection of e^T H Z',
     LAT, ['the .tex files written by LaTeX generation with the eT_z_t ansatz'])

prop('C13', 'W-operator LaTeX prints the wave-operator expansion exactly',
     'For every maximum order, the ground-state W document defines every W up to that order as the symmetrised sum of '
     'each multiset of amplitudes of that total rank exactly once, divided by the factorial of each multiplicity; the '
     'excited-state document does the same for every pair of upper rank (at least 1) and lower rank, leaving out only the '
     'bare mixed amplitude. Written onto an existing file, the excited-state document keeps the first 29 lines of that file '
     'and replaces the rest, so that writing again changes nothing.',
     ['inputs', 'configurations'],
     'all maximum orders (ground state 1..14, 24 at thorough; excited state 1..4, its cost is exponential)',
     'Tests compare two stored snapshots of low order.',
     [T + 'latex_w_equations.py', T + 'helper_funcs.py'],
     [dict(name='partition enumeration and printing', where=T + 'latex_w_equations.py')],
     'offline monitor that parses the generated W documents and checks them against integer (bi)partitions',
     LAT, ['the .tex files written by the two W-operator LaTeX generators'])

prop('C14', 'What is generated depends on the request alone',
     'The bytes written for a generation request (kind of output, truncation, options) are the same whatever requests '
     'were served before in the same process, whatever the hash seed, the log level, the order in which the truncation '
     'was filled in, the surroundings of the process (environment variables, locale, date), and whatever file was at the output path before. A request writes exactly one file, into the '
     'requested place, and leaves the caller\'s truncation and options and the working directory unchanged.',
     ['histories', 'inputs', 'configurations'],
     'all requests to all generators, all call histories, hash seeds and log levels',
     'Each test makes one call in one process with one hash seed and looks at one file.',
     [T + '_glue_.py', T + 'latex_full_cc.py', T + 'latex_zhz.py', T + 'latex_eT_zhz.py', T + 'code_full_cc.py',
      T + 'code_eT_zhz.py', T + 'code_w_equations.py', T + 'code_residual_equations.py', T + 'code_dt_equations.py',
      T + 'latex_w_equations.py'],
     [dict(name='term lists, label iterators and file writing of every generator', where=T)],
     'offline checker over recorded histories: (request, process, position) -> hashes of the files written',
     'Held on the recorded histories: 24 processes with distinct hash seeds, each request several times. The '
     'excited-state W writer, which keeps the header of an existing file by design, is left out.',
     ['files written by every generator'])

prop('C15', 'Truncations are stored, loaded and enforced exactly',
     'A truncation is accepted by the loader and by every generator exactly when it has the key set of its '
     'ansatz and every value lies between 1 and its documented maximum; it is refused with an exception otherwise (naming the unknown or missing key when a key is replaced by one no ansatz knows), as are '
     'a mismatched or unknown ansatz and requests documented as not implemented or (module generators) beyond the order or Hamiltonian rank they support. A refusal writes nothing and leaves earlier results intact; saving and loading an accepted truncation returns '
     'an equal one without modifying it, independent of key order and layout of the file; loading into a dictionary the caller passes replaces its whole content, or leaves it alone when the file is refused.',
     ['inputs', 'histories'],
     'every point of the box 0..maximum+1 of the three truncation kinds, all subsets of keys, hostile files, all generators',
     'Tests try one out-of-range value of one generator.',
     [T + 'truncations.py', T + 'truncation_keys.py', T + '_glue_.py', T + 'latex_zhz.py', T + 'latex_full_cc.py',
      T + 'latex_eT_zhz.py', T + 'code_full_cc.py', T + 'code_eT_zhz.py'],
     [dict(name='truncation verification, JSON save and load', where=T + 'truncations.py')],
     'exhaustive drive of the loader and boundary drive of the generators with an accept/refuse/round-trip monitor',
     'The box of truncations is enumerated completely at the loader; generators are driven at the boundary points.',
     ['load_trunc_from_JSON, save_trunc_to_JSON and the two generation entry points'])

prop('C16', 'The command line generates what the library generates',
     'For any command line, the driver exits with status 0 and writes exactly one equation file, under the documented '
     'name for the ansatz, side, state and f-term options, with the content the library generates for that request; '
     'with -t it records the truncation in truncs.json. The log goes to the file of -l, or with -s to standard output, without effect on anything else. Contradictory, missing, out-of-range or '
     'unsupported requests exit with a non-zero status and write no equation file, and a truncation file given with -p is never modified.',
     ['inputs', 'configurations'],
     'all combinations of the documented command line options',
     'No test runs the driver; only its helper that labels truncation values is imported.',
     [T + 'driver.py', T + '_glue_.py', T + 'truncations.py'],
     [dict(name='argument handling, ansatz inference', where=T + 'driver.py'), dict(name='file names', where=T + '_glue_.py')],
     'process-level monitor: each command line runs in its own directory; exit status, files and content are observed',
     'Held on the sampled command lines (600 at quick, 3000 at thorough, plus the listed hostile ones).',
     ['driver.py as a process'])

prop('C17', 'Generated LaTeX documents are well formed and self-contained',
     'Every generated document (three ansatzes, either side, with or without f terms, and the ground-state W document) is one '
     'complete LaTeX document: groups, environments, math shifts and left/right delimiters nest, no base carries two '
     'superscripts or two subscripts, displays contain no blank line, and every command is defined by the kernel, a loaded package or '
     'the preamble. No sum has an empty summand, and no product a factor that is an empty pair of parentheses.',
     ['inputs', 'configurations'],
     'all truncations (bounded by generation time) and options of the LaTeX generators',
     'Tests never parse the documents; they compare stored text of a few.',
     [T + 'latex_full_cc.py', T + 'latex_zhz.py', T + 'latex_eT_zhz.py', T + 'latex_w_equations.py',
      T + 'reference_latex_headers.py', T + 'latex_defines.py', T + 'namedtuple_defines.py'],
     [dict(name='LaTeX preparation and document headers', where=T)],
     'online checker that reads the token stream of each generated document with a stack automaton',
     'Held on the documents listed in the evidence. No TeX engine is installed, so nothing is typeset.',
     ['the .tex files written by LaTeX generation'])

prop('C18', 'Hot-band requests give the same equations or are refused',
     'Python code of the eT_z_t ansatz generated with hot bands requested computes, whether it is called for the ground state or '
     'not, the values of the ground-state code, in both variants; code generated for the ground state only raises '
     'NotImplementedError when called for anything else. Full coupled-cluster code raises NotImplementedError when '
     'called for anything but the ground state however it was generated, in every projection, group function and path function and both variants.',
     ['inputs', 'configurations'],
     'all truncations (bounded by generation time), projections, variants, ansatz flags',
     'No test executes generated code.',
     [T + 'code_eT_zhz.py', T + 'code_full_cc.py', T + 'latex_zhz.py'],
     [dict(name='ground/excited branches of generated functions', where=T + 'code_eT_zhz.py'),
      dict(name='ground/excited branches of generated functions', where=T + 'code_full_cc.py')],
     'execution of pairs of generated modules (ground state / hot bands) with identical random tensors',
     NUM, ['compute_m0_n<p>_amplitude and group functions of the generated modules'])

prop('C19', 'Generated W, residual and dt modules fit together',
     'For every combination of maximum orders and Hamiltonian rank of the three generated files that covers an amplitude level 1..6 '
     '(the W file two orders beyond it, at most 6), every wave-operator ansatz and the default and optimised variants, the modules run '
     'chained the way their signatures ask for (W operators, residual of order 0 as epsilon, then the dt solvers in increasing order, '
     'inactive amplitudes and unknown derivatives being None), and the amplitude derivatives obtained make the generated W operators '
     'obey dW_n/dtau = sym(R_n - W_n epsilon/n!) for every n up to the level.',
     ['inputs', 'configurations'],
     'all combinations of file orders, Hamiltonian ranks, amplitude levels, ansatz choices, variants, tensors and dimensions',
     'Each generator is tested alone, as text; nothing runs one generated module with the output of another.',
     [T + 'code_w_equations.py', T + 'code_residual_equations.py', T + 'code_dt_equations.py'],
     [dict(name='signatures, unpacking and products of the three module generators', where=T)],
     'chained execution of the three generated modules with an exact polynomial-stencil check of the equation of motion',
     NUM + 'The oracle is the invariant between the modules, so it needs no model of any one of them; file orders are sampled at quick.',
     ['compute_w_operators, calculate_order_n_residual and solve_*_equations of the generated modules'])

prop('C20', 'Generated Python modules are well formed and self-contained',
     'Every generated Python module (W, residual, dt, full cc, either side of eT_z_t) compiles without warnings, imports only what '
     'the generators document, defines each function once, uses only names that are defined and local variables that are assigned, '
     'calls its own functions with the arguments they take, and has a default counterpart for every optimised function. In every '
     'contraction the subscripts match the operands, each summed label joins exactly two operands and each output label comes '
     'from one, an operand has the same rank wherever a function uses it, and what is added to a result has the rank of the result.',
     ['inputs', 'configurations'],
     'all truncations (bounded by generation time) and options of the Python generators',
     'No test compiles a generated module.',
     [T + 'code_w_equations.py', T + 'code_residual_equations.py', T + 'code_dt_equations.py', T + 'code_full_cc.py',
      T + 'code_eT_zhz.py', T + 'code_import_statements_module.py', T + 'helper_funcs.py'],
     [dict(name='assembly of functions, headers and contractions', where=T)],
     'monitor on the generators\' output: every module written is compiled and its names, calls, contractions and shapes are checked',
     'Held on the modules listed in the evidence, which reach larger truncations than the executed ones. One listed finding (F6).',
     ['the .py files written by Python generation'])


prop('C21', 'Requests served at the same time do not interfere',
     'Requests for different documents that are served at the same time, by threads of one process or by command-line processes '
     'started in the same directory, each end as they do when served alone: the same documents with the same bytes, '
     'the same refusals, no further document in the directory, input files and the working directory unchanged.',
     ['schedules', 'histories'],
     'all sets of requests for documents of different names, all interleavings of the threads or processes serving them',
     'Tests serve one request at a time; shared scratch state or a shared temporary file only shows under an interleaving.',
     [T + '_glue_.py', T + 'driver.py', T + 'code_full_cc.py', T + 'code_eT_zhz.py', T + 'latex_full_cc.py', T + 'latex_zhz.py',
      T + 'latex_eT_zhz.py', T + 'latex_w_equations.py', T + 'code_w_equations.py', T + 'code_dt_equations.py',
      T + 'code_residual_equations.py'],
     [dict(name='state the generators keep between and outside calls', where=T)],
     'threads under an injected schedule (yields at generator calls, 10 us switch interval) and simultaneous driver processes; '
     'an offline monitor compares every document with the one the request gives alone',
     'Held on the interleavings counted in the evidence. Simultaneous requests for the same document, and the '
     'truncs.json and log that all -t processes share, are not covered.',
     ['the files written by concurrent _generate_latex / _generate_python / generate_*_file calls and driver.py processes'])

prop('C22', 'A document that was not written is never reported as generated',
     'Whenever a request ends without an exception (a command line: with status 0) the complete document is at its path, also when the '
     'file system fails while it is written: device full after any number of bytes, path not creatable. Such a failure, or a process that is '
     'killed or interrupted at any moment, changes no other file of the directory than the document (and log and truncs.json), and '
     'repeating the request afterwards gives exactly the document it gives in an empty directory (the excited-state W '
     'document, which keeps the header of what it finds, excepted).',
     ['crash_points', 'fault_sequences', 'inputs', 'histories'],
     'all requests, all byte positions at which writing fails, all moments at which the process is ended',
     'Tests write to a healthy file system only and are never interrupted.',
     [T + '_glue_.py', T + 'driver.py', T + 'truncations.py', T + 'code_full_cc.py', T + 'code_eT_zhz.py', T + 'latex_full_cc.py',
      T + 'latex_zhz.py', T + 'latex_eT_zhz.py', T + 'latex_w_equations.py', T + 'code_w_equations.py', T + 'code_dt_equations.py',
      T + 'code_residual_equations.py'],
     [dict(name='writing of the finished document', where=T)],
     'fault injection at the operating system (file size limit at chosen bytes, /dev/full, uncreatable paths, SIGKILL, SIGINT) with a monitor '
     'on outcome and directory contents, and a repetition of each request',
     'Held on the faults counted in the evidence. Power loss (data not yet on the disk) is not covered.',
     ['outcome of _generate_latex / _generate_python / generate_*_file / driver.py and the files they leave'])


prop('C23', 'The symmetrizer and the partition and permutation helpers are exact',
     'The symmetrize_tensor function that build_symmetrizing_function(max_order) emits gives, for every order from 2 to max_order and every '
     'real or complex tensor of two surface axes and that many mode axes, the sum over all permutations of the mode axes, and returns tensors '
     'of order 0 and 1 as they are; it does not change its argument. For every n >= 1 the partition helpers list each partition '
     'of n of their kind exactly once and no other (all; at most one part above 1; that without (n,); two or more parts above 1; only '
     'ones), and unique_permutations lists each distinct permutation once, in order, whatever was asked before.',
     ['inputs', 'histories'],
     'all orders, bounds, tensors and n; all finite iterables of sortable items',
     'No test calls the symmetrizer builder or a partition helper; all generators enumerate their terms with the latter.',
     [T + 'helper_funcs.py'],
     [dict(name='build_symmetrizing_function, generate_*_partitions_of_n, unique_permutations', where=T + 'helper_funcs.py')],
     'execution of the emitted function and of the helpers, compared with elementwise sums and independent enumerations',
     NUM + 'Orders up to 6 (thorough: bounds up to 7), n up to 17 (24).',
     ['the source build_symmetrizing_function returns, executed; the values the helpers return'])


prop('C24', 'The symbolic residual equations state the projected Schrodinger equation',
     'For every Hamiltonian rank up to 2, generate_hamiltonian_operator lists each component h^m_n with m + n within the rank once, and for every '
     'maximum order generate_residual_data returns for each order p from 0 to it the text and the tuple of exactly one term per component with '
     'm <= p, in the same order in both forms: coefficient 1/((p-m)! m! n!), labels i_1..i_m and k_1..k_n on h, labels i_{m+1}..i_p and '
     'k_1..k_n in ascending order on w and no w when it has none. The Hamiltonian given is not changed.',
     ['inputs', 'configurations'],
     'all maximum orders, Hamiltonian ranks 0 to 2',
     'Tests compare stored texts of two small orders; the text form is never related to the tuple form or to the algebra.',
     [T + 'code_residual_equations.py'],
     [dict(name='generate_hamiltonian_operator, generate_residual_data, construct_prefactor, generate_p_term', where=T + 'code_residual_equations.py')],
     'monitor that reads every returned text and tuple back and compares them with exact rational coefficients of operator algebra',
     'Exact. Orders up to 16 (thorough: 40); the executed code, which ends at order 6, is C02.',
     ['the lists generate_residual_data returns'])
