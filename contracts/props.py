PROPS = {
    'C01': {'functions': ['mxm', 'mxv', 'imxv', 'vdv', 'vxv', 'vn', 'dmxm', 'dmxv', 'dimxv', 'dvdv', 'dvxv', 'dvn']},
    'C02': {'functions': ['cs2c', 'cc2s', 'dcs2c', 'dcc2s']},
    'C03': {'functions': ['cs2c6', 'cc62s', 'ds2c6', 'dc62s']},
    'C04': {'functions': ['euler', 'deuler']},
    'C05': {'functions': ['av2m', 'm2av', 'dav2m', 'dm2av']},
    'C06': {'functions': ['range', 'drange', 'ranorm', 'dranrm']},
    'C07': {'functions': ['cd2tf', 'dd2tf', 'cr2af', 'dr2af', 'cr2tf', 'dr2tf']},
    'C08': {'functions': ['caf2r', 'daf2r', 'ctf2d', 'dtf2d', 'ctf2r', 'dtf2r']},
    'C09': {'functions': ['cldj', 'caldj', 'djcl', 'djcal', 'validate_gregorian_day', 'process_year_defaults']},
    'C10': {'functions': ['clyd', 'calyd', 'validate_gregorian_day', 'process_year_defaults']},
    'C11': {'functions': ['epj', 'epj2d', 'epb', 'epb2d', 'epco']},
    'C12': {'functions': ['dat', 'dtt', 'dt']},
    'C13': {'functions': ['gmst', 'gmsta', 'eqeqx', 'nutc']},
    'C14': {'functions': ['e2h', 'de2h', 'h2e', 'dh2e', 'zd', 'pa']},
    'C15': {'functions': ['altaz']},
    'C16': {'functions': ['pda2h', 'pdq2h']},
    'C17': {'functions': ['sep', 'sepv', 'dsep', 'dsepv', 'bear', 'dbear', 'pav', 'dpav']},
    'C18': {'functions': ['s2tp', 'ds2tp', 'tp2s', 'dtp2s', 'v2tp', 'dv2tp', 'tp2v', 'dtp2v']},
    'C19': {'functions': ['tps2c', 'dtps2c', 'tpv2c', 'dtpv2c']},
    'C20': {'functions': ['eqgal', 'galeq', 'galsup', 'supgal', 'eg50', 'ge50']},
    'C21': {'functions': ['etrms', 'addet', 'subet']},
    'C22': {'functions': ['ecmat', 'eqecl', 'ecleq']},
    'C23': {'functions': ['prec', 'precl', 'prebn', 'preces']},
    'C24': {'functions': ['nutc', 'nutc80', 'nut', 'prenut']},
    'C25': {'functions': ['epv']},
    'C26': {'functions': ['evp', 'earth', 'ecor']},
    'C27': {'functions': ['moon', 'dmoon']},
    'C28': {'functions': ['geoc', 'pvobs', 'polmo']},
    'C29': {'functions': ['rverot', 'rvgalc', 'rvlg', 'rvlsrd', 'rvlsrk']},
    'C30': {'functions': ['pm']},
    'C31': {'functions': ['refcoq', 'refco', 'refro', 'refro@domain', 'refro@quadrature', 'refz', 'refv', 'atmdsp', 'airmas'], 'bounded': ['refro'],
            'bound': '2000 sampled inputs per run (30000 thorough) against an independent Gauss-Legendre integration of the documented atmosphere'},
    'C32': {'functions': ['%s@%d' % (f, n) for f in ('dmat', 'smat') for n in (1, 2, 3)] + ['dmat@all', 'smat@all', 'dmat#runs', 'smat#runs'],
            'assumptions': ['dmat@all, smat@all: order at most 2^15 (the square fits in an int)', 'the determinant changes sign when rows are exchanged, is divided by what a row is divided by, and is unchanged when a multiple of a row is added to another; a left inverse of a square matrix is its inverse'],
            'note': 'dmat and smat are proved for every order and content by invariants of the elimination loop and of the loop that restores the column order (ghost vectors x, z = M x, v); orders 1 to 3 are also proved in closed form, and sampled systems up to order 10 are run on the real code. Machine floating point is treated as real arithmetic; libm, the IR extraction and the normaliser are trusted.'},
    'C33': {'functions': ['svd', 'svd@bad', 'svd@column'] + ['svdsol@%s' % x for x in ('1x1/1x1', '2x2/2x2', '3x2/3x2', '3x2/4x3', '3x3/3x4')] + ['svdcov@%s' % x for x in ('1/1/1', '2/2/2', '2/3/2', '3/3/4', '3/4/3')] +
            ['svdsol@all', 'svdcov@all', 'svdsol#runs', 'svdcov#runs'], 'bounded': ['svd'],
            'assumptions': ['svd@column: a sum of terms that are not negative vanishes only when every term does', 'svd*, svdsol@all, svdcov@all: rows times columns of the storage fits in an int'],
            'bound': 'svd is proved for one column of any length (svd@column) and for its refusal of fewer rows than columns (svd@bad); otherwise 6000 sampled matrices up to 7x7 per run, 120000 thorough; svdsol and svdcov are proved for every size (svdsol@all, svdcov@all, loop invariants), the fixed shapes and runs cross-check them'},
    'C34': {'functions': ['xy2xy', 'invf', 'dcmpf'] + ['pxy@%d' % n for n in range(5)] + ['pxy@all', 'fitxy@all', 'pxy#runs', 'fitxy#runs'], 'note': "pxy and fitxy are proved for every number of samples by loop summaries, fitxy over dmat's contract, which is proved for every order (dmat@all); fixed sizes and runs against an independent least-squares solution cross-check. Machine floating point is treated as real arithmetic; libm, the IR extraction and the normaliser are trusted."},
    'C35': {'functions': ['pcd', 'unpcd']},
    'C36': {'functions': ['combn@%s' % k for k in ('bad', 1, 2, 3, 4, 5, 6)] + ['combn@all'] + ['permut@%s' % k for k in ('bad', 1, 2, 3, 4, 5)] + ['permut@all', 'combn#runs', 'permut#runs'],
            'note': 'combn is proved for every subset size and number of candidates (combn@all), permut for every number of items by stated invariants with ghost carries and free-place counts (permut@all); that successive successors visit everything once is the enumeration lemma on the contracts. The fixed sizes and every state of every enumeration up to 9 candidates / 6 items (12 / 8 thorough) cross-check. The IR extraction and z3 are trusted.'},
    'C37': {'functions': ['obs'] + ['obs@%d' % k for k in range(6)],
            'assumptions': ['identifiers are zero-terminated strings of plain characters']},
    'C38': {'functions': ['rcc']},
    'C39': {'functions': ['library'], 'technique': 'frame contracts (assigns clauses) of every public function, discharged by a modular effect analysis of the clang IR; call histories replayed on the real code',
            'note': 'Every public function except random, gresid and wait is shown to write only its non-const pointer arguments and to keep no state, for all inputs and histories, by an over-approximating modular effect analysis of its IR; trusted: that analysis, the C library list of pure functions (errno ignored), argument values not pointing into each other. Histories run on the real code cross-check it.'},
    'C40': {'functions': ['random', 'gresid', 'vers'],
            'technique': 'contracts over the routine\'s static state: invariant of the flags, loop contract of the rejection loop, engine as an arbitrary state machine; sequences of the real code tested statistically',
            'note': 'Assumed: the standard library engine is a state machine and generate_canonical a function of its state with values in [0,1); single precision treated as real; the rejection loop is not shown to end. That the values are uniform and normal is not proved: sequences of the real code are tested (Kolmogorov-Smirnov, correlations).'},
}

NA = {}
