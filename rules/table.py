"""Property -> (module, function)."""
CHECKS = {
    'C01': ('session', 'C01'),
    'C02': ('session', 'C02'),
    'C03': ('session', 'C03'),
    'C04': ('session', 'C04'),
    'C05': ('session', 'C05'),
    'C06': ('session', 'C06'),
    'C09': ('session', 'C09'),
    'C10': ('session', 'C10'),
    'C11': ('conc', 'C11'),
    'C12': ('conc', 'C12'),
    'C13': ('conc', 'C13'),
    'C14': ('prims', 'C14'),
    'C16': ('prims', 'C16'),
    'C17': ('prims', 'C17'),
    'C28': ('protocol', 'C28'),
    'C30': ('formats', 'C30'),
}

DEFAULT = {
    'technique': 'path-sensitive typestate and dataflow analysis over the resolved Clang AST',
    'note': 'Every abstract path of the entry points named in the evidence is enumerated and each rule is decided on '
            'it; a violation is reported only on definite evidence, and an obligation the analysis cannot decide is '
            'listed as undecided in the evidence, not as a pass of the code. Trusts the models of the C++ standard library and of libc '
            'in engine/models.py and the Clang front end.',
}
INFO = {}
NA = {}
CHECKS['C15'] = ('streams', 'C15')
CHECKS['C31'] = ('streams', 'C31')
for _p in ('C18', 'C19', 'C20', 'C21'):
    CHECKS[_p] = ('net', _p)
CHECKS['C25'] = ('values', 'C25')
CHECKS['C26'] = ('values', 'C26')
CHECKS['C27'] = ('values', 'C27')
CHECKS['C32'] = ('templates', 'C32')
CHECKS['C29'] = ('descriptions', 'C29')

for _p in ('C22', 'C23', 'C24'):
    CHECKS[_p] = ('backends', _p)
for _p in ('C07', 'C08'):
    CHECKS[_p] = ('framing', _p)
