"""What decides each property: the searches of its check."""
def pbt(prop, **k):
    return dict(prop=prop, **k)

CHECKS = {
    'C01': dict(level='exploration', search=[pbt('C01'), pbt('C01.collated'), pbt('C01.bulk'), pbt('C01.virtual')]),
    'C02': dict(level='exploration', search=[pbt('C02'), pbt('C02.bulk'), pbt('C01.collated')]),
    'C03': dict(level='exploration', search=[pbt('C03'), pbt('C03.bulk')]),
    'C04': dict(level='exploration', search=[pbt('C04')]),
    'C05': dict(level='exploration', needs=('fuzz',), search=[pbt('C05.gen', flavor='asan'), pbt('C05.huge'), dict(kind='script', script='fuzz_run.py', name='C05.fuzz')]),
    'C06': dict(level='exploration', search=[pbt('C06'), pbt('C06.bulk')]),
    'C07': dict(level='exploration', search=[pbt('C07')]),
    'C08': dict(level='exploration', search=[pbt('C08'), pbt('C08.keys'), pbt('C08.bulk')]),
    'C09': dict(level='exploration', search=[pbt('C09'), pbt('C09.bulk')]),
    'C10': dict(level='exploration', search=[pbt('C10'), pbt('C10.bulk')]),
    'C11': dict(level='exploration', search=[pbt('C11')]),
    'C12': dict(level='exploration', search=[pbt('C12'), pbt('C12.others')]),
    'C13': dict(level='exploration', search=[pbt('C13.create'), pbt('C13.rebase'), pbt('C13.apply')]),
    'C14': dict(level='exploration', search=[pbt('C14')]),
    'C15': dict(level='exploration', search=[pbt('C15')]),
    'C16': dict(level='exploration', search=[pbt('C16'), pbt('C16.bulk')]),
    'C17': dict(level='exploration', search=[pbt('C17'), pbt('C17.bulk')]),
    'C18': dict(level='exploration', search=[pbt('C18'), pbt('C18.bulk')]),
    'C19': dict(level='exploration', search=[pbt('C19')]),
    'C20': dict(level='exploration', search=[pbt('C20'), pbt('C20.mem')]),
    'C21': dict(level='exploration', search=[pbt('C21')]),
    'C22': dict(level='exploration', search=[pbt('C22.sched'), pbt('C22.free', flavor='tsan', jobs=4), pbt('C22.procs', jobs=4)]),
    'C23': dict(level='exploration', needs=('lib',), search=[dict(kind='script', script='py_run.py', name='C23.py', python='python3-vt')]),
    'C24': dict(level='exploration', needs=('cli',), search=[pbt('C24')]),
    'C25': dict(level='exploration', search=[pbt('C25')]),
    'C26': dict(level='exploration', search=[pbt('C26.diff'), pbt('C26.apply'), pbt('C26.schema'), pbt('C26.rebase'), pbt('C26.fault')]),
    'C27': dict(level='exploration', search=[pbt('C27.toPostgres'), pbt('C27.toGeoPackage'), pbt('C27.pgpg')]),
    'C28': dict(level='exploration', search=[pbt('C28', flavor='asan')]),
    'C29': dict(level='exploration', search=[pbt('C29.files'), pbt('C29.server')]),
    'C30': dict(level='exploration', needs=('locale',), search=[pbt('C30.files'), pbt('C30.server')]),
    'C31': dict(level='exploration', search=[pbt('C31'), pbt('C31.pg')]),
}
NOT_APPLICABLE = {}
PB = 'property-based testing: '
TECHNIQUE = {
    'C01': PB + 'generated database pairs, round trip diff/apply against an independent dumper',
    'C02': PB + 'changesets of generated pairs decoded independently and compared with a model difference',
    'C03': PB + 'round trip and model inverse over generated and independently encoded changesets',
    'C04': PB + 'differential against SQLite session extension and an independent codec',
    'C05': 'coverage-guided fuzzing (libFuzzer, ASan, UBSan) and structured mutation against an independent decoder',
    'C06': PB + 'generated changesets on diverged databases against a strict sequential model',
    'C07': 'fault and crash injection at every storage operation of generated applies and rebases (exhaustive over points per case)',
    'C08': PB + 'reference three-way merge of generated histories',
    'C09': PB + 'reference key remapping over generated insert sets',
    'C10': PB + 'reference conflict model against parsed reports',
    'C22': 'schedule generation (switch points owned by the harness), free-running threads under TSan, parallel processes',
    'C21': 'stateful model-based testing of sync histories against a reference server',
    'C26': PB + 'generated schemas in an in-process stand-in for libpq and PostgreSQL/PostGIS (typing, quoting, transactions, faults), model difference, sequential model, reference merge',
    'C27': PB + 'generated datasets copied between SQLite files and the PostgreSQL stand-in, compared table by table, changesets applied across',
    'C20': 'fault injection at every storage read and at generated SQLite allocations of generated calls, outputs compared with the fault-free run',
    'C29': PB + 'generated calls, unfit arguments and faults, repeated; resources of the process measured around each call',
    'C30': PB + 'metamorphic: generated calls repeated in a generated surrounding (names, places, locale, earlier calls, stale outputs), results equal',
    'C31': 'generated interference of a second connection at storage operations of the call (transactions, locks, death), outputs compared with every committed state',
    'C23': PB + 'Hypothesis, differential between pygeodiff and the C interface',
    'C24': PB + 'differential between the command-line tool and the C interface',
}
