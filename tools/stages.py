"""What is done to decide each property."""
ASSUMPTIONS = [
    'inputs of the sampled histories are short (at most a few dozen tokens)',
    'grammars are drawn from a seeded distribution, or enumerated up to a small size',
    'the projection of values, positions and errors in harness/src/obs.rs is faithful',
]


def parse(profile, cmp, n, *args, d=True):
    return {'kind': 'trace', 'name': 'parse/%s/%s %s' % (profile, cmp, ' '.join(args)), 'cmd': 'parse', 'n': n, 'spec': 'ParseTrace',
            'env': {'CMP': cmp}, 'args': ['--profile', profile, '--errors', 'no' if cmp == 'outcome' else 'yes', *args]}


def resume(profile, msgs, n, *args, k=1):
    return {'kind': 'trace', 'name': 'resume/%s/%s %s' % (profile, msgs, ' '.join(args)), 'cmd': 'resume', 'n': n, 'spec': 'ResumeTrace',
            'env': {'MSGS': msgs}, 'args': ['--profile', profile, '--msgs', str(k), *args]}


def every(st, focus, deep=None, step=1, upto=3):
    """All small inputs of all terms of a kind, which the specification enumerates; `deep` terms two levels deep."""
    k = st['cmd']
    return dict(st, name='every %s/%s%s' % (focus, 'deep ' if deep else '', st['name']), terms={'FOCUS': focus, 'DEEP': 'yes' if deep else 'no'},
                step=step, min_terms=25, batch=24000 if k == 'parse' else 2500, args=st['args'] + ['--upto', str(upto)])


def laws(prop):
    """The laws of the specification itself."""
    return model('CombineLaws', cfg='CombineLaws%s.cfg' % prop, cfgt='CombineLaws%s_thorough.cfg' % prop, min_states=3000)


def static(st):
    """The same with parsers built into one another instead of behind pointers."""
    return dict(st, bin='cvt', name='static/' + st['name'])


def dec(profile, n, *args):
    return {'kind': 'trace', 'name': 'dec/%s %s' % (profile, ' '.join(args)), 'cmd': 'dec', 'n': n, 'spec': 'DecoderTrace',
            'args': ['--profile', profile, *args]}


def streams(profile, cmp, n, *args, per=6):
    return {'kind': 'trace', 'name': 'streams/%s/%s %s' % (profile, cmp, ' '.join(args)), 'bin': 'cvs', 'cmd': 'streams', 'n': n, 'spec': 'StreamsTrace',
            'env': {'CMP': cmp}, 'args': ['--profile', profile, '--per', str(per), *args]}


def ops(n, *args):
    return {'kind': 'trace', 'name': 'ops ' + ' '.join(args), 'bin': 'cvs', 'cmd': 'ops', 'n': n, 'spec': 'StreamOpsTrace', 'args': list(args)}


def big(n, *args):
    return {'kind': 'trace', 'name': 'big ' + ' '.join(args), 'cmd': 'big', 'n': n, 'nt': n * 8, 'spec': 'BigTrace', 'args': list(args)}


def units(what, n):
    return {'kind': 'trace', 'name': 'units ' + what, 'bin': 'cvs', 'cmd': 'units', 'n': n, 'nt': n * 5, 'spec': 'UnitTrace', 'args': ['--what', what]}


def bufs(n, *a):
    return {'kind': 'trace', 'name': ' '.join(['bufs'] + list(a)), 'bin': 'cvh', 'cmd': 'bufs', 'n': n, 'nt': n * 10, 'spec': 'BufReaderTrace', 'args': list(a)}


def errs(n):
    return {'kind': 'trace', 'name': 'errs', 'bin': 'cvs', 'cmd': 'errs', 'n': n, 'spec': 'ErrorOpsTrace', 'args': []}


def model(spec, **k):
    return dict({'kind': 'model', 'name': spec, 'spec': spec, 'cfg': spec + '.cfg', 'min_states': 100}, **k)


B = ['--stream', 'bytes']
W = ['--alpha', 'aEKG']
NL = ['--alpha', 'aEn']
M = ['--alpha', 'aEKG']
L = ['--stretch', '60']
MB = ['--stream', 'bytes', '--alpha', 'aEKG1']
PROPS = {
    'C01': [laws('C01'), every(resume('all', 'first', 0), 'all'), every(resume('all', 'first', 0), 'all', True, 53, 4), every(resume('all', 'first', 0, *B), 'all', None, 4),
            resume('all', 'first', 14000, '--focus', 'stateful'), resume('repeat', 'first', 8000, '--focus', 'repeat'),
            resume('all', 'first', 8000), resume('repeat', 'first', 4000), resume('range', 'first', 5000, '--focus', 'range'),
            resume('range', 'first', 3000), resume('all', 'first', 4000, *B), resume('all', 'first', 4000, *M),
            static(resume('all', 'first', 5000, '--focus', 'stateful')), static(resume('all', 'first', 1500, '--focus', 'big')), static(resume('all', 'first', 3000)),
            resume('repeat', 'first', 900, '--focus', 'repeat', *L), resume('all', 'first', 600, *L)],
    'C02': [dec('all', 4000, '--faults', '0'), dec('repeat', 3000, '--faults', '0'), dec('range', 3000, '--faults', '0'),
            dec('all', 1500, '--faults', '0', '--long', '40'),
            big(2500, '--faults', '0'), dec('repeat', 900, '--faults', '0', *L)],
    'C03': [laws('C03'), every(parse('all', 'outcome', 0), 'choice'), every(parse('all', 'outcome', 0), 'choice', True, 3), every(static(parse('all', 'outcome', 0)), 'choice', True, 9),
            parse('all', 'outcome', 16000, '--focus', 'choice'), parse('choice', 'outcome', 10000), parse('look', 'outcome', 3000),
            parse('all', 'outcome', 5000), parse('choice', 'outcome', 4000, *B),
            static(parse('all', 'outcome', 6000, '--focus', 'choice')), static(parse('all', 'outcome', 2000, '--focus', 'big'))],
    'C04': [laws('C04'), every(parse('all', 'outcome', 0), 'look', None, 1, 5), every(parse('all', 'outcome', 0), 'look', True, 1, 4), every(static(parse('all', 'outcome', 0)), 'look', True),
            parse('all', 'outcome', 8000, '--focus', 'look'), parse('look', 'outcome', 10000), parse('all', 'outcome', 5000), parse('look', 'outcome', 4000, *M),
            static(parse('all', 'outcome', 6000, '--focus', 'look')), static(parse('look', 'outcome', 3000))],
    'C05': [laws('C05'), every(parse('all', 'outcome', 0), 'seq', None, 1, 4), every(parse('all', 'outcome', 0), 'seq', True, 3), every(static(parse('all', 'outcome', 0)), 'seq', True, 9),
            parse('all', 'outcome', 20000, '--focus', 'seq'), parse('seq', 'outcome', 10000), parse('all', 'outcome', 5000), parse('seq', 'outcome', 4000, *B),
            static(parse('all', 'outcome', 6000, '--focus', 'seq')), static(parse('all', 'outcome', 2000, '--focus', 'big')),
            parse('seq', 'outcome', 1000, *L)],
    'C06': [laws('C06'), every(parse('all', 'outcome', 0), 'repeat', None, 1, 5), every(parse('all', 'outcome', 0), 'repeat', True, 5), every(static(parse('all', 'outcome', 0)), 'repeat', True, 15),
            parse('all', 'outcome', 24000, '--focus', 'repeat'), parse('repeat', 'outcome', 10000), parse('all', 'outcome', 5000), parse('repeat', 'outcome', 4000, *B),
            static(parse('all', 'outcome', 8000, '--focus', 'repeat')), static(parse('repeat', 'outcome', 3000)),
            parse('repeat', 'outcome', 2500, '--focus', 'repeat', *L), static(parse('repeat', 'outcome', 1500, *L))],
    'C07': [every(parse('all', 'errors', 0), 'all', None, 1, 4), every(parse('all', 'errors', 0), 'all', True, 7), every(static(parse('all', 'errors', 0)), 'all', True, 23),
            parse('all', 'errors', 24000, '--focus', 'all'), parse('error', 'errors', 12000), parse('all', 'errors', 5000), parse('choice', 'errors', 5000), parse('seq', 'errors', 4000),
            static(parse('all', 'errors', 5000, '--focus', 'all')), static(parse('all', 'errors', 1500, '--focus', 'big')), static(parse('error', 'errors', 3000)),
            parse('all', 'errors', 2000, '--focus', 'all', *L)],
    'C08': [model('ErrorLaws'), errs(16000)],
    'C09': [laws('C09'), every(parse('all', 'all', 0), 'label', None, 1, 5), every(parse('all', 'all', 0), 'label', True, 1, 4), every(static(parse('all', 'all', 0)), 'label', True),
            parse('all', 'errors', 10000, '--focus', 'label'), parse('label', 'errors', 14000), parse('all', 'errors', 5000), parse('label', 'outcome', 4000),
            static(parse('all', 'errors', 5000, '--focus', 'label')), static(parse('label', 'errors', 3000))],
    'C10': [streams('all', 'outcome', 5000, '--focus', 'all'), streams('all', 'outcome', 2500), streams('range', 'outcome', 2500, '--focus', 'range'),
            streams('all', 'outcome', 2500, *B), ops(2500), ops(1500, *W)],
    'C11': [ops(6000, '--kind', 'buffered'), streams('look', 'outcome', 1500, '--kind', 'buffered'), streams('all', 'outcome', 1500, '--kind', 'buffered', *B)],
    'C12': [streams('all', 'pos', 4000, '--posn', '1', *NL), streams('all', 'pos', 3000, '--focus', 'all', *NL), streams('all', 'pos', 2500, '--posn', '1', *B, '--alpha', 'abn'),
            streams('range', 'pos', 2000, '--posn', '1', '--long', '1', *NL), ops(2500, '--alpha', 'aEKn')],
    'C13': [ops(6000), ops(5000, *W), streams('range', 'outcome', 2500, '--focus', 'range', '--long', '1'), streams('range', 'outcome', 1500, '--focus', 'range', '--long', '1', *W), streams('range', 'outcome', 2500, '--focus', 'range', '--long', '1', *B)],
    'C17': [errs(6000), streams('all', 'errors', 4000, '--focus', 'all'), streams('error', 'errors', 3000), streams('choice', 'errors', 2000, *B),
            resume('all', 'all', 3500, '--err', 'plain', '--focus', 'all', k=2), resume('all', 'all', 2500, '--err', 'plain', '--how', 'tokio', k=2),
            resume('all', 'all', 2500, '--err', 'plain', '--how', 'tokio', *B, k=2), resume('label', 'all', 2500, '--how', 'tokio', k=2)],
    'C14': [dec('all', 4000, '--faults', '1'), dec('repeat', 3000, '--faults', '1'), dec('range', 3000, '--faults', '1'),
            big(2500, '--faults', '1'), dec('repeat', 900, '--faults', '1', *L)],
    'C16': [every(resume('all', 'later', 0, k=3), 'all', None, 7, 4), every(resume('all', 'later', 0, k=3), 'all', True, 101, 4),
            resume('all', 'later', 10000, '--focus', 'stateful', k=4), resume('repeat', 'later', 6000, '--focus', 'repeat', k=4), resume('all', 'later', 5000, k=4),
            resume('repeat', 'later', 4000, k=4), resume('seq', 'later', 3000, k=4), resume('range', 'later', 3000, k=4),
            static(resume('all', 'later', 4000, '--focus', 'stateful', k=4)), static(resume('all', 'later', 1500, '--focus', 'big', k=3)),
            resume('repeat', 'later', 600, '--focus', 'repeat', *L, k=3)],
    'C18': [every(parse('all', 'all', 0), 'wrap', None, 1, 4), every(parse('all', 'all', 0), 'wrap', True, 3), every(resume('all', 'all', 0), 'wrap'), every(static(parse('all', 'all', 0)), 'wrap', True, 9), every(resume('all', 'all', 0), 'wrap', True, 24),
            parse('all', 'all', 18000, '--focus', 'wrap'), parse('wrap', 'all', 8000), parse('wrap', 'outcome', 5000, '--focus', 'wrap'), resume('wrap', 'all', 5000, k=3), resume('all', 'all', 6000, '--focus', 'wrap', k=3), parse('wrap', 'all', 4000, *B),
            static(parse('all', 'all', 6000, '--focus', 'wrap')), static(parse('wrap', 'all', 3000)), static(resume('all', 'all', 2000, '--focus', 'wrap', k=3))],
    'C15': [units('num', 12000), parse('bytes', 'all', 9000, *MB, '--focus', 'bytes'), parse('bytes', 'outcome', 5000, *B, '--focus', 'bytes'), parse('all', 'outcome', 3000, *MB, '--focus', 'bytes'),
            resume('bytes', 'first', 6000, *MB, '--focus', 'bytes', k=2), resume('bytes', 'all', 4000, *B, '--focus', 'bytes', k=2), streams('bytes', 'outcome', 2500, *MB, '--focus', 'bytes'),
            streams('bytes', 'outcome', 1500, *B, '--focus', 'bytes', '--long', '1')],
    'C19': [parse('all', 'all', 12000, '--focus', 'iter'), parse('repeat', 'all', 6000, '--focus', 'iter'), parse('all', 'all', 5000, '--focus', 'iter', *M), parse('all', 'outcome', 3000, '--focus', 'iter', *B),
            parse('all', 'all', 5000, '--entry', '1'), parse('error', 'all', 4000, '--entry', '1'), parse('all', 'all', 3000, '--focus', 'iter', '--entry', '1')],
    'C20': [units('class', 400), parse('tokens', 'all', 10000, '--focus', 'tokens'), parse('tokens', 'all', 6000, '--focus', 'tokens', '--alpha', 'aEKGn'), parse('tokens', 'all', 6000, '--focus', 'tokens', *B),
            parse('all', 'outcome', 4000, '--focus', 'tokens'), resume('tokens', 'all', 5000, '--focus', 'tokens', k=2), streams('tokens', 'outcome', 2500, '--focus', 'tokens'), streams('tokens', 'outcome', 1500, '--focus', 'tokens', *B)],
    'C21': [parse('regex', 'all', 6000), parse('regex', 'all', 4000, '--focus', 'regex'), parse('regex', 'all', 3500, *B), parse('all', 'outcome', 4000, '--focus', 'regex'),
            streams('regex', 'outcome', 3000, '--focus', 'regex'), streams('regex', 'outcome', 2000, *B)],
    'C22': [model('BufReaderLaws', min_states=14), bufs(16000), bufs(1500, '--long', '20000')],
}
