"""The registered checks: drivers, trace modules and design models per property."""
FULL = ['-lcfitsio', '-lcurl', '-llapack', '-lgsl', '-lgslcblas', '-lm', '-lwcs', '-lfftw3']


def mc(module, consts=(), invs=(), spec='Spec', **kw):
    lines = ['SPECIFICATION ' + spec]
    if consts:
        lines += ['CONSTANTS'] + ['  ' + c for c in consts]
    lines += ['INVARIANT ' + i for i in invs]
    lines += ['CHECK_DEADLOCK ' + ('TRUE' if kw.pop('deadlock', False) else 'FALSE')]
    lines += ['PROPERTY ' + p for p in kw.pop('props', [])]
    return dict(module=module, cfg=lines, **kw)


CHECKS = {}

CHECKS['C01'] = dict(
    drivers=[dict(name='index', src=['index1.cpp', 'index2.cpp', 'index2b.cpp', 'index3.cpp', 'index4.cpp'], opt='-O0', trace='VecIndexTrace')],
    mc=[mc('VecIndexMC', ['MaxN = 2', 'MaxD = 2'],
           ['LayoutBijective', 'ResultShaped', 'FullIdentity', 'ElementWise', 'Compose'], min_states=1000)],
    min_events=2000,
)

CHECKS['C02'] = dict(
    drivers=[dict(name='assign', src=['assign.cpp'], trace='VecAssignTrace', opt='-O0')],
    mc=[mc('VecAssignMC', ['N = 3', 'Steps = 2'], ['Shaped', 'AsIf', 'NoInvention'], min_states=1000)],
    min_events=5000,
)

CHECKS['C03'] = dict(
    drivers=[dict(name='life', src=['life.cpp'], trace='VecLifeTrace', opt='-O0')],
    mc=[mc('VecLifeMC', ['D = 1', 'MaxN = 2', 'Steps = 4'], ['ShapeInvariant'], min_states=100),
        mc('VecLifeMC', ['D = 2', 'MaxN = 2', 'Steps = 3'], ['ShapeInvariant'], min_states=100)],
    min_events=3000,
)

CHECKS['C04'] = dict(
    drivers=[dict(name='ops', src=['ops.cpp', 'ops_b.cpp', 'ops_c.cpp', 'ops_d.cpp'], trace='VecOpsTrace', opt='-O0')],
    mc=[mc('VecOpsMC', ['M = 5'], ['ScalarIsConstant', 'DivMod', 'Trichotomy', 'Negation'], min_states=1000)],
    min_events=3000,
)


def thr(name, **kw):
    src = ['thr_main.cpp', 'thr_%s.cpp' % name, 'thr_s_%s.cpp' % name]
    return [dict(name=name + '_sched', src=src, flags=['-DVP_SCHED'], opt='-O1', trace='ThreadTrace', **kw),
            dict(name=name + '_real', src=src, asan=False, flags=['-fsanitize=thread'], opt='-O1', trace='ThreadTrace', shards=4)]


CHECKS['C19'] = dict(
    drivers=thr('queue'), confirm=8, min_events=1000,
    mc=[mc('SpscQueueMC', ['NPush = 3', 'NPop = 4'], ['Ok', 'FailOnlyEmpty', 'InOrder', 'NoLeak'], props=['Refines'], min_states=500)],
)
CHECKS['C20'] = dict(
    drivers=thr('worker'), confirm=8, min_events=200,
    mc=[mc('WorkerMC', ['NJobs = 4', 'NWaits = 3'], ['InOrder', 'AllDoneAfterWait'], props=['WaitEnds'], min_states=100)],
)
CHECKS['C21'] = dict(
    drivers=thr('pool'), confirm=8, min_events=200,
    mc=[mc('PoolMC', ['N = 2', 'NItems = 3'], ['OnceInOrder', 'AllProcessed', 'NothingRunning'], props=['PollEnds', 'JoinEnds'], min_states=1000)],
)
CHECKS['C22'] = dict(
    drivers=thr('pfor'), confirm=8, min_events=500,
    mc=[mc('PforMC', ['MaxA = 2', 'MaxN = 4', 'MaxW = 2', 'MaxChunk = 2'], ['AtMostOnce', 'ExactlyOnce'], props=['Ends'], min_states=500)],
)
CHECKS['C05'] = dict(
    drivers=[dict(name='find', src=['find.cpp'], trace='FindTrace', opt='-O0')], min_events=2000,
    mc=[mc('FindMC', ['N = 4', 'M = 2'], ['Partition', 'Ends', 'RoundTrip', 'Neg', 'IncrCycle'], min_states=500)],
)
CHECKS['C06'] = dict(
    drivers=[dict(name='order', src=['order1.cpp', 'order2.cpp', 'order3.cpp'], trace='OrderTrace', opt='-O0')], min_events=2000,
    mc=[mc('OrderMC', ['N = 3', 'Vals = {1, 2, 3, 2000000001, 2000000003}'], ['OneSort', 'Unique', 'MatchSound', 'MatchComplete', 'Bounds', 'Equal'], min_states=500, workers=4)],
)
CHECKS['C07'] = dict(
    drivers=[dict(name='rearr', src=['rearr1.cpp', 'rearr2.cpp'], trace='RearrTrace', opt='-O0')], min_events=2000,
    mc=[mc('RearrMC', ['M = 2', 'D = 3'], ['JoinShape', 'JoinPart', 'JoinRemove', 'Involution', 'ShiftBack', 'ShiftCycle', 'RepShape'], min_states=1000, workers=4)],
)
CHECKS['C08'] = dict(
    drivers=[dict(name='reduce', src=['reduce1.cpp', 'reduce2.cpp', 'reduce3.cpp'], trace='ReduceTrace', opt='-O0', libs=['-lgsl', '-lgslcblas', '-lm'])], min_events=2000,
    mc=[mc('ReduceMC', ['N = 4', 'Vals = {0, 1, 3, 2000000001}'], ['Bounds', 'Extremes', 'MedianPct', 'NanIgnored', 'UnitWeights', 'SlicesPartition'], min_states=1000, workers=4)],
)
CHECKS['C09'] = dict(
    drivers=[dict(name='hist', src=['hist.cpp'], trace='HistTrace', opt='-O0', libs=['-lgsl', '-lgslcblas', '-lm'])], min_events=2000,
    mc=[mc('HistMC', ['N = 3', 'Vals = {0, 1, 2, 3, 4, 2000000001}', 'E = 4'], ['Partition', 'OpenPartition', 'Weights', 'TwoD', 'Ends'], min_states=1000, workers=4)],
)
CHECKS['C10'] = dict(
    drivers=[dict(name='interp', src=['interp.cpp'], trace='InterpTrace', opt='-O0', libs=['-lgsl', '-lgslcblas', '-lm'])], min_events=2000,
    mc=[mc('InterpMC', ['N = 3', 'Y = 2', 'W = 2'], ['Nodes', 'Additive', 'Whole', 'LineIsSpline'], min_states=1000, workers=4)],
)
CHECKS['C11'] = dict(
    drivers=[dict(name='str', src=['str1.cpp', 'str2.cpp'], trace='StrTrace', opt='-O0', std='c++14')], min_events=2000,
    mc=[mc('StrMC', ['N = 4', 'M = 2'], 'SplitJoin ReplaceId ReplaceRemoves CutJoin TakeDrop TrimIdem BeginEnd Dist Cased Aligned Wrapped Indented Ellipsed BlockSound MBlockSound RunsOfA Anchored'.split(), min_states=1000, workers=4)],
)
CHECKS['C12'] = dict(
    drivers=[dict(name='conv', src=['conv.cpp'], trace='ConvTrace', opt='-O0')], min_events=2000,
    mc=[mc('ConvMC', ['M = 120', 'X = 7'], 'RoundTripGen RoundTripSci RoundTripFix FixShape SciShape GenShort IntIsReal Blanks'.split(), min_states=1000, workers=4)],
)
CHECKS['C13'] = dict(
    drivers=[dict(name='asc', src=['asc.cpp'], trace='AsciiTrace', opt='-O0', libs=FULL)], min_events=2000,
    mc=[mc('AsciiMC', ['R = 2'], ['RoundTrip', 'Aligned'], min_states=1000)],
)
FITSMC = mc('FitsMC', ['Steps = 4', 'MaxHdu = 3'], ['Ok', 'ReadBack', 'OthersKept', 'ReachKeeps', 'ColsKept'], min_states=10000, workers=4)
CHECKS['C14'] = dict(
    drivers=[dict(name='fitst', src=['fits1.cpp', 'fits2.cpp'], trace='FitsTrace', opt='-O0', std='c++14', flags=['-DVP_TABLES'], libs=FULL)], min_events=5000,
    mc=[FITSMC],
)
CHECKS['C15'] = dict(
    drivers=[dict(name='fitsi', src=['fits1.cpp', 'fits2.cpp'], trace='FitsTrace', opt='-O0', std='c++14', libs=FULL)], min_events=5000,
    mc=[FITSMC],
)
CHECKS['C17'] = dict(
    drivers=[dict(name='fs', src=['fs.cpp'], trace='FsTrace', opt='-O0')], min_events=5000,
    mc=[mc('FsMC', ['Steps = 3'], 'Ok MkdirMakes CopySame MoveKeeps SureIsMay DelOnly Lists PathLaws'.split(), min_states=1000, workers=4)],
)
CHECKS['C18'] = dict(
    drivers=[dict(name='argv', src=['argv.cpp'], trace='ArgvTrace', opt='-O0')], min_events=5000,
    mc=[mc('ArgvMC', ['MaxLen = 2'], 'RoundTrip Stable Independent Owners Remain Dashes FlagIsOne'.split(), min_states=200, workers=4)],
)
CHECKS['C16'] = dict(
    drivers=[dict(name='hdr', src=['hdr.cpp'], trace='HdrTrace', opt='-O0', std='c++14', libs=FULL)], min_events=3000,
    mc=[mc('HdrMC', ['Steps = 2'], 'Found Accepted Others EndLast Once Agree'.split(), min_states=1000, workers=4)],
)
CHECKS['C23'] = dict(
    drivers=[dict(name='xmatch', src=['xmatch.cpp'], trace='XmatchTrace', opt='-O1', libs=FULL)], min_events=500,
    mc=[mc('XmatchMC', ['W = 6', 'M = 2'], ['Found', 'Distinct', 'Mutual'], min_states=1000, workers=4),
        mc('XmatchMC', ['W = 16', 'M = 1'], ['Found', 'Distinct', 'Mutual'], min_states=1000, workers=4)],
)
CHECKS['C24'] = dict(
    drivers=[dict(name='sky', src=['sky.cpp'], trace='SkyTrace', opt='-O1', libs=FULL)], min_events=1000,
    mc=[mc('SkyMC', ['Step = 45'], 'Symmetric Triangle Zero Normal Written'.split(), min_states=1000, workers=4)],
)
CHECKS['C25'] = dict(
    drivers=[dict(name='image', src=['image1.cpp', 'image2.cpp'], trace='ImageTrace', opt='-O1', libs=FULL)], min_events=2000,
    mc=[mc('ImageMC', ['N = 3', 'V = 1'], 'GrowShrink Flips ShiftBack TransShift Centred Cover ConvId Inflated Segments'.split(), min_states=1000, workers=4)],
)
CHECKS['C26'] = dict(
    drivers=[dict(name='linalg', src=['linalg.cpp'], trace='LinAlgTrace', opt='-O1', libs=FULL),
             dict(name='linalgn', src=['linalg.cpp'], trace='LinAlgTrace', opt='-O1', flags=['-DNO_LAPACK'], libs=FULL)], min_events=3000,
    mc=[mc('LinAlgMC', ['V = 1', 'N = 2'], 'Inverses Product Cramer Zero Positive LeastSquares Limits Round'.split(), min_states=1000, workers=4)],
)

CHECKS['C27'] = dict(
    drivers=[dict(name='hull', src=['hull.cpp'], trace='HullTrace', opt='-O1', libs=FULL)], min_events=800,
    mc=[mc('HullMC', ['W = 3', 'N = 4'], 'IsTheHull Members Reversed Distances'.split(), min_states=5000, workers=4)],
)
CHECKS['C28'] = dict(
    drivers=[dict(name='wcs', src=['wcs.cpp'], trace='WcsTrace', opt='-O1', libs=FULL)], min_events=800,
    mc=[mc('WcsMC', ['R = 3'], 'Axes Reference Isometry NorthOk Units'.split(), min_states=5000, workers=4)],
)
CHECKS['C29'] = dict(
    drivers=[dict(name='regrid', src=['regrid.cpp'], trace='RegridTrace', opt='-O1', libs=FULL)], min_events=1000,
    mc=[mc('RegridMC', ['N = 2', 'C = {3, 8}', 'S = {1, 2}'], 'Conserve Once Symmetric Same Between Centred Turned5'.split(), min_states=5000, workers=4)],
)

CHECKS['C30'] = dict(
    drivers=[dict(name='random', src=['random.cpp'], trace='RandomTrace', opt='-O1')], min_events=1000,
    mc=[mc('RandomMC', ['R = 3', 'W = 2', 'L = 3'], 'Ints Picks Orders Exact Surface Notice'.split(), min_states=5000, workers=4)],
)

CHECKS['C31'] = dict(
    drivers=[dict(name='hash', src=['hash.cpp'], trace='HashTrace', opt='-O1')], min_events=500,
    mc=[mc('HashMC', ['N = 130'], 'Padded Known Documented Words Injective'.split(), min_states=5000, workers=4)],
)
