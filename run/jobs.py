"""Which recordings and models decide which property."""


def world(name, prof, n=1500, shards=6, args=(), salt=0):
    return dict(kind='trace', name=name, driver=['world', '--prof', prof], module='TraceWorld',
                n=dict(quick=n, thorough=n * 3), shards=dict(quick=shards, thorough=shards * 5),
                args=list(args), salt=salt)


def crowd(args=()):
    """Scenes of many bodies, fixtures, contacts and joints that come to rest."""
    return world('crowd', 'crowd', n=600, shards=4, args=args, salt=7)


def rec(name, driver, module, n=1500, shards=6, args=(), salt=0):
    return dict(kind='trace', name=name, driver=driver, module=module,
                n=dict(quick=n, thorough=n * 3), shards=dict(quick=shards, thorough=shards * 5),
                args=list(args), salt=salt)


def view(name, prof, n=1500, shards=6, salt=0):
    return rec(name, ['world', '--prof', prof], 'TraceView', n, shards, ['--mx', '1', '--jx', '1', '--vx', '1'], salt)


def hist(start, count, shards=2, walk=0):
    """Histories of MCWorld, enumerated (all of length 3) or random walks of length 12, replayed into the library."""
    return dict(kind='trace', name=('walk' if walk else 'all') + start, model='MCWorldRun', walk=60 if walk else 0,
                gen='GenWorld%s%d' % (start, 12 if walk else 3), start=start, driver=['script'], module='TraceWorld',
                count=dict(quick=count, thorough=count * 10), n=dict(quick=0, thorough=0),
                shards=dict(quick=shards, thorough=shards * 5))


def replays():
    return [hist('Near', 400), hist('Touch', 400), hist('Near', 120, walk=1), hist('Touch', 120, walk=1),
            mc('closed world', 'MCWorldRun', 'MCWorld', 'MCWorld3')]


def broad(count, shards=3, walk=0):
    """Histories of MCBroad, replayed into the broad phase."""
    return dict(kind='trace', name='walks' if walk else 'all', model='MCBroadRun', walk=60 if walk else 0,
                gen='GenBroad%d' % (14 if walk else 3), start='Broad', driver=['treescript'], module='TraceTree',
                count=dict(quick=count, thorough=count * 10), n=dict(quick=0, thorough=0),
                shards=dict(quick=shards, thorough=shards * 5))


def mc(name, module, quick, thorough=None, **kw):
    return dict(kind='mc', name=name, module=module, cfg=dict(quick=quick, thorough=thorough or quick), **kw)


JOBS = {
    'C01': dict(jobs=[world('mix', 'mix,destroy,joint,enable,pile', shards=12), crowd()] + replays()),
    'C02': dict(jobs=[world('pairs', 'mix,overlap,enable,pile,filter', shards=12), crowd()] + replays()),
    'C03': dict(jobs=[world('touch', 'overlap,mix,pile,destroy', shards=12, args=['--cont', '0']),
                      world('touchc', 'overlap,mix,pile,destroy', shards=3, args=['--cont', '1'], salt=1), crowd()] + replays()),
    'C04': dict(jobs=[world('solve', 'pile,overlap,mix', shards=9, args=['--cont', '0']),
                      world('solvec', 'pile,mix', shards=3, args=['--cont', '1'], salt=1),
                      rec('carry', ['contact'], 'TraceContact', n=2000, shards=3, salt=2), crowd()] + replays()),
    'C05': dict(jobs=[world('filter', 'filter', shards=9),
                      world('userfilter', 'filter,overlap', shards=3, args=['--cf', '1'], salt=1), crowd()] + replays()),
    'C06': dict(jobs=[world('joint', 'joint', shards=12), crowd()] + replays()),
    'C07': dict(jobs=[world('destroy', 'destroy,joint', shards=12), crowd()] + replays()),
    'C08': dict(jobs=[world('enable', 'enable', shards=12), crowd()] + replays()),
    'C09': dict(jobs=[world('sleep', 'sleep', shards=10, args=['--cont', '0']),
                      world('sleepmix', 'mix,pile,sleep', shards=3, salt=1), crowd(['--cont', '0'])] + replays()),
    'C10': dict(jobs=[world('wake', 'wake', shards=9, args=['--jx', '1']),
                      world('wakemix', 'joint,destroy,enable', shards=3, args=['--jx', '1'], salt=1), crowd(['--jx', '1'])] + replays()),
    'C11': dict(jobs=[rec('motion', ['motion'], 'TraceMotion', n=2500, shards=10)]),
    'C12': dict(jobs=[rec('motion', ['motion'], 'TraceMotion', n=2500, shards=10, salt=1)]),
    'C13': dict(jobs=[rec('motion', ['motion'], 'TraceMotion', n=2500, shards=10, salt=2)]),
    'C14': dict(jobs=[rec('contact', ['contact'], 'TraceContact', n=2000, shards=8),
                      rec('joint', ['joint'], 'TraceJoint', n=3000, shards=4, salt=2)]),
    'C15': dict(jobs=[rec('contact', ['contact'], 'TraceContact', n=2000, shards=12, salt=1)]),
    'C16': dict(jobs=[rec('toi', ['toi'], 'TraceToi', n=3000, shards=12)]),
    'C17': dict(jobs=[rec('joint', ['joint'], 'TraceJoint', n=3000, shards=12)]),
    'C18': dict(jobs=[rec('joint', ['joint'], 'TraceJoint', n=3000, shards=12, salt=1)]),
    'C19': dict(jobs=[rec('tree', ['tree'], 'TraceTree', n=2500, shards=9), broad(1500), broad(400, walk=1),
                      mc('closed broad phase', 'MCBroadRun', 'MCBroad', 'MCBroad4')]),
    'C20': dict(jobs=[view('rays', 'vray', shards=12)]),
    'C21': dict(jobs=[rec('shape', ['geo', '--mode', 'shape'], 'TraceGeo', n=4000, shards=12)]),
    'C22': dict(jobs=[rec('dist', ['geo', '--mode', 'dist'], 'TraceGeo', n=2500, shards=12)]),
    'C23': dict(jobs=[rec('mani', ['geo', '--mode', 'mani'], 'TraceGeo', n=4000, shards=12)]),
    'C24': dict(jobs=[view('shift', 'vshift', shards=9),
                      rec('follow', ['twin', '--mode', 'shift'], 'TraceTwin', n=3000, shards=4)]),
    'C25': dict(jobs=[rec('twin', ['twin', '--mode', 'same'], 'TraceTwin', n=3000, shards=12)]),
    'C26': dict(jobs=[view('save', 'vsave', shards=12)]),
    'C27': dict(jobs=[rec('rope', ['rope'], 'TraceRope', n=3000, shards=12)]),
    'C28': dict(jobs=[view('draw', 'vdraw', shards=12)]),
    'C29': dict(jobs=[rec('defs', ['defs'], 'TraceDefs', n=5000, shards=12)]),
    'C30': dict(jobs=[rec('alg', ['alg'], 'TraceAlg', n=20000, shards=8)]),
}
