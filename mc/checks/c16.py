"""
C16: the homogenization engine computes every corrector and coefficient from
its own requirements and microstructure, whatever the way of execution.
"""
import itertools
import os
import sys
import tempfile
from types import SimpleNamespace

import numpy as nm

from mc.choices import all_runs
from mc.core import Mismatch, Skip, require
from mc import mpstub

PID = 'C16'
LEVEL = 'exploration'
RULE = ('a case = a graph of requirements x microstructures x chunking x stored'
        ' microstructures x a schedule of the tasks; or a sequence of updates'
        ' of microstructures; or a micro-problem with an assignment of'
        ' materials')
ASSUMPTIONS = [
    'the processes are replaced by threads under a controlled scheduler, with'
    ' everything passed by value (pickled), shared dictionaries excepted',
    'the oracle of the engine is a recursive evaluation of the graph by'
    ' correctors and coefficients that return what they were given',
    'the reference of the effective coefficients is an independent dense'
    ' assembling of the periodic problem',
]
BOUNDS = {
    'quick': 'all graphs of 2 correctors and 2 coefficients (serial: 3'
             ' correctors), 1-4 microstructures, chunks of 1-3, all completion'
             ' orders, one preemption; 10-21 microstructures in up to 21 chunks',
    'thorough': 'all graphs of 3 correctors and 2 coefficients, 1-5'
                ' microstructures, two preemptions; 9-101 microstructures in'
                ' up to 101 chunks',
}
LIMIT = 850

_mods = None

def modules():
    """
    The sfepy modules, with the processes replaced.
    """
    global _mods
    if _mods is None:
        mpstub.install()
        import sfepy.discrete
        import sfepy.homogenization.multiproc as multiproc
        import sfepy.homogenization.engine as engine
        import sfepy.homogenization.homogen_app as app
        import sfepy.homogenization.coefs_base as cb
        _mods = SimpleNamespace(multiproc=multiproc, engine=engine, app=app,
                                cb=cb)
    return _mods

def prepare(tier):
    modules()

class Val:
    """
    A result: what it was computed from.
    """
    def __init__(self, name, tree):
        self.name = name
        self.tree = tree

def tree_of(val):
    return val.tree if isinstance(val, Val) else val

class Corr:
    """
    A corrector.
    """
    def __new__(cls, name, problem, kwargs):
        base = modules().cb.CorrMiniApp
        new = globals().get('_Corr')
        if new is None:
            def call(self, problem=None, data=None):
                pb = self.problem if problem is None else problem
                pb.cleared = False
                pb.fields['f'].mappings0[(self.name, 'map')] = 'cmap'
                return Val(self.name,
                           ('R', self.tag, pb.where(), self.save_name,
                            tuple(sorted((key, tree_of(val))
                                         for key, val in data.items()))))
            new = globals()['_Corr'] = type('_Corr', (base,),
                                            {'__call__': call,
                                             '__module__': __name__})
        return new(name, problem, kwargs)

class Coef:
    """
    A coefficient.
    """
    def __new__(cls, name, problem, kwargs):
        base = modules().cb.MiniAppBase
        new = globals().get('_Coef')
        if new is None:
            def call(self, volume, problem=None, data=None):
                pb = self.problem if problem is None else problem
                return ('C', self.tag, pb.where(),
                        tuple(sorted(volume.items())),
                        tuple(sorted((key, tree_of(val))
                                     for key, val in data.items())))
            new = globals()['_Coef'] = type('_Coef', (base,),
                                            {'__call__': call,
                                             '__module__': __name__})
        return new(name, problem, kwargs)

class Field:
    def __init__(self):
        self.mappings0 = {}

class Problem:
    """
    A stand-in of the micro-problem.
    """
    def __init__(self, conf, output_dir):
        self.conf = conf
        self.output_dir = output_dir
        self.fields = {'f': Field()}
        self.micro_state = None
        self.coors = None
        self.n_clear = 0
        self.outinfo = None

    def clear_equations(self):
        self.n_clear += 1

    def set_mesh_coors(self, coors, update_fields=False, actual=False,
                       clear_all=True, extra_dofs=False):
        self.coors = coors.copy()

    def get_variables(self, auto_create=False):
        return {}

    def get_dim(self):
        return 2

    def setup_output(self, **kwargs):
        self.outinfo = kwargs

    def where(self):
        """
        The microstructure being solved.
        """
        if self.micro_state is None:
            return None
        state, im = self.micro_state
        return (float(self.coors[0, 0]), state['id'][im],
                None if state['u'] is None else float(state['u'][im, 0]))

class Options:
    """
    Options of a problem configuration.
    """
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)

    def get(self, key, default=None, msg_if_none=None):
        out = self.__dict__.get(key, default)
        if (out is None) and (msg_if_none is not None):
            raise ValueError(msg_if_none)
        return out

class Conf:
    _filename = '/tmp/dir/micro.py'
    filename_mesh = 'micro.mesh'


    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)

    def get(self, key, default=None, msg_if_none=None):
        return getattr(self, key, default)

    def get_function(self, name):
        return HOOKS[name] if isinstance(name, str) else name

def hook(problem, corrs, macro):
    """
    A recovery hook.
    """
    return (tuple(sorted((key, repr(tree_of(val)))
                         if not isinstance(val, list) else
                         (key, tuple(repr(tree_of(iv)) for iv in val))
                         for key, val in corrs.items())), macro)

HOOKS = {'hook': hook}

def subsets(items):
    items = list(items)
    return [list(sub) for num in range(len(items) + 1)
            for sub in itertools.combinations(items, num)]

def graphs(n_req, n_coef=2):
    """
    All the acyclic graphs: every item can require the items before it.
    """
    reqs = ['r%d' % ii for ii in range(n_req)]
    coefs = ['A', 'AB'][:n_coef]
    opts = [subsets(reqs[:ii]) for ii in range(n_req)]
    opts += [subsets(reqs + ['c.' + cc for cc in coefs[:ii]])
             for ii in range(n_coef)]
    for deps in itertools.product(*opts):
        yield dict(zip(reqs + ['c.' + cc for cc in coefs], deps))

def make_infos(graph, order, with_save=True, aux=()):
    """
    The definitions of correctors and coefficients.
    """
    names = list(graph)
    if order == 'rev':
        names = names[::-1]
    elif order == 'mix':
        names = names[1::2] + names[::2]
    reqs, coefs = {}, {}
    for name in names:
        deps = graph[name][::-1] if order == 'rev' else list(graph[name])
        if name.startswith('c.'):
            info = {'class': Coef, 'tag': name[2:]}
            if name in aux:
                info['status'] = 'auxiliary'
            coefs[name[2:]] = info
        else:
            info = {'class': Corr, 'tag': name}
            if with_save:
                info['save_name'] = 'save_' + name
            reqs[name] = info
        if deps or (order != 'mix'):
            info['requires'] = deps
    return reqs, coefs

def closure(graph, names):
    out = set()
    def add(name):
        if name not in out:
            out.add(name)
            for dep in graph[name]:
                add(dep)
    for name in names:
        add(name)
    return out

class Oracle:
    """
    The values by a recursive evaluation.
    """
    def __init__(self, graph, states, volumes, store=(), time_tag='',
                 output_dir='', with_save=True):
        self.__dict__.update(locals())

    def where(self, im):
        if self.states is None:
            return None
        st = self.states
        return (float(st['coors'][im][0, 0]), st['id'][im],
                None if st['u'] is None else float(st['u'][im, 0]))

    def base(self, name):
        return os.path.normpath(os.path.join(self.output_dir,
                                             'save_' + name)) + self.time_tag

    def save_name(self, name, im):
        if not self.with_save:
            return None
        if im is None:
            return self.base(name)
        if im in self.store:
            return self.base(name) + '_%04d' % im
        return None

    def value(self, name, im):
        data = tuple(sorted((dep, self.value(dep, im))
                            for dep in self.graph[name]))
        if name.startswith('c.'):
            return ('C', name[2:], self.where(im),
                    tuple(sorted(self.volumes.items())), data)
        return ('R', name, self.where(im), self.save_name(name, im), data)

    def result(self, name):
        if self.states is None:
            return self.value(name, None)
        return [self.value(name, im)
                for im in range(len(self.states['coors']))]

    def save_names(self, names):
        out = {}
        for name in names:
            if name.startswith('c.') or not self.with_save:
                continue
            if self.states is None:
                out[name] = self.base(name)
            elif len(self.store):
                out[name] = [self.save_name(name, im)
                             for im in sorted(self.store)]
        return out

def make_states(n_micro, shift=0.0, with_u=True):
    if n_micro is None:
        return None
    coors = nm.zeros((n_micro, 3, 2))
    coors += (nm.arange(n_micro) + 1.0 + shift)[:, None, None]
    return {'coors': coors, 'id': ['m%d' % ii for ii in range(n_micro)],
            'u': (10.0 * nm.arange(n_micro) + shift)[:, None]
            if with_u else None}

def plain(val):
    if isinstance(val, list):
        return [plain(iv) for iv in val]
    return tree_of(val)

def compare(name, value, expected):
    value = plain(value)
    if value != expected:
        raise Mismatch('%s: %s instead of %s' % (name, value, expected))

def make_engine(reqs, coefs, output_dir, volumes, multi, conf_kwargs=None,
                **options):
    eng = modules().engine
    opts = Options(coefs='coefs_def', requirements='reqs_def',
                   multiprocessing=multi, output_dir=output_dir, **options)
    conf = Conf(coefs_def=coefs, reqs_def=reqs, options=opts,
                **(conf_kwargs or {}))
    problem = Problem(conf, output_dir)
    args = Options(output_filename_trunk=None)
    he = eng.HomogenizationEngine(problem, args, volumes=volumes)
    return he, problem

def check_coefs(coefs, deps, oracle, graph, main, volumes, aux=()):
    """
    The results of the engine.
    """
    names = closure(graph, ['c.' + cc for cc in main])
    for name in sorted(names):
        if name.startswith('c.'):
            if name in aux:
                require(not hasattr(coefs, name[2:]),
                        'auxiliary coefficient %s returned' % name)
                continue
            require(hasattr(coefs, name[2:]), 'missing coefficient %s' % name)
            compare(name, getattr(coefs, name[2:]), oracle.result(name))
        else:
            require(name in deps, 'missing corrector %s' % name)
            compare(name, deps[name], oracle.result(name))
    extra = set(deps) - names
    require(not extra, 'unexpected correctors: %s' % extra)
    extra = (set(coefs.__dict__) - set(nn[2:] for nn in names)
             - set('Volume_' + key for key in volumes)
             - set(['name', 'save_names', 'info']))
    require(not extra, 'unexpected coefficients: %s' % extra)
    for key, val in volumes.items():
        vals = getattr(coefs, 'Volume_' + key)
        if oracle.states is None:
            vals = [vals]
        else:
            require(len(vals) == len(oracle.states['coors']), 'volumes')
        for iv in vals:
            require(abs(iv - val) <= 1e-14 * abs(val),
                    'volume %r instead of %r' % (iv, val))

VOLUMES = [{'total': 2.0}, {'total': 1.0 / 3.0, 'part': 0.25},
           {'total': 123456789.25}]

def run_engine(graph, order, n_micro, multi, chunk, store, main=None,
               aux=(), volumes=None, filenames=False, n_calls=1,
               with_save=True, with_u=True, workers=None):
    """
    Calls of the engine.
    """
    mods = modules()
    volumes = VOLUMES[0] if volumes is None else volumes
    odir = os.path.join('out', 'dir')
    reqs, coefs = make_infos(graph, order, with_save, aux)
    if filenames:
        coefs['filenames'] = {}
    opts = {}
    if chunk != 'default':
        opts[chunk[0]] = chunk[1]
    he, problem = make_engine(reqs, coefs, odir,
                              {key: {'value': val}
                               for key, val in volumes.items()},
                              multi, compute_only=main,
                              store_micro_idxs=store, **opts)
    for ic in range(n_calls):
        states = make_states(n_micro, 0.125 * ic, with_u)
        if states is not None:
            he.set_micro_states(states)
        tag = '' if n_calls == 1 else '_t%03d' % ic
        coefs_out, deps = he.call(ret_all=True, time_tag=tag)
        oracle = Oracle(graph, make_states(n_micro, 0.125 * ic, with_u),
                        volumes, store, tag, odir, with_save)
        main_ = [nn[2:] for nn in graph if nn.startswith('c.')] \
            if main is None else main
        check_coefs(coefs_out, deps, oracle, graph, main_, volumes, aux)
        if filenames:
            require(hasattr(coefs_out, 'save_names'),
                    'no file names returned in call %d' % ic)
            names = closure(graph, ['c.' + cc for cc in main_])
            expected = oracle.save_names(names)
            require(coefs_out.save_names == expected,
                    'file names: %s instead of %s'
                    % (coefs_out.save_names, expected))
        else:
            require(not hasattr(coefs_out, 'save_names'),
                    'unexpected file names')

def set_sched(chooser=None, bound=0):
    mpstub.sched.reset(chooser, bound)

def outdir():
    os.chdir(tempfile.mkdtemp(prefix='c16_'))

CHUNKS = {
    None: ['default', ('chunk_size', None)],
    1: ['default', ('chunk_size', None), ('chunk_size', 2),
        ('chunks_per_worker', 1)],
    2: ['default', ('chunk_size', None), ('chunk_size', 2),
        ('chunk_size', 3), ('chunks_per_worker', 1)],
    3: ['default', ('chunk_size', 2), ('chunk_size', 3),
        ('chunks_per_worker', 1), ('chunks_per_worker', 2)],
    4: ['default', ('chunk_size', 2), ('chunk_size', 3),
        ('chunks_per_worker', 1)],
    5: ['default', ('chunk_size', 2), ('chunk_size', 3), ('chunk_size', 4),
        ('chunks_per_worker', 1)],
}

def run_serial(acc, tier, part, n_part):
    n_req = 3
    outdir()
    sched = mpstub.sched
    for ig, graph in enumerate(graphs(n_req)):
        if ig % n_part != part:
            continue
        gid = tuple(tuple(dep) for dep in graph.values())
        for n_micro in ([None, 2] if tier == 'quick' else [None, 1, 2, 3]):
            for order in ['def', 'rev', 'mix']:
                store = [] if n_micro is None else [n_micro - 1]
                with acc.case('serial %s micro=%s %s'
                              % (gid, n_micro, order)):
                    set_sched()
                    run_engine(graph, order, n_micro, False, 'default', store,
                               filenames=True)
                    acc.states += 1
                    acc.outcome(('serial', str(n_micro)))

def run_multi(acc, tier, part, n_part):
    n_req = 2 if tier == 'quick' else 3
    outdir()
    for ig, graph in enumerate(graphs(n_req)):
        if ig % n_part != part:
            continue
        gid = tuple(tuple(dep) for dep in graph.values())
        for n_micro in ([None, 1, 2, 3] if tier == 'quick'
                        else [None, 1, 2, 3, 4]):
            chunks = CHUNKS[n_micro]
            if tier != 'quick':
                chunks = chunks[ig % 2::2]
            for ic, chunk in enumerate(chunks):
                order = ['def', 'rev', 'mix'][(ig + ic) % 3]
                with acc.case('multi %s micro=%s chunk=%s %s'
                              % (gid, n_micro, chunk, order)):
                    set_sched()
                    run_engine(graph, order, n_micro, True, chunk, [],
                               filenames=False)
                    acc.states += 1
                    acc.transitions += mpstub.sched.n_tasks
                    acc.outcome(('multi', str(n_micro), str(chunk)))

def run_many(acc, tier):
    """
    Numbers of microstructures and chunks with more digits.
    """
    outdir()
    graph = {'r0': [], 'r1': ['r0'], 'c.A': ['r1'], 'c.AB': ['r0', 'c.A']}
    nums = [10, 11, 12, 21] if tier == 'quick' else [9, 10, 11, 12, 13, 21,
                                                     22, 101]
    for n_micro in nums:
        for store in ([], [2, 9], list(range(0, n_micro, 3))):
            for multi in [False, True]:
                for size in ([1, 2, 5] if multi else [None]):
                    chunk = ('chunk_size', size) if multi else 'default'
                    with acc.case('many %d store=%s multi=%s chunk=%s'
                                  % (n_micro, store, multi, size)):
                        set_sched()
                        run_engine(graph, 'def', n_micro, multi, chunk, store,
                                   filenames=True)
                        acc.states += 1
                        acc.outcome(('many', str(multi)))

def run_store(acc, tier):
    """
    The stored microstructures.
    """
    outdir()
    graph = {'r0': [], 'r1': ['r0'], 'c.A': ['r1'], 'c.AB': ['r0', 'c.A']}
    nums = [1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 5]
    for n_micro in nums:
        for store in subsets(range(n_micro)):
            for multi in [False, True]:
                for chunk in (CHUNKS[n_micro] if multi else ['default']):
                    for save in [True, False]:
                        if not save and (len(store) % 2):
                            continue
                        with acc.case('store %s of %d multi=%s chunk=%s'
                                      ' save=%s'
                                      % (store, n_micro, multi, chunk, save)):
                            set_sched()
                            run_engine(graph, 'def', n_micro, multi, chunk,
                                       store, filenames=True, with_save=save)
                            acc.states += 1
                            acc.outcome(('store', str(len(store)), str(multi)))
    for n_micro in [None, 2, 3]:
        for multi in [False, True]:
            for chunk in (CHUNKS[n_micro] if multi else ['default']):
                for main in [None, ['A'], ['AB'], ['AB', 'A']]:
                    for aux in [(), ('c.A',), ('c.A', 'c.AB')]:
                        for with_u in [True, False]:
                            for iv, volumes in enumerate(VOLUMES):
                                if (n_micro is None) and not with_u:
                                    continue
                                with acc.case('options micro=%s multi=%s'
                                              ' chunk=%s main=%s aux=%s'
                                              ' u=%s volumes=%d'
                                              % (n_micro, multi, chunk, main,
                                                 aux, with_u, iv)):
                                    set_sched()
                                    run_engine(graph, 'def', n_micro, multi,
                                               chunk, [], main=main, aux=aux,
                                               volumes=volumes, with_u=with_u,
                                               n_calls=3, filenames=True)
                                    acc.states += 1
                                    acc.outcome(('options', str(main), str(aux)))

def run_sched(acc, tier, index):
    """
    The schedules of tasks.
    """
    outdir()
    graph, n_micro, chunk, bound = SCHEDS[tier][index]
    gid = tuple(tuple(dep) for dep in graph.values())
    for chooser in all_runs(10000):
        set_sched(chooser, bound)
        ident = 'schedule of %s micro=%s %s' % (gid, n_micro, chunk)
        try:
            run_engine(graph, 'def', n_micro, True, chunk,
                       [] if n_micro is None else [0], n_calls=1,
                       filenames=True)
        except Exception as err:
            with acc.case(ident + ' ' + str(chooser.made)):
                raise
        else:
            with acc.case((ident, tuple(chooser.made))):
                acc.outcome(('schedule', str(index)))
        acc.states += 1
        acc.transitions += mpstub.sched.n_points
        acc.traces += 1

_g = lambda r0, r1, A, B: {'r0': r0, 'r1': r1, 'c.A': A, 'c.AB': B}
_w = {'r0': [], 'r1': [], 'r2': [], 'c.A': ['r0', 'r1', 'r2'], 'c.AB': ['r2']}
SCHEDS = {
    'quick': [
        (_g([], [], ['r0'], ['r1']), None, 'default', 1),
        (_g([], ['r0'], ['r1'], ['r0', 'c.A']), None, 'default', 1),
        (_w, None, 'default', 0),
        (_g([], ['r0'], ['r1'], ['c.A']), 2, ('chunk_size', 1), 0),
        ({'r0': [], 'c.A': ['r0']}, 2, ('chunk_size', 1), 1),
    ],
    'thorough': [
        (_g([], [], ['r0'], ['r1']), None, 'default', 2),
        (_g([], ['r0'], ['r1'], ['r0', 'c.A']), None, 'default', 2),
        (_w, None, 'default', 1),
        (_g([], ['r0'], ['r1'], ['c.A']), 2, ('chunk_size', 1), 0),
        ({'r0': [], 'c.A': ['r0']}, 2, ('chunk_size', 1), 1),
        (_g([], ['r0'], ['r1'], ['r0']), 3, ('chunk_size', 2), 0),
    ],
}

def run_wrong(acc, tier):
    """
    Circular and missing requirements are reported.
    """
    outdir()
    names = ['r0', 'r1', 'c.A', 'c.AB']
    opts = [subsets(names[:2])] * 2 + [subsets(names)] * 2
    miss = [subsets(['r0', 'rx'])] * 2 + [subsets(['r0', 'rx', 'c.AB',
                                                   'c.X'])] + [[['r1']]]
    for kind, opt in [('cycle', opts), ('missing', miss)]:
        for deps in itertools.product(*opt):
            graph = dict(zip(names, deps))
            bad = bad_graph(graph, ['c.A', 'c.AB'])
            for multi in [False, True]:
                with acc.case('%s %s multi=%s' % (kind, deps, multi)):
                    set_sched()
                    try:
                        run_engine(graph, 'def', None, multi, 'default', [])
                    except ValueError as err:
                        require(bad is not None,
                                'correct requirements refused: %s' % err)
                        require(bad in str(err),
                                'reported %r instead of %s' % (str(err), bad))
                        acc.outcome((kind, str(bad)))
                    else:
                        require(bad is None, '%s requirement not reported'
                                % bad)
                        acc.outcome((kind, str(None)))
                    acc.states += 1

def bad_graph(graph, main):
    """
    None, 'circular' or 'not defined' - the first found, depth first.
    """
    def visit(name, path):
        if name in path:
            return 'circular'
        if name not in graph:
            return 'not defined'
        for dep in graph[name]:
            out = visit(dep, path + [name])
            if out is not None:
                return out
        return None
    outs = set(visit(name, []) for name in main) - set([None])
    if not outs:
        return None
    # Both possible: accept any of them.
    return outs.pop() if len(outs) == 1 else 'requirement'

def run_recover(acc, tier):
    """
    The recovery gets the correctors passed to it.
    """
    outdir()
    mods = modules()
    graph = {'r0': [], 'r1': ['r0'], 'c.A': ['r1']}
    for multi in [False, True]:
        for seq in itertools.product(['run', 'rec0', 'rec1'], repeat=3):
            for n_macro in [1, 2, 3]:
                for n_micro in [None, 2]:
                    with acc.case('recover multi=%s %s macro=%d micro=%s'
                                  % (multi, '-'.join(seq), n_macro, n_micro)):
                        set_sched()
                        mods.multiproc.get_dict('dependencies', clear=True)
                        if multi:
                            mods.multiproc.active_workers['pool'] = None
                        reqs, coefs = make_infos(graph, 'def')
                        he, problem = make_engine(
                            reqs, coefs, 'out', {'total': {'value': 2.0}},
                            multi, recovery_hook='hook', chunk_size=1)
                        given = [{'r0': Val('r0', ('stored', ii)),
                                  'c.A': 1.0,
                                  'r%d' % (ii + 1): Val('x', ('other', ii))}
                                 for ii in range(2)]
                        for op in seq:
                            if op == 'run':
                                if n_micro is not None:
                                    he.set_micro_states(make_states(n_micro))
                                he.call()
                                continue
                            corrs = given[int(op[-1])]
                            macro = [({'eps': ii}, 'label %d' % ii)
                                     for ii in range(n_macro)]
                            outs = he.recover(corrs, hook, macro)
                            expected = [hook(None,
                                             {key: val for key, val
                                              in corrs.items()
                                              if not key.startswith('c.')},
                                             {'eps': ii})
                                        for ii in range(n_macro)]
                            require(list(outs) == expected,
                                    'recovered %s instead of %s'
                                    % (outs, expected))
                        acc.states += 1
                        acc.outcome(('recover', str(multi)))

class StubCorr:
    def __init__(self, state=None, states=None, components=None):
        if state is not None:
            self.state = state
        if states is not None:
            self.states = states
            self.components = components

N_NOD, DIM = 3, 2

def make_corr(kind, seed):
    """
    A corrector of one microstructure.
    """
    vec = nm.arange(N_NOD * DIM) * 0.5 + seed
    if kind == 'corrs':
        return StubCorr(state={'u': vec})
    shape = (DIM,) if kind == 'corrn' else (DIM, DIM)
    states = nm.zeros(shape, dtype=object)
    comps = []
    for ii, ic in enumerate(nm.ndindex(*shape)):
        states[ic] = {'u': 0.125 * vec * (ii + 1.0) + ii**2}
        comps.append(ic)
    return StubCorr(states=states, components=comps)

CORRS = ['corrs', 'corrn', 'corrnn']
_strain = ('corrnn', 'u', 'grad')
UPDATES = {
    'strain': {'coors': [_strain]},
    'strain-mul': {'coors': [_strain + (-2.0,)]},
    'strain-one': {'coors': [_strain, ('corrs', 'u', 'scale')]},
    'strain-n': {'coors': [_strain, ('corrn', 'u', 'vals', 0.5)]},
    'strain-none': {'coors': [_strain, ('corrs', 'u', None)]},
    'field': {'p': [('corrs', 'u', 'scale')]},
    'field-none': {'p': [('corrs', 'u', None, 3.0)]},
    'field-prev': {'p': [('corrn', 'u', 'vals')], 'p_prev': None},
    'field-two': {'p': [('corrs', 'u', 'scale'), ('corrn', 'u', 'vals')]},
    'field-mean': {'p': [('corrnn', 'u', 'grad'), (None, None, 'mean')]},
    'both': {'coors': [_strain],
             'p': [('corrn', 'u', 'vals')], 'p_prev': None},
    'both-rev': {'p': [('corrn', 'u', 'vals'), (None, None, 'mean')],
                 'p_prev': None,
                 'coors': [_strain, ('corrs', 'u', 'scale')]},
    'fields': {'p': [('corrs', 'u', 'scale')],
               'r': [('corrn', 'u', 'vals', 2.0)], 'p_prev': None},
}

def make_corrs(ic, n_micro):
    return {key: [make_corr(key, 0.25 * ic + (im if key == 'corrs' else -im))
                  for im in range(n_micro)] for key in CORRS}

class AppEngine:
    """
    A stand-in of the engine in the application.
    """
    def __init__(self, problem, options, volumes=None):
        self.volumes = volumes
        self.log = []

    def set_micro_states(self, states):
        self.states = states

    def setup_options(self):
        pass

    def __call__(self, ret_all=False, time_tag=''):
        from sfepy.base.base import Struct
        n_call = len(self.log)
        self.log.append(({key: None if val is None else nm.array(val).copy()
                          for key, val in self.states.items()}, time_tag))
        n_micro = len(self.states['coors'])
        deps = make_corrs(n_call, n_micro)
        coefs = Struct(D=[nm.eye(2) * (n_call + im)
                          for im in range(n_micro)])
        return (coefs, deps) if ret_all else coefs

def macro_data(step, n_micro):
    grad = nm.zeros((n_micro, DIM, DIM))
    grad[:, 0, 1] = 0.1 * (step + 1)
    grad[:, 1, 1] = 0.01 * nm.arange(n_micro)
    return {'grad': grad,
            'scale': (0.1 + 0.2 * step
                      + nm.arange(n_micro))[:, None, None],
            'vals': nm.array([[1.0 + im, -0.5 * step]
                              for im in range(n_micro)])[:, :, None],
            'mean': 0.3 * (step + 1
                           + nm.arange(n_micro))[:, None, None]}

def ref_update(spec, states, corrs, macro):
    """
    The reference of the update of microstructures.
    """
    out = {key: None if val is None else nm.array(val).copy()
           for key, val in states.items()}
    n_micro = len(states['coors'])
    for key, items in spec.items():
        if key.endswith('_prev'):
            continue
        if key + '_prev' in spec and out[key] is not None:
            out[key + '_prev'] = out[key].copy()
        if key == 'coors':
            mtx = macro[items[0][2]]
            out[key] = out[key] + nm.einsum('nij,nkj->nik', out[key], mtx)
        if corrs is None:
            continue
        for item in items:
            cname, vname, mname = item[:3]
            mul = item[3] if len(item) == 4 else 1
            for im in range(n_micro):
                if cname is None:
                    val = nm.ones((N_NOD * DIM,)) * macro[mname][im, 0, 0]
                elif cname == 'corrs':
                    val = corrs[cname][im].state[vname]
                    if mname is not None:
                        val = val * macro[mname][im, 0, 0]
                else:
                    corr = corrs[cname][im]
                    shape = corr.states.shape
                    val = sum(corr.states[ic][vname]
                              * macro[mname][im].reshape(shape)[ic]
                              for ic in nm.ndindex(*shape))
                if out[key] is None:
                    out[key] = nm.zeros((n_micro, N_NOD * DIM))
                out[key][im] += mul * val.reshape(out[key][im].shape)
    return out

def run_app(acc, tier):
    """
    The updates of microstructures and the outputs of the application.
    """
    mods = modules()
    outdir()
    app_mod = mods.app
    from sfepy.base.base import Struct
    from sfepy.homogenization.coefficients import Coefficients
    coors0 = nm.array([[0.0, 0.0], [1.0, 0.5], [0.25, 1.0]])
    for (uname, spec), n_micro, store, steps in itertools.product(
            UPDATES.items(), [1, 2, 3], [[], [0], 'all'],
            [(0, 1, 2), (0, 0, 1)]):
        with acc.case('app %s micro=%d store=%s steps=%s'
                      % (uname, n_micro, store, steps)):
            spec_ = dict(spec)
            store_ = list(range(n_micro)) if store == 'all' else store
            app = object.__new__(app_mod.HomogenizationApp)
            app.app_options = Options(
                micro_update=spec_, store_micro_idxs=store_, return_all=True,
                volume=1.0, output_dir='.', coefs_filename='coefs',
                tex_names=None, float_format='%.16e', print_digits=3)
            app.problem = Struct(name='problem')
            app.options = None
            app.updating_corrs = None
            app.micro_state_cache = {}
            app.he = AppEngine(None, None)
            app.n_micro = n_micro
            states = {key: None for key in spec_ if key != 'coors'}
            states['coors'] = nm.array([coors0 + im
                                        for im in range(n_micro)])
            states['id'] = list(range(n_micro))
            app.micro_states = states
            ref = {key: None if val is None else nm.array(val).copy()
                   for key, val in states.items()}
            corrs = None
            seen = {}
            for ic, step in enumerate(steps):
                macro = macro_data(step, n_micro)
                app.setup_macro_data(macro)
                coefs, deps = app.call(itime=step, iiter=ic)
                ref = ref_update(spec_, ref, corrs, macro)
                corrs = make_corrs(ic, n_micro)
                got, tag = app.he.log[-1]
                require(tag == '_t%03d_i%03d' % (step, ic), 'tag ' + tag)
                require(set(got) == set(ref), 'names of states')
                for key in ref:
                    if ref[key] is None:
                        require(got[key] is None, key)
                        continue
                    require(got[key] is not None, '%s not updated' % key)
                    err = abs(got[key] - ref[key]).max()
                    require(err < 1e-13, 'state %s after call %d: error %.1e'
                            % (key, ic, err))
                for ii in store_:
                    for key in ref:
                        name = app.get_micro_cache_key(key, ii, step)
                        if ref[key] is not None:
                            seen[name] = ref[key][ii].copy()
                for name, val in seen.items():
                    require(name in app.micro_state_cache,
                            'stored state %s missing' % name)
                    err = abs(app.micro_state_cache[name] - val).max()
                    require(err < 1e-13, 'stored state %s after call %d: error'
                            ' %.1e' % (name, ic, err))
                coefs2 = Coefficients.from_file_hdf5('coefs%s.h5' % tag)
                require(len(coefs2.D) == n_micro, 'stored coefficients')
                for im in range(n_micro):
                    require(nm.array_equal(coefs2.D[im], nm.eye(2) * (ic + im))
                            and nm.array_equal(coefs.D[im], coefs2.D[im]),
                            'stored coefficients')
                acc.transitions += 1
            acc.states += 1
            acc.outcome(('app', str(uname)))

class Cell:
    """
    A reference of the micro-problem: bilinear elements on a periodic 2 x 2
    grid, dense matrices.
    """
    sym = [(0, 0), (1, 1), (0, 1)]

    def __init__(self, xs, ys, mats, conns, n_nod, coors):
        self.coors = coors
        self.conns = conns
        self.n_nod = n_nod
        self.mats = mats
        # Periodic images by the grid indices.
        nx, ny = len(xs), len(ys)
        index = {}
        self.image = nm.zeros(n_nod, dtype=int)
        for ii, (x, y) in enumerate(GRID):
            key = (x % (nx - 1), y % (ny - 1))
            self.image[ii] = index.setdefault(key, len(index))
        self.n_per = len(index)
        self.grads = []
        gp = [0.5 - 0.5 / nm.sqrt(3.0), 0.5 + 0.5 / nm.sqrt(3.0)]
        self.volume = 0.0
        self.cell_volumes = []
        for conn in conns:
            xc = coors[conn]
            loc = []
            for s, t in itertools.product(gp, gp):
                dn = nm.array([[-(1 - t), -(1 - s)], [1 - t, -s], [t, s],
                               [-t, 1 - s]])
                jac = xc.T @ dn
                loc.append((dn @ nm.linalg.inv(jac),
                            0.25 * nm.linalg.det(jac)))
            self.grads.append(loc)
            self.cell_volumes.append(sum(ww for _, ww in loc))
        self.volume = sum(self.cell_volumes)

    def assemble(self, kind):
        nc = 1 if kind == 'D' else 2
        mtx = nm.zeros((self.n_nod * nc, self.n_nod * nc))
        for ic, conn in enumerate(self.conns):
            mat = self.mats[ic][kind]
            for grad, ww in self.grads[ic]:
                op = self.op(grad, nc)
                idx = (nc * conn[:, None] + nm.arange(nc)).ravel()
                mtx[nm.ix_(idx, idx)] += ww * op.T @ mat @ op
        return mtx

    @staticmethod
    def op(grad, nc):
        if nc == 1:
            return grad.T
        out = nm.zeros((3, 8))
        out[0, 0::2] = out[2, 1::2] = grad[:, 0]
        out[1, 1::2] = out[2, 0::2] = grad[:, 1]
        return out

    def mass(self, ic):
        """
        The integrals of the nodal functions over a cell.
        """
        out = nm.zeros(self.n_nod)
        gp = [0.5 - 0.5 / nm.sqrt(3.0), 0.5 + 0.5 / nm.sqrt(3.0)]
        for (s, t), (_, ww) in zip(itertools.product(gp, gp), self.grads[ic]):
            out[self.conns[ic]] += ww * nm.array([(1 - s) * (1 - t),
                                                  s * (1 - t), s * t,
                                                  (1 - s) * t])
        return out

    def prestress(self, kind):
        out = nm.zeros(self.n_nod * 2)
        for ic, conn in enumerate(self.conns):
            idx = (2 * conn[:, None] + nm.arange(2)).ravel()
            for grad, ww in self.grads[ic]:
                out[idx] += ww * self.op(grad, 2).T @ self.mats[ic][kind]
        return out

    def solve(self, mtx, rhs, nc):
        """
        The periodic solution, fixed in the corners.
        """
        n_all = self.n_nod * nc
        per = nm.zeros((n_all, self.n_per * nc))
        for ii in range(self.n_nod):
            for jj in range(nc):
                per[ii * nc + jj, self.image[ii] * nc + jj] = 1.0
        fixed = [self.image[0] * nc + jj for jj in range(nc)]
        free = [ii for ii in range(self.n_per * nc) if ii not in fixed]
        pf = per[:, free]
        return pf @ nm.linalg.solve(pf.T @ mtx @ pf, pf.T @ rhs)

    def results(self):
        out = {}
        mtx = self.assemble('D')
        pis = [self.coors[:, ii] for ii in range(2)]
        full = [pi + self.solve(mtx, -mtx @ pi, 1) for pi in pis]
        vol = self.volume
        out['D'] = nm.array([[v1 @ mtx @ v2 for v2 in full]
                             for v1 in full]) / vol
        mtx = self.assemble('C')
        fulls = {}
        for ii, jj in itertools.product(range(2), range(2)):
            pi = nm.zeros((self.n_nod, 2))
            pi[:, ii] = self.coors[:, jj]
            pi = pi.ravel()
            fulls[ii, jj] = pi + self.solve(mtx, -mtx @ pi, 2)
        out['C'] = nm.array([[fulls[r] @ mtx @ fulls[c] for c in self.sym]
                             for r in self.sym]) / vol
        non = [(0, 0), (0, 1), (1, 0), (1, 1)]
        out['Cn'] = nm.array([[fulls[r] @ mtx @ fulls[c] for c in non]
                              for r in non]) / vol
        pre = self.prestress('S')
        corr = self.solve(mtx, pre, 2)
        out['P'] = nm.array([fulls[r] @ mtx @ corr
                             for r in self.sym]) / vol
        out['Pn'] = nm.array([fulls[r] @ mtx @ corr for r in non]) / vol
        out['E'] = corr @ mtx @ corr / vol
        out['E2'] = 6.0 * out['E']
        masses = [self.mass(ic) for ic in range(4)]
        chi = [full[ii] - pis[ii] for ii in range(2)]
        out['avg'] = nm.array([masses[1] @ cc for cc in chi]) / vol
        out['par'] = nm.array([masses[ii] @ cc
                               for ii, cc in enumerate(chi)]) / vol
        dif = self.assemble('D')
        pars = [self.solve(dif, masses[ic], 1) for ic in [0, 1, 3]]
        out['parE'] = nm.array([masses[1] @ pp for pp in pars]) / vol
        out['parP'] = nm.array([masses[ic] @ pp
                                for ic, pp in zip([3, 2, 0], pars)]) / vol
        bc = nm.zeros(self.n_nod)
        for ii, (x, y) in enumerate(GRID):
            if x == 0:
                bc[ii] = 2.0
        out['bc'] = sum(masses) @ bc / vol
        # A shape function without the corrector, with different rows.
        out['DimSym'] = nm.zeros((2, 3))
        for ik in range(2):
            vec = nm.zeros((self.n_nod, 2))
            vec[:, 0] = full[ik]
            vec[:, 1] = 2.0 * full[ik]
            for ic, (ii, jj) in enumerate(self.sym):
                out['DimSym'][ik, ic] = vec.ravel() @ mtx @ fulls[ii, jj] / vol
        return out

GRID = []

def setup_cell(xs, ys):
    """
    The mesh of the cell, vertices numbered along y first.
    """
    del GRID[:]
    coors = []
    for ix, x in enumerate(xs):
        for iy, y in enumerate(ys):
            GRID.append((ix, iy))
            coors.append((x, y))
    ny = len(ys)
    conns = []
    for ix in range(len(xs) - 1):
        for iy in range(ny - 1):
            v0 = ix * ny + iy
            conns.append([v0, v0 + ny, v0 + ny + 1, v0 + 1])
    return nm.array(coors), nm.array(conns)

def mat_values(kind):
    scale = [1.0, 7.0][kind]
    dmat = scale * nm.array([[2.0, 0.3 - kind], [0.3 - kind, 1.0 + kind]])
    cmat = scale * nm.array([[4.0, 1.0 + 0.5 * kind, 0.2],
                             [1.0 + 0.5 * kind, 3.0, 0.1 * kind],
                             [0.2, 0.1 * kind, 1.5 - 0.5 * kind]])
    pre = nm.array([1.0 + kind, -2.0, 0.5 - 3.0 * kind])
    return {'D': dmat, 'C': cmat, 'S': pre}

def make_real(assign, coors, conns, odir, volume, multi, chunk=1,
              order='def', compute_only=None):
    """
    A real micro-problem.
    """
    mods = modules()
    cb = mods.cb
    from sfepy.base.conf import ProblemConf
    from sfepy.base.base import Struct
    from sfepy.discrete import Problem as RealProblem
    from sfepy.discrete.fem import Mesh
    from sfepy.discrete.fem.periodic import (match_x_line, match_y_line)
    mesh = Mesh.from_data('micro', coors, None, [conns],
                          [nm.arange(len(conns))], ['2_4'])
    cells = range(len(conns))
    mats = [mat_values(assign[ic]) for ic in cells]
    tmats = {'D': {'C%d' % ic: mats[ic]['D'] for ic in cells},
             'C': {'C%d' % ic: mats[ic]['C'] for ic in cells},
             'S': {'C%d' % ic: mats[ic]['S'][:, None] for ic in cells}}
    regions = {'Y': 'all',
               'Corner': ('vertex 0', 'vertex')}
    for ic in cells:
        regions['C%d' % ic] = 'cells of group %d' % ic
    eps = 1e-6
    x1, y1 = coors.max(0)
    regions.update({
        'Left': ('vertices in (x < %e)' % eps, 'facet'),
        'Right': ('vertices in (x > %.12e)' % (x1 - eps), 'facet'),
        'Bottom': ('vertices in (y < %e)' % eps, 'facet'),
        'Top': ('vertices in (y > %.12e)' % (y1 - eps), 'facet'),
        'Corners': ('vertices in ((x < %e) | (x > %.12e))'
                    ' & ((y < %e) | (y > %.12e))'
                    % (eps, x1 - eps, eps, y1 - eps), 'vertex'),
    })
    periodic = ['per_x', 'per_y']
    uperiodic = ['uper_x', 'uper_y']
    dif = 'dw_diffusion.i.Y(m.D, %s, %s)'
    ela = 'dw_lin_elastic.i.Y(m.C, %s, %s)'
    reqs = {
        'pis_s': {'variables': ['p'], 'class': cb.ShapeDim},
        'pis_v': {'variables': ['u'], 'class': cb.ShapeDimDim},
        'ones_': {'variables': ['p'], 'class': cb.OnesDim},
        'corrs_k': {
            'requires': ['pis_s'], 'ebcs': ['fixed'], 'epbcs': periodic,
            'equations': {'eq': dif % ('q', 'p') + ' = - ' + dif % ('q', 'Pi')},
            'set_variables': [('Pi', 'pis_s', 'p')], 'class': cb.CorrDim},
        'corrs_rs': {
            'requires': ['pis_v'], 'ebcs': ['ufixed'], 'epbcs': uperiodic,
            'equations': {'eq': ela % ('v', 'u') + ' = - '
                          + ela % ('v', 'Upi')},
            'set_variables': [('Upi', 'pis_v', 'u')],
            'is_linear': True, 'class': cb.CorrDimDim},
        'corrs_par': {
            'ebcs': ['fixed'], 'epbcs': periodic,
            'equations': {'eq': dif % ('q', 'p') + ' = dw_integrate.i.%s(q)'},
            'eq_pars': ['C0', 'C1', 'C3'], 'class': cb.CorrEqPar},
        'corrs_bc': {'variable': ['p'], 'ebcs': ['sides'],
                     'epbcs': ['per_y'], 'class': cb.CorrSetBCS},
        'corrs_p2': {'requires': ['corrs_p', 'corrs_bc'], 'variable': 'u',
                     'expression': "{'u': -3.0 * corrs_p.state['u']}",
                     'class': cb.CorrEval},
        'corrs_p': {
            'requires': [], 'ebcs': ['ufixed'], 'epbcs': uperiodic,
            'equations': {'eq': ela % ('v', 'u')
                          + ' = dw_lin_prestress.i.Y(m.S, v)'},
            'class': cb.CorrOne},
    }
    both_k, both_rs = ('pis_s', 'corrs_k'), ('pis_v', 'corrs_rs')
    coefs = {
        'D': {'requires': ['pis_s', 'corrs_k'],
              'expression': dif % ('P1', 'P2'),
              'set_variables': [('P1', both_k, 'p'), ('P2', both_k, 'p')],
              'class': cb.CoefDimDim},
        'C': {'requires': ['pis_v', 'corrs_rs'],
              'expression': ela % ('U1', 'U2'),
              'set_variables': [('U1', both_rs, 'u'), ('U2', both_rs, 'u')],
              'class': cb.CoefSymSym},
        'Cn': {'requires': ['corrs_rs', 'pis_v'],
               'expression': ela % ('U1', 'U2'),
               'set_variables': [('U1', both_rs, 'u'), ('U2', both_rs, 'u')],
               'class': cb.CoefNonSymNonSym},
        'P': {'requires': ['pis_v', 'corrs_rs', 'corrs_p'],
              'expression': ela % ('U1', 'U2'),
              'set_variables': [('U1', both_rs, 'u'), ('U2', 'corrs_p', 'u')],
              'class': cb.CoefSym},
        'Pn': {'requires': ['pis_v', 'corrs_rs', 'corrs_p'],
               'expression': ela % ('U1', 'U2'),
               'set_variables': [('U1', both_rs, 'u'),
                                 ('U2', 'corrs_p', 'u')],
               'class': cb.CoefNonSym},
        'E': {'requires': ['corrs_p'], 'expression': ela % ('U1', 'U2'),
              'set_variables': [('U1', 'corrs_p', 'u'),
                                ('U2', 'corrs_p', 'u')],
              'class': cb.CoefOne},
        'DimSym': {'requires': ['pis_s', 'corrs_k', 'pis_v', 'corrs_rs'],
                   'expression': ela % ('U1', 'U2'),
                   'set_variables': set_dim_sym, 'class': cb.CoefDimSym},
        'SymDim': {'requires': ['pis_s', 'corrs_k', 'pis_v', 'corrs_rs'],
                   'expression': ela % ('U1', 'U2'),
                   'set_variables': set_sym_dim, 'class': cb.CoefSymDim},
        'Dsum': {'requires': ['c.D', 'c.DD'], 'class': cb.CoefSum},
        'DD': {'requires': ['c.D'], 'expression': '2.0 * c.D.T + 1.0',
               'class': cb.CoefEval},
        'Dev': {'requires': ['c.D', 'c.DD'],
                'expression': 'c.D - 3.0 * c.DD', 'class': cb.CoefEval},
        'vf': {'regions': ['C0', 'C2'],
               'expression': 'ev_volume.i.%s(p)', 'class': cb.VolumeFractions},
        'par': {'requires': ['corrs_k'],
                'expression': 'ev_integrate.i.C%d(P1)',
                'expr_pars': list(cells),
                'set_variables': [('P1', 'corrs_k', 'p')],
                'dim': 2, 'class': cb.CoefExprPar},
        'avg': {'requires': ['corrs_k', 'c.D'],
                'expression': 'ev_integrate.i.C1(P1)',
                'set_variables': [('P1', 'corrs_k', 'p')],
                'class': cb.CoefDim},
        'parE': {'requires': ['corrs_par'],
                 'expression': 'ev_integrate.i.C1(P1)', 'dim': 3,
                 'set_variables': [('P1', 'corrs_par', 'p')],
                 'class': cb.CoefN},
        'parP': {'requires': ['corrs_p', 'corrs_par'],
                 'expression': 'ev_integrate.i.C%d(P1)',
                 'expr_pars': [3, 2, 0],
                 'set_variables': [('P1', 'corrs_par', 'p')],
                 'class': cb.CoefExprPar},
        'bc': {'requires': ['corrs_bc'], 'expression': 'ev_integrate.i.Y(P1)',
               'set_variables': [('P1', 'corrs_bc', 'p')],
               'class': cb.CoefOne},
        'E2': {'requires': ['corrs_p', 'corrs_p2'],
               'expression': ela % ('U1', 'U2'),
               'set_variables': [('U1', ('corrs_p', 'corrs_p2'), 'u'),
                                 ('U2', 'corrs_p2', 'u')],
               'class': cb.CoefOne},
    }
    if order == 'rev':
        reqs = dict(reversed(reqs.items()))
        coefs = dict(reversed(coefs.items()))
    conf = ProblemConf.from_dict({
        'filename_mesh': mesh,
        'regions': regions,
        'materials': {'m': (tmats,)},
        'fields': {'pressure': ('real', 'scalar', 'Y', 1),
                   'displacement': ('real', 'vector', 'Y', 1)},
        'variables': {
            'p': ('unknown field', 'pressure', 0),
            'q': ('test field', 'pressure', 'p'),
            'Pi': ('parameter field', 'pressure', 'p'),
            'P1': ('parameter field', 'pressure', '(set-to-None)'),
            'P2': ('parameter field', 'pressure', '(set-to-None)'),
            'u': ('unknown field', 'displacement', 1),
            'v': ('test field', 'displacement', 'u'),
            'Upi': ('parameter field', 'displacement', 'u'),
            'U1': ('parameter field', 'displacement', '(set-to-None)'),
            'U2': ('parameter field', 'displacement', '(set-to-None)')},
        'functions': {'match_x_line': (match_x_line,),
                      'match_y_line': (match_y_line,)},
        'ebcs': {'fixed': ('Corners', {'p.0': 0.0}),
                 'sides': ('Left', {'p.0': 2.0}),
                 'ufixed': ('Corners', {'u.all': 0.0})},
        'epbcs': {
            'per_x': (['Left', 'Right'], {'p.0': 'p.0'}, 'match_y_line'),
            'per_y': (['Bottom', 'Top'], {'p.0': 'p.0'}, 'match_x_line'),
            'uper_x': (['Left', 'Right'], {'u.all': 'u.all'}, 'match_y_line'),
            'uper_y': (['Bottom', 'Top'], {'u.all': 'u.all'},
                       'match_x_line')},
        'integrals': {'i': 2},
        'solvers': {'ls': ('ls.scipy_direct', {}),
                    'newton': ('nls.newton', {'i_max': 1, 'eps_a': 1e-8})},
        'reqs_def': reqs, 'coefs_def': coefs,
        'options': {'coefs': 'coefs_def', 'requirements': 'reqs_def',
                    'ls': 'ls', 'nls': 'newton', 'output_dir': odir,
                    'compute_only': compute_only,
                    'multiprocessing': multi, 'chunk_size': chunk},
    }, sys.modules[__name__], required=[], other=[], verbose=False)
    problem = RealProblem.from_conf(conf, init_equations=False)
    options = Struct(output_filename_trunk=None)
    return mods.engine.HomogenizationEngine(problem, options, volumes=volume)

def set_dim_sym(variables, ir, ic, mode, pis_s, corrs_k, pis_v, corrs_rs):
    if mode == 'row':
        val = pis_s.states[ir]['p'] + corrs_k.states[ir]['p']
        vec = nm.c_[val, 2.0 * val].ravel()
        variables['U1'].set_data(vec)
    else:
        variables['U2'].set_data(pis_v.states[ir, ic]['u']
                                 + corrs_rs.states[ir, ic]['u'])

def set_sym_dim(variables, ir, ic, mode, pis_s, corrs_k, pis_v, corrs_rs):
    if mode == 'col':
        val = pis_s.states[ir]['p'] + corrs_k.states[ir]['p']
        vec = nm.c_[val, 2.0 * val].ravel()
        variables['U1'].set_data(vec)
    else:
        variables['U2'].set_data(pis_v.states[ir, ic]['u']
                                 + corrs_rs.states[ir, ic]['u'])

def check_real(coefs, im, cell):
    """
    The effective coefficients.
    """
    get = lambda key: (getattr(coefs, key) if im is None
                       else getattr(coefs, key)[im])
    ref = cell.results()
    ref['SymDim'] = ref['DimSym'].T
    ref['DD'] = 2.0 * ref['D'].T + 1.0
    ref['Dsum'] = ref['D'] + ref['DD']
    ref['Dev'] = ref['D'] - 3.0 * ref['DD']
    ref['Volume_total'] = cell.volume
    for key, val in ref.items():
        if not hasattr(coefs, key):
            continue
        got = nm.asarray(get(key))
        require(got.shape == nm.shape(val), '%s: shape %s' % (key, got.shape))
        err = abs(got - val).max() / max(1.0, abs(nm.asarray(val)).max())
        require(err < 1e-10, '%s: error %.1e' % (key, err))
    if hasattr(coefs, 'vf'):
        vf = get('vf')
        for ic in [0, 2]:
            vol = cell.cell_volumes[ic]
            require(abs(vf['volume_C%d' % ic] - vol) < 1e-12, 'volume')
            require(abs(vf['fraction_C%d' % ic] - vol / cell.volume) < 1e-12,
                    'volume fraction')

XS, YS = [0.0, 0.4, 1.0], [0.0, 0.7, 1.2]

def run_real(acc, tier, part, n_part):
    """
    All the assignments of materials.
    """
    outdir()
    expr = {'total': {'expression': 'ev_volume.i.Y(p)'}}
    for ia, assign in enumerate(itertools.product([0, 1], repeat=4)):
        if ia % n_part != part:
            continue
        coors, conns = setup_cell(XS, YS)
        for multi in [False, True]:
            if multi and (tier == 'quick') and (ia % 3 != 1):
                continue
            for n_micro in [None, 2]:
                with acc.case('materials %s multi=%s micro=%s'
                              % (assign, multi, n_micro)):
                    set_sched()
                    vol = (expr if ia % 2 else
                           {'total': {'value': XS[-1] * YS[-1]}})
                    if n_micro is not None:
                        vol = expr
                    he = make_real(assign, coors, conns, 'out', vol, multi,
                                   order=['def', 'rev'][ia % 2])
                    all_coors = [coors]
                    if n_micro is not None:
                        scale = nm.array([[1.0, 0.3], [-0.2, 1.5]])
                        all_coors = [coors @ scale.T, coors * [2.0, 0.5]]
                        he.set_micro_states({'coors': nm.array(all_coors),
                                             'id': [0, 1]})
                    coefs = he.call()
                    mats = [mat_values(ii) for ii in assign]
                    for im, cc in enumerate(all_coors):
                        cell = Cell(XS, YS, mats, conns, len(coors), cc)
                        check_real(coefs, None if n_micro is None else im,
                                   cell)
                    acc.states += len(all_coors)
                    acc.outcome(('real', str(multi), str(n_micro)))

def groups(tier):
    n_part = 6
    out = [['sched', tier, ii] for ii in range(len(SCHEDS[tier]))]
    out += [['real', tier, ii, 8] for ii in range(8)]
    out += [['multi', tier, ii, n_part] for ii in range(n_part)]
    out += [['serial', tier, ii, n_part] for ii in range(n_part)]
    out += [['store', tier], ['many', tier], ['wrong', tier], ['recover', tier],
            ['app', tier]]
    return out

def run(group, acc):
    modules()
    {'serial': run_serial, 'many': run_many, 'multi': run_multi, 'store': run_store,
     'sched': run_sched, 'wrong': run_wrong, 'recover': run_recover,
     'app': run_app, 'real': run_real}[group[0]](acc, *group[1:])
