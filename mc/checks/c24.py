"""
C24: problem descriptions, option strings, containers and stored objects keep
what they were given.
"""
import itertools
import pickle

import numpy as nm

from mc.core import require, Mismatch

PID = 'C24'
LEVEL = 'exploration'
RULE = ('a case = a form of a problem description, a string, a sequence of'
        ' operations or a graph of objects; distinct by these, all are'
        ' non-trivial')
ASSUMPTIONS = ['names of stored items are identifiers without the prefixes'
               ' PyTables reserves (c_, f_, g_, v_)',
               'objects are alive while they are being stored with a common'
               ' cache',
               'names of items of containers do not change']
BOUNDS = {
    'quick': 'all combinations of the short and long syntax of 9 keywords of'
             ' a problem and all documented tuples; all nested values of'
             ' depth 2 in strings; all sequences of 4 container operations;'
             ' all trees with up to 3 inner nodes of stored objects and all'
             ' shared pairs',
    'thorough': 'sequences of 5 operations, deeper strings and trees',
}
LIMIT = 800

# Problem descriptions.

def defs():
    """
    The items of a small problem in the short and long syntax.
    """
    from sfepy.discrete.fem.meshio import UserMeshIO

    def hook(mesh, mode):
        from sfepy.mesh.mesh_generators import gen_block_mesh
        if mode == 'read':
            return gen_block_mesh([1, 1], [4, 3], [0.5, 0.5], verbose=False)

    def mat(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            return {'c': 1.0 + coors[:, :1, None]}

    def bcf(ts, coors, bc=None, problem=None, **kwargs):
        return coors[:, 1]**2

    fixed = {
        'filename_mesh': UserMeshIO(hook),
        'equations': {
            'e1': 'dw_laplace.i.Omega(m.c, v, u) + dw_dot.i2.Omega(v, u)'
                  ' = dw_volume_lvf.i.Omega(f.val, v)'},
        'options': {'nls': 'newton', 'ls': 'ls'},
    }
    both = {
        'regions': (
            {'Omega': 'all',
             'Left': ('vertices in (x < 0.001)', 'facet'),
             'Right': ('vertices in (x > 0.999)', 'vertex', None,
                       {}),
             'Corner': ('vertices in (y < 0.001)', 'facet', 'Omega')},
            {'region_1': {'name': 'Omega', 'select': 'all'},
             'region_2': {'name': 'Left', 'select': 'vertices in (x < 0.001)',
                          'kind': 'facet'},
             'region_3': {'name': 'Right',
                          'select': 'vertices in (x > 0.999)',
                          'kind': 'vertex'},
             'region_10': {'name': 'Corner', 'kind': 'facet',
                           'select': 'vertices in (y < 0.001)',
                           'parent': 'Omega'}}),
        'fields': (
            {'fu': ('real', 1, 'Omega', 2)},
            {'field_1': {'name': 'fu', 'dtype': 'real', 'shape': (1,),
                         'region': 'Omega', 'approx_order': 2}}),
        'variables': (
            {'u': ('unknown field', 'fu', 0), 'v': ('test field', 'fu', 'u')},
            {'variable_1': {'name': 'u', 'kind': 'unknown field',
                            'field': 'fu', 'order': 0},
             'variable_2': {'name': 'v', 'kind': 'test field', 'field': 'fu',
                            'dual': 'u'}}),
        'ebcs': (
            {'left': ('Left', {'u.0': 1.0}),
             'right': ('Right', [(-1.0, 1.0)], {'u.all': 'bcf'})},
            {'ebc_1': {'name': 'left', 'region': 'Left',
                       'dofs': {'u.0': 1.0}},
             'ebc_2': {'name': 'right', 'region': 'Right',
                       'times': [(-1.0, 1.0)], 'dofs': {'u.all': 'bcf'}}}),
        'materials': (
            {'m': 'mat', 'f': ({'val': 2.0},)},
            {'material_1': {'name': 'm', 'function': 'mat'},
             'material_2': {'name': 'f', 'values': {'val': 2.0}}}),
        'functions': (
            {'mat': (mat,), 'bcf': (bcf,)},
            {'function_1': {'name': 'mat', 'function': mat},
             'function_2': {'name': 'bcf', 'function': bcf}}),
        'integrals': (
            {'i': 4, 'i2': ('custom', [[0.25, 0.5], [0.75, 0.5]], [0.5, 0.5])},
            {'integral_1': {'name': 'i', 'order': 4},
             'integral_2': {'name': 'i2', 'order': 'custom',
                            'vals': [[0.25, 0.5], [0.75, 0.5]],
                            'weights': [0.5, 0.5]}}),
        'solvers': (
            {'ls': ('ls.scipy_direct', {}),
             'newton': ('nls.newton', {'i_max': 1, 'eps_a': 1e-8})},
            {'solver_1': {'name': 'ls', 'kind': 'ls.scipy_direct'},
             'solver_2': {'name': 'newton', 'kind': 'nls.newton', 'i_max': 1,
                          'eps_a': 1e-8}}),
        'ics': (
            {'ic': ('Omega', {'u.0': 0.5})},
            {'ic_1': {'name': 'ic', 'region': 'Omega',
                      'dofs': {'u.0': 0.5}}}),
    }
    return fixed, both

def run_problem(acc, ip, n_parts):
    import sfepy.discrete
    from sfepy.base.base import Struct, output
    output.set_output(quiet=True)
    from sfepy.base.conf import ProblemConf
    from sfepy.discrete import Problem

    names = list(defs()[1])
    ref = None
    combos = list(itertools.product((0, 1), repeat=len(names)))
    for combo in [combos[0]] + combos[ip::n_parts]:
        with acc.case(['syntax', ip] + list(combo)):
            fixed, both = defs()
            d = dict(fixed)
            for k, c in zip(names, combo):
                if c: d.update(both[k][1])
                else: d[k] = both[k][0]
            conf = ProblemConf.from_dict(d, Struct(__file__='/problem.py'),
                                         verbose=False)
            pb = Problem.from_conf(conf)
            regs = {r.name: (r.kind, tuple(r.vertices), r.parent)
                    for r in pb.domain.regions}
            require(sorted(regs) == ['Corner', 'Left', 'Omega', 'Right'],
                    'regions %s', sorted(regs))
            state = pb.solve(save_results=False, verbose=False)
            vec = state.vec.copy()
            ls, nls = pb.get_solver().nls.lin_solver, pb.get_solver().nls
            require(nls.conf.i_max == 1 and nls.conf.eps_a == 1e-8,
                    'solver options')
            vals = [regs, pb.fields['fu'].approx_order, nls.name, ls.name]
            if ref is None:
                ref = vec, vals
                # The known conditions.
                uu = state.get_state_parts()['u']
                co = pb.fields['fu'].get_coor()
                left = nm.abs(co[:, 0]) < 1e-6
                right = nm.abs(co[:, 0] - 1) < 1e-6
                require(nm.allclose(uu[left], 1.0), 'left boundary')
                nr = pb.domain.regions['Right'].vertices
                require(nm.allclose(uu[nr], co[nr, 1]**2), 'right boundary')
                require(left.sum() == right.sum() == 5, 'mesh')
            require(vec.shape == ref[0].shape and
                    nm.abs(vec - ref[0]).max() < 1e-10, 'another solution')
            require(repr(vals) == repr(ref[1]), 'other data: %s', vals)
            acc.outcome(sum(combo))

def run_tuples(acc):
    """
    All documented tuples of keywords: attributes of the structures.
    """
    import sfepy.discrete
    from sfepy.base.base import output
    output.set_output(quiet=True)
    from sfepy.base.conf import ProblemConf

    no = ()
    def f(): pass
    D, T, M = {'u.0': 0.0}, [(0.0, 1.0)], 'match'
    table = {
        'regions': ('region', [
            ('all', dict(select='all')),
            (('all', 'facet'), dict(select='all', kind='facet')),
            (('all', 'facet', 'P'), dict(select='all', kind='facet',
                                         parent='P')),
            (('all', 'cell', 'P', {'a': 1}),
             dict(select='all', kind='cell', parent='P',
                  extra_options={'a': 1}))]),
        'fields': ('field', [
            (('real', 1, 'O'), dict(dtype=nm.float64, shape=1, region='O')),
            (('complex', 'vector', 'O', 2),
             dict(dtype=nm.complex128, shape='vector', region='O',
                  approx_order=2)),
            (('real', 3, 'O', 1, 'L2'),
             dict(dtype=nm.float64, shape=3, region='O', approx_order=1,
                  space='L2')),
            ((nm.float64, 3, 'O', '1B', 'H1', 'lobatto'),
             dict(dtype=nm.float64, shape=3, region='O', approx_order='1B',
                  space='H1', poly_space_basis='lobatto'))]),
        'variables': ('variable', [
            (('unknown field', 'f'), dict(kind='unknown field', field='f')),
            (('unknown field', 'f', 3),
             dict(kind='unknown field', field='f', order=3)),
            (('unknown field', 'f', 1, 2),
             dict(kind='unknown field', field='f', order=1, history=2)),
            (('test field', 'f', 'u'),
             dict(kind='test field', field='f', dual='u')),
            (('parameter field', 'f', 'u'),
             dict(kind='parameter field', field='f', like='u')),
            (('parameter field', 'f', None),
             dict(kind='parameter field', field='f', like=None)),
            (('parameter field', 'f', {'setter': 'g'}),
             dict(kind='parameter field', field='f', like=None,
                  special={'setter': 'g'}))]),
        'materials': ('material', [
            ('fun', dict(function='fun')),
            (({'a': 1},), dict(values={'a': 1})),
            ((None, 'fun'), dict(values=None, function='fun')),
            (({'a': 1}, None, 'stationary'),
             dict(values={'a': 1}, function=None, kind='stationary')),
            ((None, 'fun', 'time-dependent', {'special': 1}),
             dict(values=None, function='fun', kind='time-dependent',
                  flags={'special': 1}))]),
        'functions': ('function', [((f,), dict(function=f))]),
        'integrals': ('integral', [
            (3, dict(order=3)), (('v', 2), dict(order=2)),
            (('custom', [[0.5]], [1.0]),
             dict(order='custom', vals=[[0.5]], weights=[1.0]))]),
        'solvers': ('solver', [
            (('ls.x', {}), dict(kind='ls.x')),
            (('ls.x', {'a': 1, 'b': [2]}), dict(kind='ls.x', a=1, b=[2]))]),
    }
    for kw in ('ebc', 'ic'):
        table[kw + 's'] = (kw, [(('R', D), dict(region='R', dofs=D)),
                                (('R', T, D), dict(region='R', times=T,
                                                   dofs=D)),
                                (('R', 'fun', D),
                                 dict(region='R', times='fun', dofs=D))])
    table['epbcs'] = ('epbc', [
        ((['A', 'B'], D, M), dict(region=['A', 'B'], dofs=D, match=M)),
        ((['A', 'B'], T, D, M), dict(region=['A', 'B'], times=T, dofs=D,
                                     match=M))])
    table['lcbcs'] = ('lcbc', [
        (('R', D, None, 'k'), dict(region='R', dofs=D, dof_map_fun=None,
                                   kind='k', arguments=())),
        (('R', D, 'm', 'k', 1, 'x'),
         dict(region='R', dofs=D, dof_map_fun='m', kind='k',
              arguments=(1, 'x'))),
        ((['R', 'S'], T, D, None, 'k'),
         dict(region=['R', 'S'], times=T, dofs=D, dof_map_fun=None, kind='k',
              arguments=())),
        (('R', T, D, 'm', 'k', 'x'),
         dict(region='R', times=T, dofs=D, dof_map_fun='m', kind='k',
              arguments=('x',)))])

    def check(items, want):
        got = {}
        for item in items.values():
            dd = dict(item.to_dict())
            require(dd.pop('name') not in got, 'two items of one name')
            got[item.name] = dd
        require(sorted(got) == sorted(want), 'items %s', sorted(got))
        for k in want:
            require(got[k] == want[k], 'item %s: %s, not %s', k, got[k],
                    want[k])

    for kw, (single, forms) in table.items():
        # Single items, short and long, then pairs of them.
        todo = [[x] for x in itertools.product(range(len(forms)), (0, 1))]
        todo += [list(x) for x in itertools.product(
            itertools.product(range(len(forms)), (0, 1)), repeat=2)]
        for items in todo:
            with acc.case([kw] + [list(x) for x in items]):
                dd, want = {kw: {}}, {}
                for ii, (iform, long) in enumerate(items):
                    short, attrs = forms[iform]
                    name = 'n%d' % (len(items) - ii)
                    if long:
                        ld = dict(attrs, name=name)
                        dd['%s_%d' % (single, ii + 7)] = ld
                    else:
                        dd[kw][name] = short
                    want[name] = dict(attrs)
                if not dd[kw]: del dd[kw]
                conf = ProblemConf.from_dict(dd, None, required=[], other=[],
                                             verbose=False)
                check(getattr(conf, kw), want)
                for name in want:
                    item = conf.get_item_by_name(kw, name)
                    require(item is not None and item.name == name,
                            'get_item_by_name()')
                acc.outcome(kw)

def run_edit(acc):
    """
    Overriding, updating and adding of values: nested dictionaries.
    """
    import copy
    import sfepy.discrete
    from sfepy.base.base import update_dict_recursively, output
    from sfepy.base.conf import ProblemConf
    output.set_output(quiet=True)

    leaves = [1, None, (2, 3), 'x', {}]
    inner = [dict(zip(ks, vs)) for ks in ((), ('a',), ('b',), ('a', 'b'))
             for vs in itertools.product(leaves[:3], repeat=len(ks))]
    vals = leaves + inner[1:]

    def model(dst, src, by_none):
        out = dict(dst)
        for k, v in src.items():
            if k in out and isinstance(out[k], dict) and isinstance(v, dict):
                out[k] = model(out[k], v, by_none)
            elif v is None and not by_none:
                pass
            else:
                out[k] = v
        return out

    for i0, i1 in itertools.product(range(len(vals)), repeat=2):
        for by_none in (True, False):
            with acc.case(['override', i0, i1, by_none]):
                dst = {'o': copy.deepcopy(vals[i0]), 'p': 5}
                src = {'o': copy.deepcopy(vals[i1]), 'q': 6}
                s0 = copy.deepcopy(src)
                out = update_dict_recursively(copy.deepcopy(dst), src, False,
                                              by_none)
                want = model(dst, s0, by_none)
                require(out == want, '%s updated by %s: %s, not %s', dst, s0,
                        out, want)
                require(src == s0, 'the source was changed')
                acc.outcome(len(str(want)) // 10)

    # Configurations.
    base = {'regions': {'A': 'all', 'B': 'cells 1'}, 'x': 1, 'y': None,
            'z': {'k': 1}}
    for ks in itertools.product((0, 1), repeat=4):
        with acc.case(['update', list(ks)]):
            other = {}
            if ks[0]: other['regions'] = {'B': 'cells 2', 'C': 'cells 3'}
            if ks[1]: other['x'] = 2
            if ks[2]: other['y'] = 3
            if ks[3]: other['z'] = {'k': 5, 'l': 6}
            def make(d):
                return ProblemConf(copy.deepcopy(d), verbose=False,
                                   setup=False)
            c = make(base)
            c.update_conf(make(other))
            want = copy.deepcopy(base)
            for k, v in other.items():
                if isinstance(want.get(k), dict): want[k].update(v)
                else: want[k] = v
            got = {k: getattr(c, k) for k in want}
            require(got == want, 'update_conf(): %s', got)

            c = make(base)
            c.add_missing(make(other))
            want = copy.deepcopy(base)
            for k, v in other.items():
                if isinstance(want.get(k), dict):
                    want[k] = dict(v, **want[k])
                elif want.get(k) is None: want[k] = v
            got = {k: getattr(c, k) for k in want}
            require(got == want, 'add_missing(): %s', got)

            c = ProblemConf.from_dict(copy.deepcopy(base), None, required=[],
                                      other=[], verbose=False,
                                      override=copy.deepcopy(other))
            want = dict(base['regions'], **other.get('regions', {}))
            got = {r.name: r.select for r in c.regions.values()}
            require(got == want, 'regions overridden: %s', got)
            for k in 'xyz':
                w = other.get(k, base[k])
                if k == 'z': w = dict(base[k], **other.get(k, {}))
                require(getattr(c, k) == w, '%s overridden', k)
            c2 = pickle.loads(pickle.dumps(c))
            got = {r.name: r.select for r in c2.regions.values()}
            require(got == want and c2.x == c.x and c2.z == c.z,
                    'a pickled configuration')
            acc.outcome(sum(ks))

# Strings.

def run_strings(acc, ip, n_parts, tier):
    import sfepy.discrete
    from sfepy.base.conf import dict_from_string
    from sfepy.base.base import Struct
    from sfepy.base.conf import dict_from_options

    leaves = [('1', 1), ('-2', -2), ('+3', 3), ('1.5', 1.5), ('-2.', -2.0),
              ('1e-3', 1e-3), ('2.5E+2', 250.0), ('1.0j', 1j),
              ('-2.5j', -2.5j), ('1e2j', 100j), ('True', True),
              ('False', False), ('None', None), ("'a b'", 'a b'),
              ('"x:y"', 'x:y'), ('word', 'word'), ('w_2', 'w_2'),
              ("''", '')]
    def comp(items):
        for n in (0, 1, 2):
            for xs in itertools.product(items, repeat=n):
                tx, vx = [x[0] for x in xs], [x[1] for x in xs]
                yield '[%s]' % ', '.join(tx), list(vx)
                yield '(%s)' % ', '.join(tx), tuple(vx)
                if n == 1:
                    yield '(%s,)' % tx[0], tuple(vx)
                keys = ['k', 'key_b'][:n]
                yield ('{%s}' % ', '.join('%s : %s' % z
                                          for z in zip(keys, tx)),
                       dict(zip(keys, vx)))
    small = [leaves[ii] for ii in (0, 3, 7, 10, 12, 13, 15)]
    lev1 = list(comp(leaves))
    l1s = list(comp(small[:4])) if tier == 'quick' else list(comp(small))
    lev2 = list(comp(l1s[::5])) if tier == 'quick' else list(comp(l1s[::2]))

    def same(a, b):
        if type(a) is not type(b): return False
        if isinstance(a, dict):
            return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(map(same, a, b))
        return a == b

    def check(text, want):
        got = dict_from_string(text)
        require(same(got, want), '%r: %r, not %r', text, got, want)

    for name, vals in [('leaf', leaves), ('depth 1', lev1),
                       ('depth 2', lev2)]:
        for ii in range(0, len(vals), 40):
            if ii // 40 % n_parts != ip: continue
            with acc.case([name, ii]):
                for tx, val in vals[ii:ii+40]:
                    if tier != 'quick' or name != 'depth 2':
                        check('a : %s' % tx, {'a': val})
                    check('a=%s, b : 1' % tx, {'a': val, 'b': 1})
                    check('b_1 : 1, a:%s' % tx, {'a': val, 'b_1': 1})
                    acc.count('strings', 3)
                acc.outcome(name)
    with acc.case('special'):
        check('', {})
        check('a :', {'a': None})
        require(dict_from_string(None) == {}, 'no string')
        dd = {'x': 1}
        require(dict_from_string(dd) is dd, 'a dictionary')
        for cc, oo in itertools.product(('a : 1', 'options : {x : 2, z : 3}',
                                         None), ('x : 5, y : 6', '', None)):
            out = dict_from_options(Struct(conf=cc, app_options=oo))
            want = {} if cc is None else dict_from_string(cc)
            if oo:
                want.setdefault('options', {}).update(x=5, y=6)
            require(out == want, 'options %s %s: %s', cc, oo, out)

# Containers.

def run_containers(acc, first, depth):
    import sfepy.discrete
    from sfepy.base.base import Container, Struct

    names = ['a', 'b']
    ops = [('append', n) for n in names]
    ops += [('insert', i, n) for i, n in ((0, 'a'), (1, 'c'))]
    ops += [('set', i, n) for i, n in ((0, 'b'), (-1, 'c'), ('a', 'a'),
                                       ('b', 'd'))]
    ops += [('remove', n) for n in ('a', 'c')]
    ops += [('iadd', ('a', 'b')), ('iadd', 'self'), ('add', ('c',)),
            ('extend', ('b',)), ('update', ('d', 'a'))]
    serial = itertools.count()

    def new(n):
        return Struct(name=n, serial=next(serial))

    def apply(c, m, op):
        """
        Both raise or both give the same.
        """
        if op[0] == 'append':
            o = new(op[1]); c.append(o); m = m + [o]
        elif op[0] == 'insert':
            o = new(op[2]); c.insert(op[1], o)
            m = m[:op[1]] + [o] + m[op[1]:]
        elif op[0] == 'set':
            o = new(op[2])
            ii = op[1]
            if isinstance(ii, str):
                ns = [x.name for x in m]
                ii = ns.index(ii) if ii in ns else len(m)
            bad = ii < -len(m)
            try:
                c[op[1]] = o
            except IndexError:
                require(bad, 'IndexError of a valid index')
                return c, m
            require(not bad, 'no IndexError')
            m = list(m)
            if ii >= len(m): m.append(o)
            else: m[ii] = o
        elif op[0] == 'remove':
            ns = [x.name for x in m]
            try:
                c.remove_name(op[1])
            except ValueError:
                require(op[1] not in ns, 'name not removed')
                return c, m
            ii = ns.index(op[1])
            m = m[:ii] + m[ii+1:]
        elif op[0] == 'iadd':
            if op[1] == 'self':
                c0 = c
                c += c
                require(c is c0, 'in place')
                m = m + m
            else:
                other = Container([new(n) for n in op[1]])
                objs = list(other)
                c += other
                require(list(other) == objs, 'the other container changed')
                m = m + objs
        elif op[0] == 'add':
            other = Container([new(n) for n in op[1]])
            before = list(c)
            c2 = c + other
            require(list(c) == before and len(c) == len(before),
                    'the sum changed its argument')
            require(len(other) == len(op[1]), 'the sum changed the other')
            m = m + list(other)
            # Changes of the sum do not propagate.
            c3 = c + other
            c3.append(new('z'))
            require(list(c) == before, 'the sum shares data')
            c = c2
        elif op[0] == 'extend':
            objs = [new(n) for n in op[1]]
            c.extend(objs); m = m + objs
        elif op[0] == 'update':
            m = [new(n) for n in op[1]]
            c.update(list(m))
        return c, m

    def check(c, m):
        ns = [x.name for x in m]
        require(len(c) == len(m) and all(x is y for x, y in zip(c, m)),
                'items %s, not %s', [x.name for x in c], ns)
        require(list(c.names) == ns and c.get_names() == ns, 'names %s',
                c.names)
        for ii in range(-len(m), len(m)):
            require(c[ii] is m[ii], 'item %d', ii)
            require(c.has_key(ii), 'has_key(%d)', ii)
        require(not c.has_key(len(m)) and not c.has_key(-len(m) - 1),
                'has_key() of a missing index')
        dflt = object()
        for n in ('a', 'b', 'c', 'd'):
            require(c.has_key(n) == (n in ns), 'has_key(%s)', n)
            if n in ns:
                require(c[n] is m[ns.index(n)] and c.get(n) is c[n],
                        'item %s', n)
            else:
                require(c.get(n, dflt) is dflt, 'default')
                for args, exc in [((n,), IndexError),
                                  ((n, None, 'msg'), ValueError)]:
                    try: c.get(*args)
                    except exc: pass
                    else: raise Mismatch('no %s' % exc)
        require([k for k, _ in c.iteritems()] == ns
                and list(c.iterkeys()) == ns
                and all(x is y for x, y in zip(c.itervalues(), m)),
                'iterators')
        dd = c.as_dict()
        require(dd == dict(zip(ns, m)), 'as_dict()')
        c2 = pickle.loads(pickle.dumps(c))
        require(list(c2.names) == ns and [x.serial for x in c2]
                == [x.serial for x in m], 'a pickled container')

    for seq in itertools.product(ops, repeat=depth - 1):
        seq = (ops[first],) + seq
        with acc.case([list(map(list, seq))]):
            c, m = Container(), []
            acc.states += 1
            for op in seq:
                c, m = apply(c, m, op)
                acc.transitions += 1
            check(c, m)
            acc.outcome(len(m))

def run_structs(acc):
    """
    Merging of structures.
    """
    import sfepy.discrete
    from sfepy.base.base import Struct, IndexedStruct

    def make(kind):
        if kind is None: return None
        if kind == 's0': return Struct(name='s0', p=1)
        if kind == 's1': return Struct(name='s1', p=2, q=3)
        return kind
    kinds = ['no', 1, None, 's0', 's1']

    def merge(a, b):
        out = dict(a)
        for k, v in b.items():
            if k not in out: out[k] = v
            elif isinstance(out[k], dict) and isinstance(v, dict):
                out[k] = merge(out[k], v)
        return out
    def flat(s):
        return {k: flat(v) if isinstance(v, Struct) else v
                for k, v in s.to_dict().items()}

    for ka in itertools.product(kinds, repeat=2):
        for kb in itertools.product(kinds, repeat=2):
            with acc.case(['merge', list(ka), list(kb)]):
                def both():
                    a, b = Struct(), Struct()
                    for s, kk in ((a, ka), (b, kb)):
                        for n, k in zip('xy', kk):
                            if k != 'no': setattr(s, n, make(k))
                    return a, b
                a, b = both()
                fa, fb = flat(a), flat(b)
                c = a + b
                require(flat(c) == merge(fa, fb), 'sum %s', flat(c))
                require(flat(a) == fa and flat(b) == fb,
                        'the sum changed its arguments')
                aa = a
                a += b
                require(a is aa and flat(a) == merge(fa, fb), 'in place sum')
                require(flat(b) == fb, 'in place sum changed its argument')
                a, b = both()
                a.update(b)
                require(flat(a) == dict(fa, **fb), 'update()')
                a, b = both()
                a.update(b.to_dict())
                require(flat(a) == dict(fa, **fb), 'update() by a dict')
                a.name = 'n'
                d = a.copy(deep=True)
                require(d.name == 'n_copy' and flat(d) == dict(
                    flat(a), name='n_copy'), 'a deep copy')
                for k, v in d.to_dict().items():
                    if isinstance(v, Struct):
                        require(v is not getattr(a, k), 'not a deep copy')
                d = a.copy(name='m')
                require(d.name == 'm' and all(
                    getattr(d, k) is v for k, v in a.to_dict().items()
                    if k != 'name'), 'a copy')
                d = pickle.loads(pickle.dumps(a))
                require(flat(d) == flat(a), 'a pickled structure')
                had, old = hasattr(a, 'x'), getattr(a, 'x', None)
                ret = a.set_default('x', 7)
                require(ret is a.x and (a.x is old if had else a.x == 7),
                        'set_default()')
                require(a.get('w', 3) == 3 and a.get('name') == 'n', 'get()')
                acc.outcome(len(flat(c)))

# Stored objects.

def leaves_h5(mesh, mtx):
    import scipy.sparse as sp
    from sfepy.base.base import Struct
    return [1, -2.5, 1 + 2j, True, False, None, 'text', 'ěš "x"\n', b'ab\x00c',
            nm.arange(6, dtype=nm.int32).reshape(2, 3),
            nm.array([1.5, nm.inf]), nm.array([1j]),
            {1, 2}, mtx, mesh, [], (), {}, nm.float32(1.5), slice(1, 2)]

def equal(a, b, ids):
    """
    The structure `b` read is the same as `a` stored; the objects that keep
    sharing are mapped in `ids`.
    """
    import scipy.sparse as sp
    from sfepy.base.base import Struct
    from sfepy.discrete.fem import Mesh
    from sfepy.base.ioutils import Cached, Uncached

    if isinstance(a, (Cached, Uncached)):
        if isinstance(a, Cached):
            ids.append((id(a.data), b))
        return equal(a.data, b, ids if isinstance(a, Cached) else [])
    if isinstance(a, Mesh):
        ids.append((id(a), b))
        d0, d1 = a._get_io_data(), b._get_io_data()
        return (isinstance(b, Mesh) and nm.array_equal(d0[0], d1[0])
                and all(nm.array_equal(x, y) for x, y in zip(d0[2], d1[2]))
                and all(nm.array_equal(x, y) for x, y in zip(d0[3], d1[3]))
                and list(d0[4]) == list(d1[4]))
    if sp.issparse(a):
        ids.append((id(a), b))
        return (sp.issparse(b) and a.format == b.format and a.shape == b.shape
                and a.dtype == b.dtype and nm.array_equal(a.toarray(),
                                                          b.toarray()))
    if isinstance(a, nm.ndarray):
        return (isinstance(b, nm.ndarray) and a.dtype == b.dtype
                and a.shape == b.shape and nm.array_equal(a, b))
    if isinstance(a, Struct):
        return (isinstance(b, Struct)
                and equal(a.to_dict(), b.to_dict(), ids))
    if isinstance(a, dict):
        return (isinstance(b, dict) and sorted(a) == sorted(b)
                and all([equal(a[k], b[k], ids) for k in a]))
    if isinstance(a, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b)
                and all([equal(x, y, ids) for x, y in zip(a, b)]))
    return a == b and (a is None or isinstance(b, type(a))
                       or nm.isscalar(b))

def run_hdf5(acc, ip, n_parts, tier):
    import tables as pt
    import scipy.sparse as sp
    import sfepy.discrete
    from sfepy.base.base import Struct, output
    from sfepy.base import ioutils as io
    from sfepy.mesh.mesh_generators import gen_block_mesh
    output.set_output(quiet=True)

    mesh = gen_block_mesh([1, 1], [2, 3], [0.5, 0.5], verbose=False)
    mesh2 = gen_block_mesh([1, 1], [3, 2], [0.5, 0.5], verbose=False)
    mtx = sp.csr_array(nm.array([[1, 0, 2], [0, 0, 3.0]]))
    mtx2 = sp.csc_array(nm.array([[1, 0, 2], [0, 0, 3.0]]))
    leaves = leaves_h5(mesh, mtx)
    arr = nm.arange(3.0)

    def wrap(kind, xs):
        if kind == 'list': return list(xs)
        if kind == 'tuple': return tuple(xs)
        keys = ['k%d' % (len(xs) - i) for i in range(len(xs))]
        if kind == 'dict': return dict(zip(keys, xs))
        return Struct(**dict(zip(keys, xs)))
    kinds = ['list', 'tuple', 'dict', 'struct']

    todo = [('leaf %d' % i, x) for i, x in enumerate(leaves)]
    for k in kinds:
        for i, j in itertools.product(range(len(leaves)), repeat=2):
            todo.append(('%s %d %d' % (k, i, j),
                         wrap(k, [leaves[i], leaves[j]])))
    for k1, k2, k3 in itertools.product(kinds, repeat=3):
        for i in range(0, len(leaves), 1 if tier != 'quick' else 3):
            todo.append(('%s %s %s %d' % (k1, k2, k3, i),
                         wrap(k1, [wrap(k2, [leaves[i], 1]), leaves[i],
                                   wrap(k3, [wrap(k2, [leaves[i]])])])))
    # Many items: the order of names.
    todo.append(('long', list(range(25))))
    # Sharing.
    shared = [('mesh', mesh, mesh2), ('mtx', mtx, mtx2),
              ('array', arr, arr + 1), ('list', [1, 2], [1, 3]),
              ('dict', {'x': 1}, {'x': 2})]
    marks = ['', 'C', 'U']
    def mark(m, x):
        return {'': lambda y: y, 'C': io.Cached, 'U': io.Uncached}[m](x)
    for name, x, y in shared:
        for k1, k2 in itertools.product(kinds, repeat=2):
            for ms in itertools.product(marks, repeat=3):
                for pat in itertools.product((0, 1), repeat=3):
                    if tier == 'quick' and pat != (0, 0, 0) and (
                            k1 != k2 or name in ('array', 'dict')):
                        continue
                    objs = [mark(m, (x, y)[p]) for m, p in zip(ms, pat)]
                    todo.append((' '.join(['shared', name, k1, k2]
                                          + list(ms) + list(map(str, pat))),
                                 wrap(k1, [objs[0], wrap(k2, objs[1:])])))

    for name, data in todo[ip::n_parts]:
        with acc.case(['object', name]):
            with pt.open_file('o.h5', 'w') as fd:
                io.write_to_hdf5(fd, fd.root, 'obj', data)
            with pt.open_file('o.h5', 'r') as fd:
                out = io.read_from_hdf5(fd, fd.root.obj)
            ids = []
            require(equal(data, out, ids), 'stored %s, read %s', data, out)
            # The same object is read once, different ones are different.
            for (i, a), (j, b) in itertools.combinations(ids, 2):
                if i != j:
                    require(a is not b, 'different objects read as one')
            if name.startswith('shared') and 'U' not in name.split():
                if name.split()[1] in ('mesh', 'mtx'):
                    for (i, a), (j, b) in itertools.combinations(ids, 2):
                        if i == j: require(a is b, 'one object read twice')
            acc.outcome(name.split()[0])

def run_sparse(acc):
    """
    Files with sparse matrices and dictionaries.
    """
    import scipy.sparse as sp
    import sfepy.discrete
    from sfepy.base import ioutils as io

    full = {}
    for shape in ((1, 1), (2, 3), (3, 2), (3, 3)):
        for bits in range(2**(shape[0] * shape[1])):
            if bits.bit_count() > 3: continue
            full[(shape, bits)] = bits
    dts = [nm.float64, nm.int32, nm.complex128, nm.float32]
    for ii, (shape, bits) in enumerate(full):
        n = shape[0] * shape[1]
        dense = nm.array([(k + 1.0) * (bits >> k & 1)
                          for k in range(n)]).reshape(shape)
        for fmt, dt in itertools.product(('csr', 'csc'), dts):
            if dt != dts[ii % 4]: continue
            with acc.case(['sparse', list(shape), bits, fmt,
                           nm.dtype(dt).name]):
                d = dense.astype(dt)
                if dt is nm.complex128: d = d * (1 - 2j)
                m = {'csr': sp.csr_array, 'csc': sp.csc_array}[fmt](d)
                io.write_sparse_matrix_hdf5('m.h5', m)
                for of in (None, 'csr', 'csc'):
                    r = io.read_sparse_matrix_hdf5('m.h5', output_format=of)
                    require(r.format == (of or fmt), 'format')
                    require(r.shape == shape and r.dtype == m.dtype,
                            'shape %s, dtype %s', r.shape, r.dtype)
                    require(nm.array_equal(r.toarray(), d),
                            'values, %s read as %s', fmt, of)
                acc.outcome(fmt)

    leaves = [1, 2.5, 'text', nm.arange(3), {}]
    names = ['a', '_b', 'de_f']
    for vs in itertools.product(range(len(leaves)), repeat=3):
        for nested in (0, 1):
            with acc.case(['dict', list(vs), nested]):
                dd = {n: leaves[v] for n, v in zip(names, vs)}
                if nested: dd = {'x': dd, 'y': {'z': dd}, 'w': leaves[vs[0]]}
                io.write_dict_hdf5('d.h5', dd)
                out = io.read_dict_hdf5('d.h5')
                def same(a, b):
                    if isinstance(a, dict):
                        return (isinstance(b, dict) and sorted(a) == sorted(b)
                                and all(same(a[k], b[k]) for k in a))
                    return nm.array_equal(a, b)
                require(same(dd, out), 'stored %s, read %s', dd, out)
                acc.outcome('dict')

def groups(tier):
    depth = 4 if tier == 'quick' else 5
    out = [['problem', ip, 6] for ip in range(6)]
    out += [['tuples'], ['edit'], ['structs'], ['sparse']]
    out += [['strings', ip, 6, tier] for ip in range(6)]
    out += [['containers', ii, depth] for ii in range(15)]
    out += [['hdf5', ip, 8, tier] for ip in range(8)]
    return out

def run(group, acc):
    args = group[1:]
    {'problem': run_problem, 'tuples': run_tuples, 'edit': run_edit,
     'strings': run_strings, 'containers': run_containers,
     'structs': run_structs, 'hdf5': run_hdf5,
     'sparse': run_sparse}[group[0]](acc, *args)
