"""
Region algebra: every expression up to the bound against sets.
"""
import itertools
import numpy as nm

from mc import meshes
from mc.core import require, Skip

PID = 'C01'
LEVEL = 'exploration'
RULE = ('All region selection expressions made of up to 2 set-like operators '
        '(both ways of parenthesising, and none) over a fixed list of atoms '
        '(selectors, references to previously defined regions of all kinds), '
        'for every requested region kind, on tiny 1D/2D/3D meshes of all cell '
        'types. The entities of the created region are compared with a finite '
        'set model. Non-trivial: the expression denotes a non-empty region or '
        'has to be rejected as empty.')
ASSUMPTIONS = ['Entity numbering of the mesh is taken from the mesh itself; '
               'its correctness is the subject of C03.',
               'Unparenthesised operator chains group to the right, as the '
               'current grammar does.']
BOUNDS = {'quick': '1 operator: all atoms; 2 operators: 4 atoms in 1D, 2D, 3 in 3D',
          'thorough': '2 operators: 9 atoms'}

BASE = {
    # name: (selection, kind) - regions other expressions refer to.
    'line3': [('RA', 'vertices in (x < 1.5)', 'vertex'),
              ('RB', 'cell 1, 2', 'cell'),
              ('RC', 'cell 0', 'cell_only')],
    'quad4': [('RA', 'vertices in (x < 0.5)', 'facet'),
              ('RB', 'cells of group 1', 'cell'),
              ('RC', 'vertices in (y > 0.5)', 'vertex'),
              ('RD', 'cell 0, 1', 'cell_only')],
    'tri4': [('RA', 'vertices in (x < 0.5)', 'facet'),
             ('RB', 'cells of group 1', 'cell'),
             ('RC', 'vertices in (y > 0.5)', 'vertex')],
    'mix2d': [('RA', 'vertices in (x < 1.5)', 'facet'),
              ('RB', 'cells of group 1', 'cell')],
    'hex2': [('RA', 'vertices in (x > 0.5)', 'facet'),
             ('RB', 'cell 0', 'cell'),
             ('RC', 'vertices in (z < 0.5)', 'edge')],
    'tet6': [('RA', 'vertices in (x < 0.5)', 'facet'),
             ('RB', 'cells of group 1', 'cell'),
             ('RC', 'vertices in (z < 0.5)', 'edge')],
    'wedge2': [('RA', 'vertices in (z < 0.5)', 'facet'),
               ('RB', 'cell 1', 'cell')],
}

ATOMS = {
    1: ['all', 'vertices of surface', 'vertices in (x > 0.5)', 'vertex 3, 1',
        'cell 0, 1', 'cells of group 2', 'vertices of group 1',
        'r.RA', 'r.RB', 'r.RC', 'vertices by fv', 'cells by fc',
        'vertex in r.RB'],
    2: ['r.RA', 'r.RB', 'vertices in (x > 0.5)', 'cells of group 2', 'cell 0',
        'vertices of surface', 'all', 'vertex 4, 0, 2',
        'vertices of group 1', 'copy r.RA', 'vertices by fv', 'cells by fc',
        'vertices in ((x < 0.5) | (y > 0.5)) & (x < 1.5)',
        'vertex in r.RB', 'r.RC', 'r.RD'],
    3: ['r.RA', 'r.RB', 'vertices in (x > 0.5)', 'cells of group 2', 'cell 0',
        'vertices of surface', 'all', 'vertex 5, 0, 2',
        'vertices of group 1', 'vertices by fv', 'cells by fc',
        'vertices in (x < 0.5) & (z <= 0.0)', 'vertex in r.RB', 'r.RC'],
}
OPS = {1: 'vsc', 2: 'vesc', 3: 'vefsc'}
KINDS = {1: ['cell', 'vertex', 'cell_only', 'facet', 'vertex_only'],
         2: ['cell', 'facet', 'edge', 'vertex', 'cell_only', 'facet_only',
             'vertex_only'],
         3: ['cell', 'facet', 'face', 'edge', 'vertex', 'cell_only',
             'facet_only', 'edge_only', 'vertex_only']}
CAN = {'cell': (1, 1, 1, 1), 'face': (1, 1, 1, 0), 'edge': (1, 1, 0, 0),
       'vertex': (1, 0, 0, 0), 'cell_only': (0, 0, 0, 1),
       'face_only': (0, 0, 1, 0), 'edge_only': (0, 1, 0, 0),
       'vertex_only': (1, 0, 0, 0)}

def fv(coors, domain=None):
    return nm.where(coors[:, 0] + coors.sum(1) > 1.2)[0]

def fc(coors, domain=None):
    return nm.where(coors[:, 0] < 0.9)[0]

def true_kind(kind, tdim):
    for suf in ('', '_only'):
        if kind == 'facet' + suf:
            return {1: 'vertex', 2: 'edge', 3: 'face'}[tdim] + suf
    return kind

def can_of(kind, tdim):
    can = CAN[true_kind(kind, tdim)]
    return {1: (can[0], can[3]), 2: (can[0], can[1], can[3]), 3: can}[tdim]

def kdim(kind, tdim):
    kk = true_kind(kind, tdim).split('_')[0]
    return {'vertex': 0, 'edge': 1, 'face': 2, 'cell': tdim}[kk]

class Undefined(Exception):
    """
    The documentation does not define the outcome.
    """

class Node:
    """
    A set of entities of one dimension + kind; `full` of already finalized
    regions holds all the entities.
    """
    def __init__(self, top, dim, ents, kind='cell', full=None):
        self.top, self.dim, self.kind = top, dim, kind
        self.ents = frozenset(ents)
        self.full = full

    def get(self, dim):
        top = self.top
        if self.full is not None:
            return self.full[dim]
        if not can_of(self.kind, top.tdim)[dim]:
            raise Undefined
        if dim == self.dim:
            return self.ents
        if not self.ents:
            raise Undefined
        if dim < self.dim:
            if dim and not can_of(self.kind, top.tdim)[0]:
                raise Undefined
            return frozenset(top.closure(self.ents, self.dim, dim))
        verts = top.closure(self.ents, self.dim, 0)
        if dim == top.tdim or dim == kdim(self.kind, top.tdim):
            return frozenset(top.complete(dim, verts, 0))
        # Intermediate entities: of the complete cells (or the highest entities
        # that the region kind has), if there are any.
        kd = kdim(self.kind, top.tdim)
        if dim > kd:
            raise Undefined
        cells = top.complete(kd, verts, 0)
        if not cells:
            raise Undefined
        return frozenset(top.closure(cells, kd, dim))

def final(node, kind):
    """
    Entities of the region of the given kind: dict dim -> set.
    """
    top = node.top
    tdim = top.tdim
    can = can_of(kind, tdim)
    kd = kdim(kind, tdim)
    if node.full is not None:
        raise Undefined # A reference to a region, see 'copy'.
    if node.dim > kd:
        raise Undefined
    if '_only' in kind and node.dim != kd:
        raise Undefined
    if not can_of(node.kind, tdim)[kd]:
        raise Undefined
    tmp = Node(top, node.dim, node.ents, kind)
    kents = tmp.get(kd) if node.ents else frozenset()
    out = {}
    for dim in range(tdim + 1):
        if dim == kd:
            out[dim] = kents
        elif (dim < kd) and can[dim]:
            out[dim] = frozenset(top.closure(kents, kd, dim))
        else:
            out[dim] = frozenset()
    return out

class Context:
    def __init__(self, name):
        from sfepy.discrete.fem import FEDomain
        from sfepy.discrete import Functions, Function
        self.name = name
        self.mesh = meshes.mesh(name)
        self.domain = FEDomain('domain', self.mesh)
        self.functions = Functions([Function('fv', fv), Function('fc', fc)])
        self.top = meshes.ref_of_mesh(self.mesh)
        self.tdim = self.top.tdim
        self.coors = self.mesh.coors
        self.base = {}
        for rname, sel, kind in BASE[name]:
            reg = self.domain.create_region(rname, sel, kind=kind,
                                            functions=self.functions)
            self.base[rname] = (kind, {dd: frozenset(int(ii) for ii in
                                                     reg.get_entities(dd))
                                       for dd in range(self.tdim + 1)
                                       if reg.can[dd]})
            for dd in range(self.tdim + 1):
                self.base[rname][1].setdefault(dd, frozenset())
        self.n_base = len(self.domain.regions)
        # Base regions, too, have to be right.
        self.base_ok = {}
        for rname, sel, kind in BASE[name]:
            self.base_ok[rname] = final(self.atom(sel), kind)

    def atom(self, sel):
        top = self.top
        co = self.coors
        x, y, z = [co[:, ii] if ii < co.shape[1] else None
                   for ii in range(3)]
        nodes = lambda flag: Node(top, 0, [int(ii) for ii in
                                           nm.where(flag)[0]])
        if sel == 'all':
            return Node(top, 0, range(co.shape[0]))
        if sel == 'vertices of surface':
            fd = top.tdim - 1
            surf = [ii for ii in range(len(top.ents[fd]))
                    if len(top.up[fd, top.tdim][ii]) == 1]
            return Node(top, fd, surf, 'facet')
        if sel.startswith('vertices in '):
            conds = {
                '(x > 0.5)': lambda: x > 0.5,
                '(x < 0.5)': lambda: x < 0.5,
                '(x < 1.5)': lambda: x < 1.5,
                '(y > 0.5)': lambda: y > 0.5,
                '(z < 0.5)': lambda: z < 0.5,
                '((x < 0.5) | (y > 0.5)) & (x < 1.5)':
                lambda: nm.array([(a < 0.5 or b > 0.5) and a < 1.5
                                  for a, b in zip(x, y)]),
                '(x < 0.5) & (z <= 0.0)':
                lambda: nm.array([a < 0.5 and b <= 0 for a, b in zip(x, z)]),
            }
            return nodes(conds[sel[12:]]())
        if sel.startswith('vertices of group '):
            return nodes(nm.arange(co.shape[0]) % 3 == int(sel.split()[-1]))
        if sel.startswith('cells of group '):
            return Node(top, top.tdim,
                        [ii for ii in range(len(top.ents[top.tdim]))
                         if ii % 2 + 1 == int(sel.split()[-1])])
        if sel.startswith('vertices by'):
            return nodes(co[:, 0] + co.sum(1) > 1.2)
        if sel.startswith('cells by'):
            cc = [ii for ii, verts in enumerate(top.ents[top.tdim])
                  if nm.mean([co[jj, 0] for jj in verts]) < 0.9]
            return Node(top, top.tdim, cc)
        if sel.startswith('vertex in r.'):
            return None # Any single vertex.
        if sel.startswith('vertex '):
            return Node(top, 0, [int(ii) for ii in sel[7:].split(',')])
        if sel.startswith('cell '):
            return Node(top, top.tdim, [int(ii) for ii in sel[5:].split(',')])
        if sel.startswith('copy r.'):
            kind, full = self.base[sel[7:]]
            kd = kdim(kind, top.tdim)
            return Node(top, kd, full[kd], kind)
        if sel.startswith('r.'):
            kind, full = self.base[sel[2:]]
            kd = kdim(kind, top.tdim)
            return Node(top, kd, full[kd], kind, full=full)
        raise KeyError(sel)

    def op(self, n1, op, n2):
        top = self.top
        dim = {'v': 0, 'e': 1, 'f': 2, 's': top.tdim - 1,
               'c': top.tdim}[op[1]]
        if not can_of(n1.kind, top.tdim)[dim]:
            raise Undefined
        fun = {'+': frozenset.union, '-': frozenset.difference,
               '*': frozenset.intersection}[op[0]]
        return Node(top, dim, fun(n1.get(dim), n2.get(dim)), n1.kind)

def judge(ctx, acc, sel, build, kind, allow_empty=False):
    """
    Compare one created region with the set model.
    """
    ident = [sel, kind, int(allow_empty)]
    with acc.case(ident, sample=None):
        try:
            expected = final(build(), kind)
        except Undefined:
            acc.count('undefined')
            raise Skip
        empty = not expected[kdim(kind, ctx.tdim)]
        try:
            reg = ctx.domain.create_region('T', sel, kind=kind,
                                           functions=ctx.functions,
                                           add_to_regions=False,
                                           allow_empty=allow_empty)
        except ValueError as exc:
            require(empty and not allow_empty,
                    'rejected (%s), expected entities %s', exc, expected)
            acc.outcome('rejected')
            return
        require(not empty or allow_empty,
                'an empty region was accepted, entities %s', reg.entities)
        require(bool(reg.is_empty) == empty, 'is_empty is %s', reg.is_empty)
        for dim in range(ctx.tdim + 1):
            got = [int(ii) for ii in reg.get_entities(dim)]
            require(len(got) == len(set(got)),
                    'entities of dimension %d repeat: %s', dim, got)
            require(set(got) == expected[dim],
                    'entities of dimension %d: %s, expected %s', dim,
                    sorted(got), sorted(expected[dim]))
        shape = reg.shape
        nn = [len(expected[dd]) for dd in range(ctx.tdim + 1)]
        require(shape.n_vertex == nn[0] and shape.n_cell == nn[ctx.tdim]
                and shape.n_facet == nn[ctx.tdim - 1]
                and (ctx.tdim < 2 or shape.n_edge == nn[1])
                and (ctx.tdim < 3 or shape.n_face == nn[2]),
                'wrong shape: %s', shape)
        if kind == 'cell' and not empty:
            require(set(reg.get_cells().tolist()) == expected[ctx.tdim],
                    'get_cells()')
        if kind in ('facet', 'cell') and not empty:
            fis = reg.get_facet_indices()
            fd = ctx.tdim - 1
            want = []
            for ff in expected[fd]:
                for cc in ctx.top.up[fd, ctx.tdim][ff]:
                    want.append((cc, ff))
            if ctx.tdim > 1:
                got = sorted((int(cc), ctx.top.index[fd][
                    ctx.top.sub[fd][int(cc)][int(lf)]]) for cc, lf in fis)
                require(got == sorted(want), 'facet indices: %s, expected %s',
                        got, sorted(want))
        for chf, dim in ((reg.get_charfun(), 0),
                         (reg.get_charfun(by_cell=True), ctx.tdim)):
            require(set(nm.where(chf)[0].tolist()) == expected[dim],
                    'characteristic function')
        acc.outcome(tuple(sorted((dd, tuple(sorted(ee)))
                                 for dd, ee in expected.items())))

def check_base(ctx, acc):
    """
    Other regions are not touched by what was created from them.
    """
    with acc.case('unchanged', nontrivial=False):
        require(len(ctx.domain.regions) == ctx.n_base, 'regions added')
        for (rname, sel, kind), reg in zip(BASE[ctx.name],
                                           ctx.domain.regions):
            require(reg.name == rname, 'region %s renamed to %s', rname,
                    reg.name)
            for dim in range(ctx.tdim + 1):
                require(set(int(ii) for ii in reg.get_entities(dim))
                        == ctx.base_ok[rname][dim],
                        'entities of dimension %d of %s: %s, expected %s',
                        dim, rname, reg.get_entities(dim),
                        sorted(ctx.base_ok[rname][dim]))

def atoms_of(ctx):
    names = {rr[0] for rr in BASE[ctx.name]}
    out = []
    for sel in ATOMS[ctx.tdim]:
        if 'r.' in sel and sel.split('r.')[-1] not in names:
            continue
        if ctx.name in ('tet6', 'wedge2') and '1.5' in sel:
            continue
        if 'cell 0, 1' in sel and ctx.top.ents[ctx.tdim].__len__() < 2:
            continue
        out.append(sel)
    return out

def groups(tier):
    out = []
    for name in BASE:
        out.append([name, 'one', 0, 1])
    for name in ('quad4', 'hex2', 'tet6', 'tri4', 'mix2d', 'wedge2',
                 'line3'):
        n = 4 if name in ('quad4', 'hex2', 'tet6') else 2
        for ii in range(n):
            out.append([name, 'two', ii, n])
    if tier == 'thorough':
        for name in ('quad4', 'tri4', 'hex2', 'tet6', 'line3', 'mix2d',
                     'wedge2'):
            for ii in range(8):
                out.append([name, 'two_all', ii, 8])
    return out

def run(group, acc):
    name, what, part, n_part = group
    ctx = Context(name)
    tdim = ctx.tdim
    atoms = atoms_of(ctx)
    kinds = KINDS[tdim]
    ops = [aa + bb for aa in '+-*' for bb in OPS[tdim]]
    plain = [ss for ss in atoms if not ss.startswith('vertex in r.')]
    if what == 'one':
        check_base(ctx, acc)
        for sel, kind in itertools.product(plain, kinds):
            judge(ctx, acc, sel, lambda: ctx.atom(sel), kind)
        for s1, op, s2, kind in itertools.product(plain, ops, plain, kinds):
            sel = '%s %s %s' % (s1, op, s2)
            if 'copy' in s1 + s2:
                continue
            judge(ctx, acc, sel,
                  lambda: ctx.op(ctx.atom(s1), op, ctx.atom(s2)), kind)
            if kind == 'cell':
                judge(ctx, acc, sel,
                      lambda: ctx.op(ctx.atom(s1), op, ctx.atom(s2)), kind,
                      allow_empty=True)
        for sel in [ss for ss in atoms if ss.startswith('vertex in r.')]:
            with acc.case([sel, 'vertex']):
                reg = ctx.domain.create_region('T', sel, kind='vertex',
                                               add_to_regions=False)
                rname = sel.split('r.')[-1]
                require(len(reg.vertices) == 1 and int(reg.vertices[0])
                        in ctx.base_ok[rname][0], 'not a vertex of %s: %s',
                        rname, reg.vertices)
        check_parents(ctx, acc)
        check_base(ctx, acc)
        return

    plain = [ss for ss in plain if 'copy' not in ss]
    if what == 'two':
        plain = plain[:4] if tdim < 3 else plain[:3]
        kinds = ['cell', 'facet', 'vertex']
    else:
        plain = plain[:9]
        kinds = ['cell', 'facet', 'vertex', 'edge'][:4 if tdim == 3 else 3]

    combos = itertools.product(plain, ops, plain, ops, plain)
    for ic, (s1, o1, s2, o2, s3) in enumerate(combos):
        if ic % n_part != part:
            continue
        left = lambda: ctx.op(ctx.op(ctx.atom(s1), o1, ctx.atom(s2)), o2,
                              ctx.atom(s3))
        right = lambda: ctx.op(ctx.atom(s1), o1,
                               ctx.op(ctx.atom(s2), o2, ctx.atom(s3)))
        kind = kinds[(ic // n_part) % len(kinds)]
        todo = kinds if what == 'two_all' else [kind]
        for kind in todo:
            judge(ctx, acc, '(%s %s %s) %s %s' % (s1, o1, s2, o2, s3), left,
                  kind)
            judge(ctx, acc, '%s %s (%s %s %s)' % (s1, o1, s2, o2, s3), right,
                  kind)
            if what == 'two_all' or ic % 3 == 0:
                judge(ctx, acc, '%s %s %s %s %s' % (s1, o1, s2, o2, s3),
                      right, kind)
    check_base(ctx, acc)

def check_parents(ctx, acc):
    """
    Facet regions with parents: only the cells of the parent are used.
    """
    if ctx.tdim < 2:
        return
    top = ctx.top
    fd = ctx.tdim - 1
    n_cell = len(top.ents[ctx.tdim])
    n_facet = len(top.ents[fd])
    from sfepy.discrete.common.region import Region
    for num in range(1, n_cell):
        for cells in itertools.combinations(range(n_cell), num):
            parent = ctx.domain.create_region(
                'P', 'cell ' + ', '.join(map(str, cells)))
            for kf in (1, 2):
                for facets in itertools.combinations(range(n_facet), kf):
                    ident = ['parent', list(cells), list(facets)]
                    if kf == 2 and (facets[0] + facets[1]) % 3:
                        continue
                    if not any(top.up[fd, ctx.tdim][ff] & set(cells)
                               for ff in top.complete(fd, top.closure(
                                       facets, fd, 0), 0)):
                        continue # Off the parent.
                    with acc.case(ident):
                        verts = sorted(top.closure(facets, fd, 0))
                        full = sorted(top.complete(fd, verts, 0))
                        reg = ctx.domain.create_region(
                            'T', 'vertex ' + ', '.join(map(str, verts)),
                            kind='facet', parent='P', add_to_regions=False)
                        require(sorted(reg.facets.tolist()) == full,
                                'facets %s, expected %s', reg.facets, full)
                        fis = reg.get_facet_indices()
                        got = [(int(cc), top.index[fd][
                            top.sub[fd][int(cc)][int(lf)]])
                               for cc, lf in fis]
                        want = [(cc, ff) for ff in full
                                for cc in sorted(top.up[fd, ctx.tdim][ff])
                                if cc in cells]
                        require(sorted(got) == sorted(want),
                                'facet indices %s, expected %s', got, want)
                        gc = reg.get_cells(true_cells_only=False)
                        require(sorted(gc.tolist())
                                == sorted(cc for cc, ff in want),
                                'cells of facets: %s', gc)
                        acc.outcome(repr(want))
            ctx.domain.regions.pop()
