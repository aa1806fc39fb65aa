"""
C21: linear combination boundary conditions.
"""
import itertools

import numpy as nm
from scipy.linalg import null_space

from mc import meshes
from mc.checks.c19 import _numbering
from mc.core import require

PID = 'C21'
LEVEL = 'exploration'
RULE = ('a case = a mesh numbering, field orders, an order of variables,'
        ' essential and periodic conditions and a sequence of linear'
        ' combination conditions; distinct by these; all are non-trivial')
ASSUMPTIONS = ['nodal normals and edge directions in corners may be any'
               ' positive combination of those of the facets (edges)',
               'default weights of rotations of average force constraints are'
               ' not judged, the weights given by a function are',
               'regions of conditions of a variable are disjoint and their'
               ' DOFs not fixed by essential conditions, as required']
BOUNDS = {
    'quick': 'all kinds of conditions alone with all variants of their'
             ' arguments, all ordered pairs of conditions of a menu, with and'
             ' without essential and periodic conditions, 2 x 2'
             ' quadrilaterals and 2 hexahedra with fields of order 1 and 2;'
             ' nodal combinations with all matrices of one row and chosen'
             ' ones of two rows',
    'thorough': 'all ordered triples of conditions, all numberings of'
                ' vertices, nodal combinations with all matrices of two rows'
                ' with entries -1, 0, 1, 2',
}
LIMIT = 800

class Env:
    """
    Variables over a mesh.
    """
    def __init__(self, mesh, order, layout, numbering):
        from sfepy.discrete import FieldVariable, Variables
        from sfepy.discrete.fem import FEDomain, Field, Mesh
        coors, conns, descs = meshes.data(mesh)
        coors = nm.array(coors, dtype=float)
        vp = _numbering(numbering, len(coors))
        cc = nm.empty_like(coors)
        cc[vp] = coors
        conns = [vp[nm.array(conn)].astype(nm.int32) for conn in conns]
        mm = Mesh.from_data('m', cc, None, conns,
                            [nm.zeros(len(conn), dtype=nm.int32)
                             for conn in conns], descs)
        self.domain = FEDomain('d', mm)
        self.dim = cc.shape[1]
        self.lo, self.hi = cc.min(0), cc.max(0)
        self.omega = self.domain.create_region('Omega', 'all')
        self.vars, self.fields = {}, {}
        for ii, (name, ncomp) in enumerate(layout):
            field = Field.from_args('f_' + name, nm.float64, (ncomp,),
                                    self.omega, approx_order=order)
            self.fields[name] = field
            self.vars[name] = FieldVariable(name, 'unknown', field, order=ii)
        self.variables = Variables(list(self.vars.values()))
        self.variables.setup_dof_info()
        self.variables.init_history()
        self.regions = {}

    def plane(self, ax, side, inner=False):
        """
        Facets in a plane, without the border vertices if `inner`.
        """
        key = ('plane', ax, side, inner)
        if key not in self.regions:
            name = 'xyz'[ax]
            val = self.hi[ax] if side else self.lo[ax]
            sel = 'vertices in (%s %s %.8f)' % (
                name, '>' if side else '<', val + (-1e-4 if side else 1e-4))
            kind = 'facet'
            if inner:
                for ia in range(self.dim):
                    if ia == ax: continue
                    sel += ' *v vertices in ((%s > %.8f) & (%s < %.8f))' % (
                        'xyz'[ia], self.lo[ia] + 1e-4,
                        'xyz'[ia], self.hi[ia] - 1e-4)
                kind = 'vertex'
            self.regions[key] = self.domain.create_region(
                'R%d' % len(self.regions), sel, kind)
        return self.regions[key]

    def point(self, xx):
        key = ('point',) + tuple(map(float, xx))
        if key not in self.regions:
            dd = nm.linalg.norm(self.domain.mesh.coors - xx, axis=1)
            self.regions[key] = self.domain.create_region(
                'R%d' % len(self.regions), 'vertex %d' % dd.argmin(),
                'vertex')
        return self.regions[key]

    def nodes(self, name, region):
        """
        Nodes of a region by geometry.
        """
        key = [kk for kk, rr in self.regions.items() if rr is region][0]
        xx = self.fields[name].get_coor()
        if key[0] == 'point':
            ok = nm.linalg.norm(xx - key[1:], axis=1) < 1e-8
        else:
            _, ax, side, inner = key
            val = self.hi[ax] if side else self.lo[ax]
            ok = nm.abs(xx[:, ax] - val) < 1e-8
            if inner:
                for ia in range(self.dim):
                    if ia == ax: continue
                    ok &= (xx[:, ia] > self.lo[ia] + 1e-4)
                    ok &= (xx[:, ia] < self.hi[ia] - 1e-4)
                # A region of vertices.
                ok &= nm.array([nm.abs(self.domain.mesh.coors - x1).sum(1)
                                .min() < 1e-8 for x1 in xx])
        return nm.where(ok)[0]

    def coors(self, name, nodes):
        return self.fields[name].get_coor(nodes)

    def setup(self, ebcs, epbcs, lcbcs):
        from sfepy.discrete.conditions import Conditions
        vs = self.variables
        vs.equation_mapping(Conditions(ebcs) if ebcs else None,
                            Conditions(epbcs) if epbcs else None, None, None)
        vs.setup_lcbc_operators(Conditions(lcbcs), None, None)
        mtx = vs.mtx_lcbc.toarray()
        rhs = vs.vec_lcbc
        if rhs is None: rhs = nm.zeros(mtx.shape[0])
        return mtx, rhs

    def act(self, name, node, comp):
        """
        The index of an active DOF or -1.
        """
        var = self.vars[name]
        eq = var.eq_map.eq[node * var.n_components + comp]
        if eq < 0: return -1
        return int(self.variables.adi.indx[name].start + eq)

    def acts(self, name, nodes, comps):
        return nm.array([self.act(name, nn, cc) for nn in nodes
                         for cc in comps], dtype=int)

class Cons:
    """
    A reference: rows of C u = b of active DOFs.
    """
    def __init__(self, env):
        self.env = env
        self.num = env.variables.adi.n_dof_total
        self.rows, self.rhs = [], []

    def add(self, inds, coefs, rhs=0.0):
        row = nm.zeros(self.num)
        for ii, cc in zip(inds, coefs):
            require(ii >= 0, 'a fixed DOF in a condition')
            row[ii] += cc
        self.rows.append(row)
        self.rhs.append(rhs)

    def image(self, inds, mtx):
        """
        u[inds] in the range of mtx.
        """
        for row in null_space(nm.asarray(mtx, dtype=float).T).T:
            self.add(inds, row)

    def judge(self, mtx, rhs, acc=None, full=True):
        num = self.num
        cc = nm.array(self.rows).reshape((-1, num))
        bb = nm.array(self.rhs)
        require(mtx.shape[0] == num, 'rows of the operator')
        require(nm.isfinite(mtx).all() and nm.isfinite(rhs).all(),
                'operator not finite')
        err = nm.abs(cc @ mtx).max() if cc.size and mtx.size else 0.0
        require(err < 1e-9, 'the operator violates the conditions, error %s',
                err)
        err = nm.abs(cc @ rhs - bb).max() if cc.size else 0.0
        require(err < 1e-9, 'the right-hand side violates the conditions,'
                ' error %s', err)
        n_free = num - (nm.linalg.matrix_rank(cc, 1e-9) if cc.size else 0)
        rank = nm.linalg.matrix_rank(mtx, 1e-9) if mtx.size else 0
        require(rank == n_free, 'the operator has rank %d, the conditions'
                ' leave %d DOFs', rank, n_free)
        if full:
            require(mtx.shape[1] == n_free, '%d columns for %d DOFs',
                    mtx.shape[1], n_free)
        lcdi = self.env.variables.lcdi
        require(lcdi.n_dof_total == mtx.shape[1], 'DOF info')

def spin(dd):
    if len(dd) == 2:
        return nm.array([[-dd[1]], [dd[0]]])
    return nm.array([[0, dd[2], -dd[1]], [-dd[2], 0, dd[0]],
                     [dd[1], -dd[0], 0.0]])

def lcbc(kind, regions, dofs, fun=None, args=None):
    from sfepy.discrete.conditions import LinearCombinationBC
    return LinearCombinationBC('l', list(regions), {dofs[0] : dofs[1]},
                               fun, kind,
                               key='lcbc_%s' % kind, arguments=args)

def dofs_str(name, comps, dim):
    if comps is None: return name + '.all'
    if len(comps) == 1: return '%s.%d' % (name, comps[0])
    return '%s.[%s]' % (name, ', '.join(map(str, comps)))

def pair(env, n1, r1, n2, r2, axis=None):
    """
    Nodes of two regions in pairs.
    """
    m1, m2 = env.nodes(n1, r1), env.nodes(n2, r2)
    c1, c2 = env.coors(n1, m1), env.coors(n2, m2)
    if axis is not None:
        c1, c2 = [nm.delete(cc, axis, axis=1) for cc in (c1, c2)]
    out = []
    for ii, xx in enumerate(c1):
        jj = nm.linalg.norm(c2 - xx, axis=1).argmin()
        out.append((m1[ii], m2[jj]))
    return out

# Conditions: name -> function(env) returning (bc, reference, full rank),
# where the reference is a function of Cons.
def rigid(name, region, comps=None):
    def fun(env):
        reg = env.plane(*region)
        cs = list(range(env.dim)) if comps is None else list(comps)
        bc = lcbc('rigid', [reg, None], [dofs_str(name, comps, env.dim),
                                         None])
        def ref(cons):
            nodes = env.nodes(name, reg)
            mtx = nm.vstack([nm.hstack([nm.eye(env.dim), spin(xx)])[cs]
                             for xx in env.coors(name, nodes)])
            cons.image(env.acts(name, nodes, cs), mtx)
        return bc, ref, comps is None and len(env.nodes(name, reg)) >= env.dim
    return fun

def mean_value(name, region, comps=None):
    def fun(env):
        reg = env.plane(*region)
        ncomp = env.vars[name].n_components
        cs = list(range(ncomp)) if comps is None else list(comps)
        bc = lcbc('integral_mean_value', [reg, None],
                  [dofs_str(name, comps, env.dim), None])
        def ref(cons):
            ii = env.acts(name, env.nodes(name, reg), cs)
            for jj in ii[1:]:
                if jj != ii[0]: cons.add([jj, ii[0]], [1, -1])
        return bc, ref, True
    return fun

def no_penetration(name, region):
    def fun(env):
        reg = env.plane(*region)
        bc = lcbc('no_penetration', [reg, None], [name + '.all', None], None,
                  (None,))
        def ref(cons):
            for node in env.nodes(name, reg):
                cons.add([env.act(name, node, region[0])], [1])
        return bc, ref, True
    return fun

def direction(kind, name, region, axis):
    def fun(env):
        reg = env.plane(*region)
        bc = lcbc(kind, [reg, None], [name + '.all', None], None, (None,))
        def ref(cons):
            for node in env.nodes(name, reg):
                for ic in range(env.dim):
                    if ic == axis: continue
                    cons.add([env.act(name, node, ic)], [1])
        return bc, ref, True
    return fun

def nodal(name, region, mtx, rhs, comps=None, call=False):
    mtx, rhs = nm.array(mtx, dtype=float), nm.array(rhs, dtype=float)
    def fun(env):
        from sfepy.discrete import Function
        reg = env.plane(*region)
        ncomp = env.vars[name].n_components
        cs = list(range(ncomp)) if comps is None else list(comps)
        if call:
            def get(ts, coors, region=None):
                sc = 1.0 + coors[:, 0] - env.lo[0]
                return (sc[:, None, None] * mtx,
                        (sc + 1.0)[:, None] * rhs)
            arg = Function('get', get)
        else:
            arg = (mtx, rhs)
        bc = lcbc('nodal_combination', [reg, None],
                  [dofs_str(name, comps, env.dim), None], None, (arg,))
        def ref(cons):
            nodes = env.nodes(name, reg)
            for node, xx in zip(nodes, env.coors(name, nodes)):
                sc, sr = 1.0, 1.0
                if call:
                    sc = 1.0 + xx[0] - env.lo[0]
                    sr = sc + 1.0
                ii = env.acts(name, [node], cs)
                for row, bb in zip(mtx, rhs):
                    cons.add(ii, sc * row, sr * bb)
        return bc, ref, True
    return fun

def match_fun(env, axis, order):
    """
    A matching function returning pairs in a given order.
    """
    from sfepy.discrete import Function
    def fun(c1, c2):
        a1, a2 = [nm.delete(cc, axis, axis=1) if axis is not None else cc
                  for cc in (c1, c2)]
        i1 = nm.arange(len(c1))
        if order == 'rev': i1 = i1[::-1]
        i2 = nm.array([nm.linalg.norm(a2 - xx, axis=1).argmin()
                       for xx in a1[i1]])
        return i1, i2
    return Function('match', fun)

def tied(kind, n1, r1, n2, r2, axis, order='id', c1=None, c2=None,
         shift=None):
    def fun(env):
        from sfepy.discrete import Function
        reg1, reg2 = env.plane(*r1), env.plane(*r2)
        k1 = list(range(env.vars[n1].n_components)) if c1 is None else c1
        k2 = list(range(env.vars[n2].n_components)) if c2 is None else c2
        val = lambda coors: nm.array([[1.0 + 0.5 * ic + xx.sum()
                                       for ic in range(len(k1))]
                                      for xx in coors])
        args = None
        if kind == 'shifted_periodic':
            args = (None if shift is None else
                    Function('shift', lambda ts, coors, region: val(coors)),)
        bc = lcbc(kind, [reg1, reg2],
                  [dofs_str(n1, c1, env.dim), dofs_str(n2, c2, env.dim)],
                  match_fun(env, axis, order), args)
        def ref(cons):
            for m1, m2 in pair(env, n1, reg1, n2, reg2, axis):
                vals = val(env.coors(n2, [m2]))[0]
                for ik, (i1, i2) in enumerate(zip(k1, k2)):
                    ii, jj = env.act(n1, m1, i1), env.act(n2, m2, i2)
                    if ii < 0 or jj < 0 or ii == jj: continue
                    cons.add([ii, jj], [1, -1],
                             vals[ik] if shift is not None else 0.0)
        return bc, ref, True
    return fun

def rigid2(n1, r1, n2, rot):
    def fun(env):
        reg1 = env.plane(*r1)
        cc = [[0.5, 0.5], [1.0, 0.5, 0.5]][env.dim - 2]
        point = env.mid()
        reg2 = env.point(point)
        bc = lcbc('rigid2', [reg1, reg2], [n1 + '.all', n2 + '.all'])
        def ref(cons):
            nodes = env.nodes(n1, reg1)
            node, = env.nodes(n2, reg2)
            for nn, xx in zip(nodes, env.coors(n1, nodes)):
                dd = xx - point
                mtx = nm.eye(env.dim)
                if rot: mtx = nm.hstack([mtx, spin(dd)])
                ss = [env.act(n2, node, ic) for ic in range(mtx.shape[1])]
                for ic in range(env.dim):
                    cons.add([env.act(n1, nn, ic)] + ss,
                             nm.r_[1.0, -mtx[ic]])
        return bc, ref, True
    return fun

def average(n1, r1, n2, rot, weights):
    """
    n1: independent nodes.
    """
    def fun(env):
        from sfepy.discrete import Function
        reg1 = env.plane(*r1)
        point = env.mid()
        reg2 = env.point(point)
        dim = env.dim
        sym = dim * (dim + 1) // 2
        def wf(xx):
            out = nm.zeros(sym)
            out[:dim] = 1.0 + (xx.sum() if weights in ('x', 'r') else 0.0)
            if weights == 'r': out[dim:] = 0.5
            return out
        # The same array is returned in all calls.
        store = {}
        def get(mc, sc):
            key = (mc.tobytes(), sc.tobytes())
            if key not in store:
                store[key] = nm.array([wf(xx) for xx in sc])
            return store[key]
        if weights is None:
            arg = None
        else:
            arg = Function('w', get)
        bc = lcbc('average_force', [reg1, reg2], [n1 + '.all', n2 + '.all'],
                  arg)
        def ref(cons):
            nodes = env.nodes(n1, reg1)
            node, = env.nodes(n2, reg2)
            mats, ws = [], []
            for xx in env.coors(n1, nodes):
                mtx = nm.eye(dim)
                if rot: mtx = nm.hstack([mtx, spin(xx - point)])
                mats.append(mtx)
                ws.append(wf(xx)[:dim])
            aa = nm.vstack(mats)
            ww = nm.concatenate(ws)
            # The weighted least squares, rotations of the nodes are zero.
            aux = aa.T @ (ww[:, None] * aa)
            if weights == 'r':
                length = nm.linalg.norm(env.coors(n1, nodes) - point,
                                        axis=1).mean()
                for ir in range(dim, sym):
                    aux[ir, ir] += len(nodes) * 0.5 * length**2
            sol = nm.linalg.solve(aux, aa.T * ww)
            ss = env.acts(n1, nodes, range(dim))
            for ic, row in enumerate(sol):
                cons.add([env.act(n2, node, ic)] + list(ss), nm.r_[1.0, -row])
        return bc, ref, True
    return fun

def twist(name, r1, r2, anchor, axis, thread):
    def fun(env):
        reg1, reg2 = env.plane(*r1), env.plane(*r2)
        bc = lcbc('rigid_twist', [reg1, None], [name + '.all', None], None,
                  (reg2.name, anchor, axis, thread))
        bc.other = [(name, reg2)]
        # The name is looked up in the domain.
        ax = nm.array(axis)
        def ref(cons):
            inds, rows = [], []
            for reg, sign in ((reg1, -0.5), (reg2, 0.5)):
                for node in env.nodes(name, reg):
                    dd = env.coors(name, [node])[0] - anchor
                    mtx = nm.c_[nm.eye(3), spin(dd),
                                sign * (spin(dd) @ ax + thread * ax)]
                    rows.append(mtx)
                    inds += list(env.acts(name, [node], range(3)))
            cons.image(inds, nm.vstack(rows))
        return bc, ref, True
    return fun

def multi(name1, r1, name2, r2, axis, comps=None, coefs=(0.25, 0.75),
          given=True):
    """
    Nodes of r1 are combinations of two nodes of r2.
    """
    def fun(env):
        from sfepy.discrete import Function
        reg1, reg2 = env.plane(*r1), env.plane(*r2)
        cs = list(range(env.vars[name1].n_components)) if comps is None \
            else list(comps)
        def pairs(c1, c2):
            p1 = nm.delete(c1, axis, axis=1) @ [1.0, 2.5][:env.dim - 1]
            p2 = nm.delete(c2, axis, axis=1) @ [1.0, 2.5][:env.dim - 1]
            order = nm.argsort(p2)
            out = []
            for ii, pp in enumerate(p1):
                jj = int(nm.abs(p2[order] - pp).argmin())
                out.append((ii, order[jj], order[(jj + 1) % len(order)]))
            return out[::-1]
        def get(c1, c2):
            pp = nm.array(pairs(c1, c2))
            mid, sid = pp[:, 0], pp[:, 1:]
            if given: return mid, sid
            return mid, sid, nm.array([coefs] * len(mid)) * (
                1.0 + nm.arange(len(mid))[:, None])
        bc = lcbc('multi_node_combination', [reg1, reg2],
                  [dofs_str(name1, comps, env.dim),
                   dofs_str(name2, comps, env.dim)], Function('map', get),
                  (nm.array(coefs) if given else None,))
        def ref(cons):
            m1, m2 = env.nodes(name1, reg1), env.nodes(name2, reg2)
            pp = pairs(env.coors(name1, m1), env.coors(name2, m2))
            for ip, (ii, j1, j2) in enumerate(pp):
                sc = 1.0 if given else 1.0 + ip
                for ic in cs:
                    cons.add([env.act(name1, m1[ii], ic),
                              env.act(name2, m2[j1], ic),
                              env.act(name2, m2[j2], ic)],
                             [1.0, -sc * coefs[0], -sc * coefs[1]])
        return bc, ref, True
    return fun

def _mid(self, shift=1e-3):
    """
    A vertex inside or in the middle.
    """
    cc = self.domain.mesh.coors
    return cc[nm.linalg.norm(cc - 0.5 * (self.lo + self.hi) - shift,
                             axis=1).argmin()].copy()
Env.mid = _mid

def run_case(acc, env, specs, ebcs=(), epbcs=()):
    bcs, refs, full = [], [], True
    for spec in specs:
        bc, ref, ff = spec(env)
        bcs.append(bc)
        refs.append(ref)
        full = full and ff
    from copy import deepcopy
    mtx, rhs = env.setup(list(ebcs), list(epbcs), bcs)
    cons = Cons(env)
    for ref in refs: ref(cons)
    cons.judge(mtx, rhs, full=full)
    # The operators are the same in the next steps.
    mtx2, rhs2 = env.setup(list(ebcs), list(epbcs), bcs)
    require(mtx.shape == mtx2.shape and nm.abs(mtx - mtx2).max() < 1e-12
            and nm.abs(rhs - rhs2).max() < 1e-12,
            'another operator in the second setup')
    acc.states += 1
    acc.transitions += len(specs)
    # Expansion of solutions.
    vs = env.variables
    vec = nm.arange(mtx.shape[1]) * 0.5 + 1.0
    exp = mtx @ vec + rhs
    out = vs.make_full_vec(vec)
    for name, var in env.vars.items():
        uu = out[vs.di.indx[name]]
        eq = var.eq_map.eq
        ok = eq >= 0
        require(nm.allclose(uu[ok], exp[vs.adi.indx[name]][eq[ok]]),
                'expansion of %s', name)

L, R = (0, 0), (0, 1)
B, T = (1, 0), (1, 1)
NEAR, FAR = (2, 0), (2, 1)

def singles(dim):
    """
    Single conditions.
    """
    out = {}
    comps = [None, [0], [1], [1, 0]] if dim == 2 else \
        [None, [0], [2, 0], [2, 1, 0]]
    for reg in (L, R, T, (0, 0, True)):
        for cs in comps:
            out['rigid', reg, str(cs)] = rigid('u', reg, cs)
            out['mean', reg, str(cs)] = mean_value('u', reg, cs)
        if len(reg) == 2:
            out['nopen', reg] = no_penetration('u', reg)
            out['normal', reg] = direction('normal_direction', 'u', reg,
                                           reg[0])
    out['mean_p', T] = mean_value('p', T)
    for cs, order, shift in itertools.product(comps, ('id', 'rev'),
                                              (None, 'x')):
        out['shifted', str(cs), order, shift] = \
            tied('shifted_periodic', 'u', R, 'u', L, 0, order, cs, cs, shift)
        out['shifted_b', str(cs), order, shift] = \
            tied('shifted_periodic', 'u', B, 'u', T, 1, order, cs,
                 cs[::-1] if cs else None, shift)
    for order in ('id', 'rev'):
        out['match', order] = tied('match_dofs', 'u', T, 'v', T, None, order)
        out['match2', order] = tied('match_dofs', 'v', L, 'u', R, 0, order)
        out['match_p', order] = tied('match_dofs', 'p', T, 'u', T, None,
                                     order, None, [1])
        out['shifted_v', order] = tied('shifted_periodic', 'v', T, 'u', B, 1,
                                       order, None, None, 'x')
    for rot in (False, True):
        name = 'w' if rot else 'v'
        out['rigid2', rot] = rigid2('u', L, name, rot)
        for ww in ((None, '1', 'x') if not rot else ('1', 'x', 'r')):
            out['average', rot, ww] = average('u', L, name, rot, ww)
    out['rigid2', 'own'] = rigid2('u', L, 'u', False)
    for cs in comps:
        for given in (True, False):
            out['multi', str(cs), given] = multi('u', L, 'u', R, 0, cs,
                                                 given=given)
            out['multi_v', str(cs), given] = multi('v', T, 'v', B, 1, cs,
                                                   given=given)
    if dim == 3:
        for anchor, axis, thread in itertools.product(
                ([0.0, 0.0, 0.0], [1.0, 0.5, -1.0]),
                ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.6, 0.8]),
                (0.0, 0.25, -1.0)):
            out['twist', tuple(anchor), tuple(axis), thread] = \
                twist('u', L, R, anchor, axis, thread)
    else:
        for reg in (L, T):
            out['edge', reg] = direction('edge_direction', 'u', reg,
                                         1 - reg[0])
    return out

def menu(dim):
    """
    Conditions of disjoint regions to be combined.
    """
    return {
        'rigid' : (rigid('u', L), [('u', L)]),
        'mean' : (mean_value('u', L, [1]), [('u', L)]),
        'nopen' : (no_penetration('u', R), [('u', R)]),
        'normal' : (direction('normal_direction', 'u', R, 0), [('u', R)]),
        'nodal' : (nodal('u', R, [[1, 2] if dim == 2 else [1, 2, -1]], [3.0]),
                   [('u', R)]),
        'mean_p' : (mean_value('p', T), [('p', T)]),
        'vshift' : (tied('shifted_periodic', 'v', L, 'v', R, 0, 'rev',
                         shift='x'), [('v', L), ('v', R)]),
        'match' : (tied('match_dofs', 'v', L, 'u', R, 0, 'rev'),
                   [('v', L), ('u', R)]),
        'pair' : (tied('shifted_periodic', 'u', L, 'u', R, 0, 'id',
                       shift='x'), [('u', L), ('u', R)]),
        'rigid2' : (rigid2('v', L, 'w', True), [('v', L), ('w', 'mid')]),
        'average' : (average('v', L, 'w', True, 'x'),
                     [('v', L), ('w', 'mid')]),
        'multi' : (multi('v', L, 'v', R, 0), [('v', L), ('v', R)]),
        'p_of_u' : (tied('match_dofs', 'p', B, 'p', T, 1, 'id'),
                    [('p', B), ('p', T)]),
    }

LAYOUTS = (('u', 'v', 'p', 'w'), ('w', 'p', 'v', 'u'), ('p', 'u', 'w', 'v'))

def layout(names, dim):
    ncomp = dict(u=dim, v=dim, p=1, w=dim * (dim + 1) // 2)
    return [(nn, ncomp[nn]) for nn in names]

def fixed(env, kind):
    """
    Essential conditions away from the conditions.
    """
    from sfepy.discrete.conditions import EssentialBC
    if kind is None: return []
    reg = env.point(env.mid(-1e-3))
    return [EssentialBC('e', reg, {'u.0' : 2.0, 'p.0' : 1.0}, key='ebc_1')]

MESHES = {'quick' : (('quad4', 1), ('quad4', 2), ('hex2', 1)),
          'thorough' : (('quad4', 1), ('quad4', 2), ('tri4', 1), ('tri4', 2),
                        ('hex2', 1), ('hex2', 2), ('tet6', 1))}

def run_solve(acc, tier, mesh, order, part):
    """
    Solutions of linear problems with conditions.
    """
    from sfepy.base.base import IndexedStruct
    from sfepy.discrete import (Equation, Equations, FieldVariable, Integral,
                                Material, Problem)
    from sfepy.discrete.conditions import Conditions
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    from sfepy.terms import Term
    dim = 3 if mesh[:3] in ('hex', 'tet') else 2
    items = menu(dim)
    items['rigid2'] = (rigid2('v', L, 'u', False), [('v', L), ('u', 'mid')])
    items['average'] = (average('v', L, 'u', False, 'x'),
                        [('v', L), ('u', 'mid')])
    names1 = [(nn,) for nn in items]
    names2 = []
    for names in itertools.permutations(items, 2):
        used = [uu for nn in names for uu in items[nn][1]]
        if len(set(used)) == len(used): names2.append(names)
    for ik, names in enumerate(names1 + names2):
        if ik % 4 != part: continue
        lays = (ik % 3,) if tier == 'quick' else range(3)
        for ilay, eb in itertools.product(lays, (None, 'p')):
            if eb and ('rigid2' in names or 'average' in names): continue
            with acc.case(['solve', mesh, order, names, ilay, eb]):
                env = Env(mesh, order,
                          layout([nn for nn in LAYOUTS[ilay] if nn != 'w'],
                                 dim), 'm3')
                integral = Integral('i', order=2 * order)
                eqs, mats = [], {}
                for iv, (name, var) in enumerate(env.vars.items()):
                    tvar = FieldVariable('t' + name, 'test', var.field,
                                         primary_var_name=name)
                    nc = var.n_components
                    mat = Material('m' + name, val=nm.arange(
                        1.0, nc + 1.0)[:, None] + iv)
                    args = {'m' + name : mat, 't' + name : tvar, name : var}
                    terms = [Term.new('dw_dot(t%s, %s)' % (name, name),
                                      integral, env.omega, **args),
                             Term.new('dw_volume_lvf(m%s.val, t%s)'
                                      % (name, name),
                                      integral, env.omega, **args)]
                    lap = ('dw_laplace(t%s, %s)' if nc == 1 else
                           'dw_div_grad(t%s, %s)') % (name, name)
                    terms.append(Term.new(lap, integral, env.omega, **args))
                    eqs.append(Equation('e' + name,
                                        terms[0] - terms[1] + terms[2]))
                specs = [items[nn][0] for nn in names]
                out = []
                for use in (False, True):
                    pb = Problem('p', equations=Equations(eqs))
                    env.variables = pb.equations.variables
                    env.vars = {nn : env.variables[nn] for nn in env.vars}
                    bcs, refs = [], []
                    for spec in specs:
                        bc, ref, _ = spec(env)
                        bcs.append(bc)
                        refs.append(ref)
                    pb.set_bcs(ebcs=Conditions(fixed(env, eb)),
                               lcbcs=Conditions(bcs if use else []))
                    ls = ScipyDirect({})
                    status = IndexedStruct()
                    # A linear problem: two steps to check the convergence.
                    nls = Newton({'i_max' : 2, 'eps_a' : 1e-9,
                                  'eps_r' : 1.0}, lin_solver=ls,
                                 status=status)
                    pb.set_solver(nls)
                    if not use:
                        pb.time_update()
                        pb.init_solvers()
                        pb.update_materials()
                        vs = env.variables
                        vs.init_state()
                        vs.apply_ebc()
                        ev = pb.get_evaluator()
                        vec = vs()
                        res = ev.eval_residual(vec, is_full=True)
                        mtx = ev.eval_tangent_matrix(
                            vec, is_full=True).toarray()
                        cons = Cons(env)
                        for ref in refs: ref(cons)
                        # The reduced state of the initial vector.
                        x0 = vs.reduce_vec(vec)
                        rhs = mtx @ x0 - res
                        cc = nm.array(cons.rows).reshape((-1, cons.num))
                        xp = nm.linalg.lstsq(cc, nm.array(cons.rhs),
                                             rcond=None)[0]
                        nn = null_space(cc) if len(cc) else nm.eye(cons.num)
                        yy = nm.linalg.solve(nn.T @ mtx @ nn,
                                             nn.T @ (rhs - mtx @ xp))
                        out.append(xp + nn @ yy)
                    else:
                        pb.solve(save_results=False)
                        require(status['condition'] == 0,
                                'not converged: %s', status)
                        require(status['n_iter'] <= 1,
                                '%s iterations of a linear problem',
                                status['n_iter'])
                        vs = env.variables
                        out.append(vs.reduce_vec(vs()))
                err = nm.abs(out[0] - out[1]).max()
                require(err < 1e-8 * (1.0 + nm.abs(out[0]).max()),
                        'another solution, error %s', err)
                acc.outcome(('solve', names))
                acc.states += 1
                acc.transitions += len(names)

def run_single(acc, tier, mesh, order):
    nums = ('id', 'm3') if tier == 'quick' else ('id', 'rev', 'odd', 'm3')
    for num, ilay in itertools.product(nums, range(3)):
        dim = 3 if mesh[:3] in ('hex', 'tet') else 2
        env = Env(mesh, order, layout(LAYOUTS[ilay], dim), num)
        for key, spec in singles(dim).items():
            if key[0] == 'edge' and order > 1: continue
            if dim == 3 and key[1] == (0, 0, True): continue
            for eb in (None, 'p'):
                if eb and (key[0] in ('rigid2', 'average', 'twist')
                           or key[1] == (0, 0, True)): continue
                with acc.case(['single', mesh, order, num, ilay, key, eb]):
                    try:
                        ebcs = fixed(env, eb)
                        run_case(acc, env, [spec], ebcs)
                    finally:
                        pass
                    acc.outcome((key[0], dim, order))

def run_nodal(acc, tier, part):
    entries = (-1, 0, 1, 2)
    mats = []
    for dim in (2, 3):
        rows = [rr for rr in itertools.product(entries, repeat=dim)
                if any(rr)]
        mats += [(dim, [rr]) for rr in rows]
        if dim == 2:
            two = list(itertools.product(rows, repeat=2))
        elif tier == 'thorough':
            two = [pp for ii, pp in enumerate(itertools.product(rows,
                                                                repeat=2))
                   if ii % 7 == 0]
        else:
            two = [([1, 0, 0], [0, 1, 0]), ([0, 0, 1], [1, 0, 0]),
                   ([1, 1, 0], [0, 1, 1]), ([1, 2, -1], [0, 0, 1]),
                   ([0, 1, 0], [1, 0, -1]), ([0, 1, 2], [0, 1, -1])]
        mats += [(dim, [list(r1), list(r2)]) for r1, r2 in two
                 if nm.linalg.matrix_rank(nm.array([r1, r2])) == 2]
    envs = {}
    for ii, (dim, mtx) in enumerate(mats):
        if ii % 6 != part: continue
        if dim not in envs:
            envs[dim] = Env('quad4' if dim == 2 else 'hex2', 1,
                            layout(LAYOUTS[0], dim), 'm3')
        env = envs[dim]
        for rhs in ([0.0], [1.5]):
            rr = (rhs + [-2.0 * rhs[0]])[:len(mtx)]
            for call in (False, True):
                if call and (ii // 6) % 4: continue
                with acc.case(['nodal', mtx, rr, call]):
                    run_case(acc, env, [nodal('u', (1, 1, dim == 2), mtx, rr,
                                              call=call)])
                    acc.outcome(('nodal', len(mtx), dim))
        if len(mtx[0]) == 2 and dim == 2:
            for dim2, comps in ((2, [1, 0]), (3, [2, 0])):
                if dim2 not in envs:
                    envs[dim2] = Env('quad4' if dim2 == 2 else 'hex2', 1,
                                     layout(LAYOUTS[0], dim2), 'm3')
                with acc.case(['nodal', mtx, comps]):
                    run_case(acc, envs[dim2],
                             [nodal('u', (0, 1), mtx,
                                    [1.0, 2.0][:len(mtx)], comps)])

def run_combos(acc, tier, mesh, order, part):
    dim = 3 if mesh[:3] in ('hex', 'tet') else 2
    items = menu(dim)
    depth = 3 if tier == 'quick' else 4
    envs = {}
    ik = 0
    for num in range(2, depth + 1):
        for names in itertools.permutations(items, num):
            used = [uu for nn in names for uu in items[nn][1]]
            if len(set(used)) < len(used): continue
            ik += 1
            if ik % 4 != part: continue
            lays = (ik // 4 % 3,) if tier == 'quick' else range(3)
            for ilay in lays:
                if ilay not in envs:
                    envs[ilay] = Env(mesh, order, layout(LAYOUTS[ilay], dim),
                                     'm3')
                env = envs[ilay]
                with acc.case(['combo', mesh, order, names, ilay]):
                    run_case(acc, env, [items[nn][0] for nn in names])
                    acc.outcome(('combo', names))

def run_periodic(acc, tier, mesh, order):
    """
    Conditions with periodic nodes.
    """
    from sfepy.discrete import Function
    from sfepy.discrete.conditions import PeriodicBC
    dim = 3 if mesh[:3] in ('hex', 'tet') else 2
    comps = [None, [0], [1, 0]] if dim == 2 else [None, [1], [2, 0]]
    for num, ilay in itertools.product(('id', 'm3'), range(3)):
        env = Env(mesh, order, layout(LAYOUTS[ilay], dim), num)
        for flip, (sname, spec) in itertools.product(
                (False, True),
                [(('mean', reg, str(cs)), mean_value('u', reg, cs))
                 for reg in (T, L, R) for cs in comps] +
                [(('nopen', T), no_penetration('u', T)),
                 (('normal', T), direction('normal_direction', 'u', T, 1)),
                 (('nopen', R), no_penetration('u', R)),
                 (('rigid', T), rigid('u', T)),
                 (('rigid', L), rigid('u', L)),
                 (('rigid', R), rigid('u', R)),
                 (('nodal', T), nodal('u', T, [[1, 2, 3][:dim]], [1.0])),
                 (('nodal', R), nodal('u', R, [[2, 1, 3][:dim]], [1.0]))]):
            regs = [env.plane(*R), env.plane(*L)]
            if flip: regs = regs[::-1]
            with acc.case(['periodic', mesh, order, num, ilay, flip, sname]):
                ep = PeriodicBC('p', regs, {'u.all' : 'u.all'},
                                match_fun(env, 0, 'id'), key='epbc_1')
                # Rigid periodic motions have less DOFs.
                spec2 = spec
                if sname[0] == 'rigid':
                    spec2 = lambda env, ss=spec: ss(env)[:2] + (False,)
                run_case(acc, env, [spec2], [], [ep])
                acc.outcome(('periodic', sname[0]))

def groups(tier):
    out = []
    for mesh, order in MESHES[tier]:
        out.append(['single', tier, mesh, order])
        out.append(['periodic', tier, mesh, order])
        out += [['combos', tier, mesh, order, part] for part in range(4)]
        out += [['solve', tier, mesh, order, part] for part in range(4)]
    out += [['nodal', tier, part] for part in range(6)]
    return out

RUNS = {'solve' : run_solve, 'single' : run_single, 'nodal' : run_nodal, 'combos' : run_combos,
        'periodic' : run_periodic}

def run(group, acc):
    from sfepy.base.base import output
    output.set_output(quiet=True)
    RUNS[group[0]](acc, *group[1:])
