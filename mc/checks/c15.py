"""
C15: evaluation of fields in arbitrary points: point location, probes and
projections.
"""
import itertools

import numpy as nm

from mc import fe, meshes
from mc.core import require, Skip

PID = 'C15'
LEVEL = 'exploration'
RULE = ('a case = a mesh, field, region of the field, way of evaluation'
        ' (strategy, cache, mode, limit) and a kind of points, all the points'
        ' judged; or a sequence of operations with a probe; or a projection'
        ' of a function; distinct by these; non-trivial if there is a point,'
        ' resp. an operation')
ASSUMPTIONS = ['meshes of one to four distorted cells', 'the containing cells'
               ' of a point are found by an independent Newton iteration in'
               ' every cell']
BOUNDS = {
    'quick': 'segments, triangles, quadrilaterals, tetrahedra, hexahedra;'
             ' orders 1-2, points of a lattice in each cell, its facets,'
             ' edges and vertices, and outside of the mesh; sequences of two'
             ' operations with a probe',
    'thorough': 'finer lattices, orders 1-3, more cells, sequences of three'
                ' operations with a probe',
}
LIMIT = 900
PRELOAD = ('sfepy.discrete.fem', 'sfepy.discrete.probes',
           'sfepy.discrete.projections', 'scipy.spatial')

MESHES = {
    'quick': ('tri2', 'tri4', 'quad2', 'quad4', 'tet2', 'tet6', 'hex1',
              'hex2'),
    'thorough': ('tri2', 'tri4', 'fan3', 'quad1', 'quad2', 'quad3', 'quad4',
                 'tet1', 'tet2', 'tet6', 'hex1', 'hex2', 'hex4'),
}
SIMPLEX = ('1_2', '2_3', '3_4')

def distort(coors, amp=0.1):
    cc = coors.copy()
    for ii in range(len(cc)):
        for ic in range(cc.shape[1]):
            cc[ii, ic] += amp * nm.sin(1.7 * ii + 2.3 * ic + 0.4)
    return cc

class Ref:
    """
    Tiny mesh with its domain and an independent location of points.
    """
    def __init__(self, mname, amp=0.1, graded=False):
        from sfepy.discrete.fem import FEDomain, Mesh
        cc, conns, descs = meshes.data(mname)
        self.gname = descs[0]
        if graded:
            cc = cc.copy()
            cc[:, 0] = 3.0 * (1.0 - (1.0 - 0.5 * cc[:, 0])**3)
        self.coors = distort(cc, amp)
        self.conn = conns[0].copy()
        self.dim = cc.shape[1]
        if self.gname in ('2_3', '3_4'):
            for row in self.conn:
                xx = self.coors[row]
                if nm.linalg.det(xx[1:] - xx[0]) < 0:
                    row[[-2, -1]] = row[[-1, -2]]
        self.mesh = Mesh.from_data('m', self.coors.copy(), None,
                                   [self.conn.copy()],
                                   [nm.arange(len(self.conn),
                                              dtype=nm.int32) + 3], descs)
        self.domain = FEDomain('d', self.mesh)
        self.geo = fe.Basis(self.gname, fe.REF[self.gname], 1)

    def phys(self, ic, xi):
        return self.geo.val(xi) @ self.coors[self.conn[ic]]

    def jac(self, ic, xi):
        return nm.einsum('pjn,ni->pij', self.geo.grad(xi),
                         self.coors[self.conn[ic]])

    def locate(self, ic, points):
        """
        Reference coordinates of points in a cell, NaN if not found.
        """
        xi = nm.full((len(points), self.dim), 0.3)
        if self.gname not in SIMPLEX:
            xi[:] = 0.5
        with nm.errstate(all='ignore'):
            for it in range(60):
                res = points - self.phys(ic, xi)
                jac = self.jac(ic, xi)
                det = nm.abs(nm.linalg.det(jac)) < 1e-12
                jac[det] = nm.eye(self.dim)
                step = nm.linalg.solve(jac, res[..., None])[..., 0]
                xi += step
                xi = nm.clip(nm.nan_to_num(xi), -1e3, 1e3)
        bad = nm.abs(points - self.phys(ic, xi)).max(1) > 1e-9
        xi[bad] = nm.nan
        return xi

    def dist(self, xi):
        """
        The distance of reference coordinates from the reference element.
        """
        vio = nm.maximum(-xi, 0.0)
        if self.gname in SIMPLEX:
            vio = nm.c_[vio, nm.maximum(xi.sum(1) - 1.0, 0.0)]
        else:
            vio = nm.c_[vio, nm.maximum(xi - 1.0, 0.0)]
        return nm.linalg.norm(vio, axis=1)

def lattice(gname, num):
    """
    Points of the reference element including its vertices.
    """
    dim = int(gname[0])
    x1 = nm.linspace(0, 1, num + 1)
    out = nm.array(list(itertools.product(x1, repeat=dim)))
    if gname in SIMPLEX:
        out = out[out.sum(1) <= 1 + 1e-12]
    return out

def points_of(ref, cells, kind, tier):
    """
    All the points of a kind.
    """
    num = {'quick': {2: 5, 3: 4}, 'thorough': {2: 9, 3: 6}}[tier][ref.dim]
    lat = lattice(ref.gname, num)
    out = []
    if kind in ('inside', 'boundary'):
        if ref.gname in SIMPLEX:
            onb = (lat.min(1) < 1e-12) | (lat.sum(1) > 1 - 1e-12)
        else:
            onb = (lat.min(1) < 1e-12) | (lat.max(1) > 1 - 1e-12)
        lat = lat[onb == (kind == 'boundary')]
        cen = fe.REF[ref.gname].mean(0)[None]
        if kind == 'inside':
            lat = nm.r_[lat, cen]
        for ic in cells:
            out.append(ref.phys(ic, lat))
            if kind == 'inside':
                # The centroid of vertices.
                out.append(ref.coors[ref.conn[ic]].mean(0)[None])
            else:
                out.append(ref.coors[ref.conn[ic]])
        return nm.concatenate(out)
    # Points around: a box lattice without the points inside.
    verts = ref.coors[nm.unique(ref.conn[list(cells)])]
    lo, hi = verts.min(0), verts.max(0)
    n1 = {'quick': {2: 12, 3: 6}, 'thorough': {2: 24, 3: 10}}[tier][ref.dim]
    if kind == 'around':
        pad = 0.08
    else:
        pad = 1.5
    axes = [nm.linspace(a - pad, b + pad, n1) for a, b in zip(lo, hi)]
    return nm.array(list(itertools.product(*axes)))

##
# Point location and interpolation.

def make_field(ref, region, nc, order, space='H1',
               name='f'):
    from sfepy.discrete.fem import Field
    shape = {1: 'scalar', ref.dim: 'vector'}.get(nc, (nc,))
    return Field.from_args(name, nm.float64, shape, region,
                           approx_order=order, space=space)

def dofs_of(field, nc, k=0):
    nn = field.n_nod * nc
    ii = nm.arange(nn)
    return (nm.sin(1.3 * ii + 0.7 * k) + 0.3 * ii / nn).reshape((-1, nc))

class Bubble:
    def __init__(self, ps):
        self.ps = ps

    def val(self, xi):
        return self.ps.eval_basis(nm.ascontiguousarray(xi),
                                  suppress_errors=True)[:, 0]

    def grad(self, xi):
        return self.ps.eval_basis(nm.ascontiguousarray(xi), diff=True,
                                  suppress_errors=True)

def ref_values(ref, field, cells, dofs, xi, cc, mode):
    """
    The values of a field given by its DOFs in a cell.
    """
    econn = field.get_econn('cell', field.region)
    iel = list(cells).index(cc)
    if field.force_bubble:
        bb = Bubble(field.poly_space)
    elif field.approx_order == 0 and econn.shape[1] == 1:
        bb = fe.Basis(ref.gname, nm.array([[0.3] * ref.dim]), 0)
    else:
        bb = fe.Basis(ref.gname, field.poly_space.node_coors,
                      field.approx_order)
    val = bb.val(xi) @ dofs[econn[iel]]
    if mode == 'val':
        return val[..., None]
    jinv = nm.linalg.inv(ref.jac(cc, xi))
    grad = nm.einsum('pjn,pji,nc->pci', bb.grad(xi), jinv, dofs[econn[iel]])
    if mode == 'grad':
        return grad
    if mode == 'div':
        return nm.trace(grad, axis1=1, axis2=2).reshape((-1, 1, 1))
    return nm.stack([grad[:, i, j] + (grad[:, j, i] if i != j else 0)
                     for i, j in fe.VOIGT[ref.dim]], axis=1)[..., None]

def judge(ref, field, cells, dofs, points, kind, out, limit, mode, located,
          sub):
    vals, rc, rcells, status = out
    require(vals.shape[0] == len(points), 'number of values %s', vals.shape)
    n_in = n_out = 0
    for ip, pp in enumerate(points):
        xis = {ic: located[ic][ip] for ic in cells}
        dd = {ic: ref.dist(xi[None])[0] for ic, xi in xis.items()
              if nm.isfinite(xi).all()}
        inside = [ic for ic, d in dd.items() if d < 1e-7]
        clear_out = all(d > 1e-6 for d in dd.values())
        st = int(status[ip])
        require(0 <= st <= 5, 'point %s: status %d', pp, st)
        if st > 0 and limit == 0:
            require(st >= 3, 'point %s: status %d without extrapolation',
                    pp, st)
        if [ic for ic, d in dd.items() if d == 0.0 or d < 1e-9]:
            require(st == 0, 'point %s is in cells %s, but status %d', pp,
                    inside, st)
            n_in += 1
        if st == 0:
            require(not clear_out, 'point %s is outside, but status 0', pp)
        if st == 1:
            require(clear_out or not inside or 1,
                    'point %s extrapolated', pp)
        if st in (0, 1):
            # The reported cell is an index in the field's region cells.
            # The reference coordinates must belong to the point.
            cand = list(cells)
            ok = False
            for ic in cand:
                xx = ref.phys(ic, rc[ip][None])[0]
                if nm.abs(xx - pp).max() < 1e-6:
                    dist = ref.dist(rc[ip][None])[0]
                    if st == 0 and dist > 1e-6: continue
                    if st == 1 and dist > limit * (1 + 1e-6): continue
                    val = ref_values(ref, field, cells, dofs, rc[ip][None],
                                     ic, mode)[0]
                    if nm.allclose(val, vals[ip], rtol=1e-6, atol=1e-6):
                        ok = True
                        break
            require(ok, 'point %s (status %d, in cells %s): the value %s with'
                    ' reference coordinates %s of cell %s is not that of the'
                    ' function in any cell', pp, st, inside,
                    vals[ip].ravel().tolist(), rc[ip].tolist(), rcells[ip])
            if not sub:
                xx = ref.phys(int(rcells[ip]), rc[ip][None])[0]
                require(nm.abs(xx - pp).max() < 1e-6, 'point %s: reported cell'
                        ' %d does not map %s to it', pp, rcells[ip], rc[ip])
        if st == 2:
            require(not dd or min(dd.values()) > 0.0, 'status 2 inside')
        if st in (1, 2, 3, 5):
            n_out += 1
        if st == 4:
            require(clear_out, 'Newton failure in a point of cells %s', inside)
    return n_in, n_out

def run_locate(group, acc):
    _, mname, tier = group
    ref = Ref(mname)
    ncell = len(ref.conn)
    regs = [('all', list(range(ncell)))]
    if ncell > 1:
        subs = [[ncell - 1], list(range(1, ncell))]
        if ncell > 2:
            subs.append([0, ncell - 1])
        for ii, ss in enumerate(subs):
            if ss not in [rr[1] for rr in regs]:
                regs.append(('s%d' % ii, ss))
    orders = (1, 2) if tier == 'quick' else (0, 1, '1B', 2, 3)
    if mname == 'tri4':
        orders = (0, 1, '1B', 2)
    loc = {}
    for rname, cells in regs:
        region = ref.domain.create_region(
            'R' + rname, 'all' if rname == 'all' else
            'cell ' + ', '.join(map(str, cells)), 'cell')
        for order in orders:
            if order == 3 and ref.dim == 3 and ref.gname == '3_8': continue
            if order == '1B' and ref.gname not in SIMPLEX: continue
            for nc in (1, ref.dim):
                field = make_field(ref, region, nc, order,
                                   name='f%s%s%d' % (rname, order, nc))
                dofs = dofs_of(field, nc, 1)
                modes = ['val', 'grad'] if nc == 1 else \
                    ['val', 'grad', 'div', 'cauchy_strain']
                if tier == 'quick' and nc > 1 and order == 1:
                    modes = ['div', 'cauchy_strain']
                with acc.case('mesh %s %s o%s nc%d' % (mname, rname, order,
                                                       nc)):
                    mesh = field.create_mesh(extra_nodes=False)
                    conn = mesh.get_conn(mesh.descs[0])
                    require(nm.array_equal(mesh.coors[conn],
                                           ref.coors[ref.conn[cells]]),
                            'cells of the mesh of the field')
                    require(list(mesh.cmesh.cell_groups)
                            == [ic + 3 for ic in cells], 'groups of cells %s'
                            ' of the mesh of the field in cells %s',
                            list(mesh.cmesh.cell_groups), cells)
                    from sfepy.discrete import FieldVariable
                    from sfepy.discrete.fem import Mesh
                    from sfepy.discrete.fem.meshio import MeshIO
                    var = FieldVariable('a', 'parameter', field,
                                        primary_var_name='(set-to-None)')
                    var.set_data(dofs.ravel())
                    var.save_as_mesh('field.vtk')
                    out = MeshIO.any_from_filename('field.vtk')
                    msh2 = Mesh.from_file('field.vtk')
                    data = nm.asarray(out.read_data(0)['a'].data)
                    if order == 0:
                        exp = dofs
                    else:
                        exp = nm.zeros((len(mesh.coors), nc))
                        econn = field.get_econn('cell', field.region)
                        nv = conn.shape[1]
                        exp[conn] = dofs[econn[:, :nv]]
                    dd = data.reshape((len(exp), -1))[:, :nc]
                    require(nm.allclose(dd, exp, rtol=1e-6, atol=1e-8),
                            'saved values of the variable')
                    require(nm.allclose(msh2.coors[:, :ref.dim],
                                        mesh.coors), 'saved coordinates')
                for kind in ('inside', 'boundary', 'around', 'far'):
                    key = (rname, kind)
                    if key not in loc:
                        pts = points_of(ref, cells, kind, tier)
                        loc[key] = (pts, {ic: ref.locate(ic, pts)
                                          for ic in cells})
                    pts, located = loc[key]
                    for mode, strategy, cached in itertools.product(
                            modes, ('general', 'convex'), (0, 1)):
                        if strategy == 'convex' and rname != 'all': continue
                        if strategy == 'convex' and mname == 'fan3': continue
                        if mode in ('div', 'grad') and cached: continue
                        for limit in (0.1, 0.0, 0.5):
                            if limit == 0.5 and (mode != 'val'): continue
                            ident = 'locate %s %s o%s nc%d %s %s %s %s c%s' \
                                % (mname, rname, order, nc, kind, mode,
                                   strategy, limit, cached)
                            with acc.case(ident):
                                _case(ref, field, cells, dofs, pts, kind, mode,
                                      strategy, cached, limit, located, acc,
                                      rname != 'all')

def _case(ref, field, cells, dofs, pts, kind, mode, strategy, cached, limit,
          located, acc, sub):
    cache = field.get_evaluate_cache() if cached else None
    kw = dict(mode=mode, strategy=strategy, close_limit=limit)
    vec = dofs.copy()
    out = field.evaluate_at(pts.copy(), vec, cache=cache, ret_ref_coors=True,
                            ret_status=True, ret_cells=True, **kw)
    require((vec == dofs).all(), 'the DOFs were changed')
    nin, nout = judge(ref, field, cells, dofs, pts, kind, out, limit, mode,
                      located, sub)
    acc.count('points', len(pts))
    acc.outcome((kind, limit, nin > 0, nout > 0))
    # Without the status: NaN where not evaluated.
    vals = field.evaluate_at(pts.copy(), vec, cache=cache, **kw)
    st = out[3]
    require(nm.isnan(vals[st > 1]).all() and nm.isfinite(vals[st <= 1]).all(),
            'NaN at wrong points')
    require(nm.array_equal(vals[st <= 1], out[0][st <= 1]),
            'values depend on ret_status')
    # Reversed order and complex values.
    if mode == 'val':
        out2 = field.evaluate_at(pts[::-1].copy(), dofs * (2.0 - 1j),
                                 cache=cache, ret_ref_coors=True,
                                 ret_status=True, **kw)
        if strategy == 'general' or 1:
            require(nm.array_equal(out2[3][::-1], st),
                    'status depends on the order of points')
        ok = st <= 1
        require(nm.allclose(out2[0][::-1][ok], (2 - 1j) * out[0][ok],
                            rtol=1e-8, atol=1e-8), 'complex values')

##
# Probes.

def edges_of(ref, ic):
    cc = ref.coors[ref.conn[ic]]
    vv = fe.REF[ref.gname]
    out = 0.0
    for i, j in itertools.combinations(range(len(cc)), 2):
        if ref.gname in SIMPLEX or nm.abs(vv[i] - vv[j]).sum() == 1:
            out = max(out, nm.linalg.norm(cc[i] - cc[j]))
    return out

class Vars:
    def __init__(self, ref):
        from sfepy.discrete import FieldVariable
        self.ref = ref
        ncell = len(ref.conn)
        omega = ref.domain.create_region('Omega', 'all')
        part = ref.domain.create_region(
            'Part', 'cell ' + ', '.join(map(str, range(1, ncell))), 'cell')
        self.cells = {'u': list(range(ncell)), 'v': list(range(ncell)),
                      'w': list(range(1, ncell))}
        self.fields = {
            'u': make_field(ref, omega, 1, 1, name='fu'),
            'v': make_field(ref, omega, ref.dim, 2, name='fv'),
            'w': make_field(ref, part, 1, 2, name='fw')}
        self.vars = {}
        for kk, name in enumerate('uvw'):
            field = self.fields[name]
            var = FieldVariable(name, 'parameter', field,
                                primary_var_name='(set-to-None)')
            nc = field.n_components
            var.set_data(dofs_of(field, nc, kk).ravel())
            self.vars[name] = var

    def redo(self, kk):
        for ii, name in enumerate('uvw'):
            field = self.fields[name]
            self.vars[name].set_data(
                dofs_of(field, field.n_components, ii + 5 * kk).ravel())

def make_probe(ref, kind, share):
    from sfepy.discrete.probes import (LineProbe, RayProbe, PointsProbe,
                                       CircleProbe)
    dim = ref.dim
    lo, hi = ref.coors.min(0), ref.coors.max(0)
    cen = 0.5 * (lo + hi)
    size = (hi - lo).min()
    dirs = nm.array([1.0, 0.4, 0.3][:dim])
    kind, num = kind.split(':')[0], int(kind.split(':')[1])
    kw = {'share_geometry': bool(share)}
    if kind == 'line':
        return LineProbe(lo + 0.2 * (hi - lo), hi - 0.15 * (hi - lo), num, **kw)
    if kind == 'out':
        return LineProbe(cen, hi + 0.4 * (hi - lo), num, **kw)
    if kind == 'pts':
        xi = fe.REF[ref.gname].mean(0)
        pts = [ref.phys(ic, 0.8 * xi[None])[0] for ic in range(len(ref.conn))]
        return PointsProbe(nm.array(pts + [hi + 3.0]), **kw)
    if kind == 'ray':
        def p_fun(ii):
            return 0.05 * size * (ii + 1)**1.5
        return RayProbe(cen, dirs, p_fun, num, kw and num % 2 == 0, **kw)
    normals = {'circ': [0, 0, 1.0], 'circm': [0, 0, -2.0],
               'circx': [1.0, 0.5, 0.7], 'circt': [0.03, -0.04, 1.0]}
    return CircleProbe(cen, normals[kind][:3] if dim == 3 else [0, 0, 1.0],
                       0.35 * size, num, **kw)

def p_geometry(ref, probe, kind, pars, points):
    """
    The points of the probe are where they should be.
    """
    dim = ref.dim
    lo, hi = ref.coors.min(0), ref.coors.max(0)
    cen = 0.5 * (lo + hi)
    size = (hi - lo).min()
    kk = kind.split(':')[0]
    require(points.shape == (len(pars), dim), 'points %s, pars %s',
            points.shape, pars.shape)
    if kk == 'pts': return
    require((nm.diff(pars) > 0).all(), 'parameters not increasing')
    if kk in ('line', 'out'):
        p0, p1 = (lo + 0.2 * (hi - lo), hi - 0.15 * (hi - lo)) \
            if kk == 'line' else (cen, hi + 0.4 * (hi - lo))
        length = nm.linalg.norm(p1 - p0)
        require(nm.allclose(points, p0 + (p1 - p0) * pars[:, None] / length),
                'points not on the line')
        require(nm.allclose(points[[0, -1]], [p0, p1]), 'line end points')
    elif kk == 'ray':
        dirs = nm.array([1.0, 0.4, 0.3][:dim])
        dirs /= nm.linalg.norm(dirs)
        require(nm.allclose(points, cen + pars[:, None] * dirs), 'ray points')
    else:
        rad = points - cen
        require(nm.allclose(nm.linalg.norm(rad, axis=1), 0.35 * size),
                'not on the circle')
        normals = {'circ': [0, 0, 1.0], 'circm': [0, 0, -2.0],
                   'circx': [1.0, 0.5, 0.7], 'circt': [0.03, -0.04, 1.0]}
        nn = nm.array(normals[kk]) / nm.linalg.norm(normals[kk])
        if dim == 3:
            require(nm.abs(rad @ nn).max() < 1e-10 * size, 'the circle is not'
                    ' perpendicular to its normal (%.3e)',
                    nm.abs(rad @ nn).max())
        else:
            rad = nm.c_[rad, nm.zeros(len(rad))]
        # Angles of neighbours.
        ang = nm.diff(pars)
        co = (rad[1:] * rad[:-1]).sum(1) / (0.35 * size)**2
        require(nm.allclose(co, nm.cos(ang)), 'angles of the circle points')

def p_check(vs, probe, kind, state, vname, mode):
    """
    Probe and compare with the direct evaluation.
    """
    ref = vs.ref
    var = vs.vars[vname]
    pars, points, vals = probe(var, mode=mode, ret_points=True)
    p_geometry(ref, probe, kind, pars, points)
    exp, cells, status = var.evaluate_at(
        points.copy(), mode=mode, close_limit=state['limit'],
        ret_status=True)
    # The values with status > 1 are not defined.
    ok = status <= 1
    require(nm.allclose(vals[ok], exp[ok], rtol=1e-10, atol=1e-10),
            'probed %s of %s differ from the values in the points: %s instead'
            ' of %s', mode, vname, vals[ok].ravel()[:6].tolist(),
            exp[ok].ravel()[:6].tolist())
    kk = kind.split(':')[0]
    if kk in ('pts', 'ray'): return len(points)
    npt = state['n']
    if npt > 0:
        require(len(points) == max(npt, 2), '%d points instead of %d',
                len(points), npt)
        return len(points)
    require(len(points) >= max(-npt, 2), 'too few points')
    if state['hint'] is not None:
        dd = nm.full(len(points), state['hint'])
    else:
        dd = nm.array([edges_of(ref, vs.cells[vname][ic]) for ic in cells])
    dist = nm.linalg.norm(nm.diff(points, axis=0), axis=1)
    pd = 0.5 * (dd[1:] + dd[:-1])
    require((dist <= pd * (1 + 1e-9)).all(), 'points of an adaptive probe'
            ' too far from each other: %s > %s', dist.tolist(), pd.tolist())
    if kk.startswith('circ'):
        require(nm.linalg.norm(points[-1] - points[0])
                <= 0.5 * (dd[-1] + dd[0]) * (1 + 1e-9), 'adaptive circle: the'
                ' last point is too far from the first one')
    return len(points)

P_OPS = [('probe', 'u', 'val'), ('probe', 'v', 'grad'), ('probe', 'w', 'val'),
         ('limit', 0.5), ('limit', 0.0), ('n', 5), ('n', -3), ('hint', 0.21),
         ('dofs', 1)]

def run_probe(group, acc):
    from sfepy.discrete.probes import Probe, write_results, read_results
    from sfepy.base.base import Struct
    _, mname, kinds, tier = group
    ref = Ref(mname, 0.03, True)
    depth = 2 if tier == 'quick' else 3
    seqs = []
    for nn in range(depth):
        for head in itertools.product(P_OPS, repeat=nn):
            for last in P_OPS[:3]:
                seqs.append(head + (last,))
    vs = Vars(ref)
    for kind, share in itertools.product(kinds.split(','), (0, 1)):
        if ref.dim == 2 and kind.split(':')[0] in ('circm', 'circx', 'circt'):
            continue
        for seq in seqs:
            names = [op[1] for op in seq if op[0] == 'probe']
            if share and ('w' in names): continue
            ident = 'probe %s %s share%d %s' % (mname, kind, share,
                                                ' '.join(map(str, seq)))
            with acc.case(ident):
                Probe.cache = Struct(name='probe_shared_evaluate_cache')
                vs.redo(0)
                probe = make_probe(ref, kind, share)
                state = {'limit': 0.1, 'n': int(kind.split(':')[1]),
                         'hint': None}
                npt = 0
                for op in seq:
                    acc.transitions += 1
                    if op[0] == 'probe':
                        npt = p_check(vs, probe, kind, state, *op[1:])
                    elif op[0] == 'limit':
                        probe.set_options(close_limit=op[1])
                        state['limit'] = op[1]
                    elif op[0] == 'hint':
                        probe.set_options(size_hint=op[1])
                        state['hint'] = op[1]
                    elif op[0] == 'n':
                        if kind.split(':')[0] in ('pts', 'ray'): raise Skip
                        probe.set_n_point(op[1])
                        state['n'] = op[1]
                    elif op[0] == 'dofs':
                        vs.redo(op[1])
                acc.outcome((kind.split(':')[0], npt))

        # Results in a file.
        ident = 'probe %s %s share%d results' % (mname, kind, share)
        with acc.case(ident):
            Probe.cache = Struct(name='probe_shared_evaluate_cache')
            vs.redo(0)
            probe = make_probe(ref, kind, share)
            res = {'u': probe(vs.vars['u']),
                   'v': probe(vs.vars['v']),
                   'gv': probe(vs.vars['v'], mode='grad')}
            res = {key: (pp, nm.nan_to_num(vv)) for key, (pp, vv)
                   in res.items()}
            write_results('probe.txt', probe, res)
            header, out = read_results('probe.txt')
            require(header.probe_class == type(probe).__name__, 'class')
            require(header.n_point == probe.n_point, 'n_point')
            require(sorted(out) == sorted(res), 'names %s', sorted(out))
            for key, (pars, vals) in res.items():
                exp = nm.c_[pars, vals.reshape((len(pars), -1))]
                require(nm.array_equal(exp, out[key]), 'results of %s', key)
            header, out = read_results('probe.txt', only_names=['v'])
            require(list(out) == ['v'], 'only_names')

##
# Projections.

def poly(coors, deg, kk=0):
    out = nm.zeros(len(coors))
    dim = coors.shape[1]
    for ii, idx in enumerate(itertools.product(range(deg + 1), repeat=dim)):
        if sum(idx) > deg: continue
        out += nm.cos(1.1 * ii + kk) * nm.prod(coors**nm.array(idx), axis=1)
    return out

def gpoly(coors, deg, kk=0):
    eps = 1e-6
    out = []
    for ic in range(coors.shape[1]):
        cp, cm = coors.copy(), coors.copy()
        cp[:, ic] += eps
        cm[:, ic] -= eps
        out.append((poly(cp, deg, kk) - poly(cm, deg, kk)) / (2 * eps))
    return nm.array(out).T

def run_project(group, acc):
    from sfepy.discrete import FieldVariable, Integral
    from sfepy.discrete.projections import (
        create_mass_matrix, make_l2_projection, make_l2_projection_data,
        make_h1_projection_data, project_by_component, project_to_facets)
    _, mname, tier = group
    simplex = meshes.data(mname)[2][0] in SIMPLEX
    ref = Ref(mname, 0.1 if simplex else 0.0)
    refd = Ref(mname)
    ncell = len(ref.conn)

    def _var(name, field):
        return FieldVariable(name, 'parameter', field,
                             primary_var_name='(set-to-None)')

    orders = (1, 2) if tier == 'quick' else (1, 2, 3)
    regs = [('all', list(range(ncell)))]
    if ncell > 1:
        regs += [('p0', [0]), ('p1', list(range(1, ncell)))]
    for rname, cells in regs:
        for order in orders:
            if order == 3 and ref.gname == '3_8': continue
            for rr, dist in ((ref, 0), (refd, 1)):
                sel = 'all' if rname == 'all' else \
                    'cell ' + ', '.join(map(str, cells))
                region = rr.domain.create_region('P%s%d' % (rname, order), sel)
                field = make_field(rr, region, 1, order,
                                   name='t%s%d%d' % (rname, order, dist))
                ident = 'project %s %s o%d d%d ' % (mname, rname, order, dist)
                _project(ident, acc, rr, region, field, order, dist, simplex,
                         cells, _var, tier)

def _project(ident, acc, ref, region, field, order, dist, simplex, cells, _var,
             tier):
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.projections import (
        create_mass_matrix, make_l2_projection, make_l2_projection_data,
        make_h1_projection_data, project_by_component, project_to_facets)
    with acc.case(ident + 'mass'):
        mtx = create_mass_matrix(field).toarray()
        require(nm.allclose(mtx, mtx.T), 'mass matrix not symmetric')
    # A function of the same space: the projection is the identity.
    dofs = dofs_of(field, 1).ravel()
    with acc.case(ident + 'identity'):
        src, tgt = _var('s', field), _var('t', field)
        src.set_data(dofs.copy())
        make_l2_projection(tgt, src)
        require(nm.allclose(tgt(), dofs, rtol=1e-6, atol=1e-6), 'projection of'
                ' a function of the space changes it: %s',
                nm.abs(tgt() - dofs).max())
        require(nm.array_equal(src(), dofs), 'the source was changed')
    deg_max = order if (simplex or not dist) else 1
    coors = field.get_coor()
    for deg in range(deg_max + 1):
        exact = poly(coors, deg)

        with acc.case(ident + 'l2 p%d' % deg):
            tgt = _var('t', field)
            make_l2_projection_data(
                tgt, lambda ts, cc, mode, **kw:
                poly(cc, deg).reshape((-1, 1, 1)))
            require(nm.allclose(tgt(), exact, rtol=1e-8, atol=1e-8), 'values')

        with acc.case(ident + 'l2 order p%d' % deg):
            tgt = _var('t', field)
            make_l2_projection_data(
                tgt, lambda ts, cc, mode, **kw:
                poly(cc, deg).reshape((-1, 1, 1)), order=2 * order + 2)
            require(nm.allclose(tgt(), exact, rtol=1e-8, atol=1e-8), 'values')

        with acc.case(ident + 'l2 array p%d' % deg):
            from sfepy.discrete import Integral
            from sfepy.discrete.common.mappings import get_physical_qps
            qps = get_physical_qps(region, Integral('i', order=2 * order))
            tgt = _var('t', field)
            make_l2_projection_data(tgt, poly(qps.values, deg),
                                    order=2 * order)
            require(nm.allclose(tgt(), exact, rtol=1e-8, atol=1e-8), 'values')

            vfield = make_field(ref, region, ref.dim, order, name='vf')
            vtgt, comp = _var('vt', vfield), _var('c', field)
            n_el, n_qp = len(cells), len(qps.values) // len(cells)
            data = nm.stack([poly(qps.values, deg, kk)
                             for kk in range(ref.dim)], axis=1)
            project_by_component(vtgt, data.reshape((n_el, n_qp, ref.dim, 1)),
                                 comp, 2 * order)
            exp = nm.stack([poly(coors, deg, kk)
                            for kk in range(ref.dim)], axis=1)
            require(nm.allclose(vtgt().reshape(exp.shape), exp, rtol=1e-8,
                                atol=1e-8), 'project_by_component')

        with acc.case(ident + 'h1 p%d' % deg):
            tgt = FieldVariable('t', 'unknown', field)

            def fun(ts, cc, mode, kind, **kw):
                if kind == 'val':
                    return poly(cc, deg).reshape((-1, 1, 1))
                return nm.ascontiguousarray(
                    gpoly(cc, deg).reshape((-1, ref.dim, 1)))
            make_h1_projection_data(tgt, fun)
            require(nm.allclose(tgt(), exact, rtol=1e-6, atol=1e-6),
                    'H1 projection')

        # Between meshes.
        with acc.case(ident + 'set p%d' % deg):
            src = _var('s', field)
            src.set_data(exact.copy())
            for o2 in (1, 2):
                f2 = make_field(ref, region, 1, o2, name='o%d' % o2)
                tgt = _var('t', f2)
                tgt.set_from_other(src, strategy='interpolation')
                require(nm.allclose(tgt(), poly(f2.get_coor(), deg),
                                    rtol=1e-7, atol=1e-7), 'set_from_other')
            require(nm.array_equal(src(), exact), 'source changed')

        # Facets.
        bnd = ref.domain.create_region('B%d' % deg,
                                       'vertices of surface', 'facet') \
            if len(cells) == len(ref.conn) else None
        if bnd is None: continue
        for nc in (1, ref.dim):
            with acc.case(ident + 'facets p%d nc%d' % (deg, nc)):
                ff = make_field(ref, region, nc, order, name='ff%d' % nc)
                vals = project_to_facets(
                    bnd, lambda cc: nm.stack([poly(cc, deg, kk)
                                              for kk in range(nc)], axis=1),
                    nc, ff)
                nods = nm.unique(ff.get_dofs_in_region(bnd))
                exp = nm.stack([poly(ff.get_coor(nods), deg, kk)
                                for kk in range(nc)], axis=1)
                require(nm.allclose(vals, exp, rtol=1e-8, atol=1e-8),
                        'values on facets')

P_KINDS = ('line:6', 'line:-2', 'out:7', 'out:-4,pts:1', 'ray:4,ray:5',
           'circ:6,circm:5', 'circx:7', 'circt:6', 'circ:-3', 'circx:-4')

def groups(tier):
    out = [['locate', name, tier] for name in MESHES[tier]]
    for name in ('tri4', 'hex2') if tier == 'quick' else \
            ('tri4', 'quad3', 'tet2', 'hex2'):
        for kinds in P_KINDS:
            if name[:2] in ('tr', 'qu') and kinds[:5] in ('circx', 'circt'):
                continue
            out.append(['probe', name, kinds, tier])
    for name in ('tri4', 'quad2', 'tet2', 'hex2') if tier == 'quick' else \
            MESHES[tier]:
        out.append(['project', name, tier])
    return out

def run(group, acc):
    globals()['run_' + group[0]](group, acc)
