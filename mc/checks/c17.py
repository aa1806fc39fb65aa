"""
C17: refinement of meshes, uniform and with hanging nodes.
"""
import itertools

import numpy as nm

from mc import meshes
from mc.core import require

PID = 'C17'
LEVEL = 'exploration'
RULE = ('a case = a mesh with given orders of vertices in its cells, a number'
        ' of uniform refinements, or a set of cells to refine (in several'
        ' levels) and an approximation order; distinct by these; non-trivial'
        ' if some cells are refined')
ASSUMPTIONS = ['the cells are affine, so that polynomials stay polynomials',
               'cells next to an interface with hanging nodes are not refined'
               ' again, as the levels would differ by more than one']
BOUNDS = {
    'quick': 'all subsets of cells of grids of 2x2, 3x2, 2x1x1, 2x2x1 and'
             ' 2x2x2 cells, all orientations of a cell, orders 1-3 (2 in 3D),'
             ' two levels; uniform: up to two levels',
    'thorough': 'also 3x3 and 3x2x1 cells, orders up to 4 (3 in 3D), pairs of'
                ' rotated cells, three levels',
}
LIMIT = 850

MTX = {1: nm.array([[2.0]]), 2: nm.array([[2.0, 0.5], [0.25, 1.5]]),
       3: nm.array([[2.0, 0.5, 0.25], [0.25, 1.5, 0.5], [0.0, 0.25, 1.0]])}
SHIFT = nm.array([0.5, -1.0, 0.25])

def perms_of(gname):
    """
    The orders of vertices of a reference element with the same orientation.
    """
    coors = {'1_2': [[0], [1]], '2_3': [[0, 0], [1, 0], [0, 1]],
             '2_4': [[0, 0], [1, 0], [1, 1], [0, 1]],
             '3_4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
             '3_8': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                     [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}[gname]
    coors = nm.array(coors, dtype=float)
    nv, dim = coors.shape
    base = nm.c_[coors, nm.ones(nv)]
    out = []
    cand = (itertools.permutations(range(nv)) if nv < 8 else
            ((i0, i1, i2, i3) for i0, i1, i2, i3
             in itertools.permutations(range(8), 4)))
    for perm in cand:
        if nv == 8:
            # An affine map given by the images of 0, 1, 3, 4.
            pp = coors[list(perm)]
            mtx = (pp[1:] - pp[0]).T
            if abs(nm.linalg.det(mtx) - 1.0) > 1e-8: continue
            img = pp[0] + coors @ mtx.T
            ix = [nm.where((coors == vv).all(1))[0] for vv in img]
            if any(len(ii) != 1 for ii in ix): continue
            # perm is of vertices 0, 1, 3, 4.
            out.append(tuple(int(ii[0]) for ii in ix))
            continue
        img = coors[list(perm)]
        sol, res = nm.linalg.lstsq(base, img, rcond=None)[:2]
        if nm.abs(base @ sol - img).max() > 1e-8: continue
        if nm.linalg.det(sol[:dim]) < 0: continue
        out.append(tuple(perm))
    return sorted(set(out))

def make_mesh(name, shape, perm_cells=(), groups=None, affine=True):
    """
    A mesh given by its name or by numbers of cells of a grid.
    """
    from sfepy.discrete.fem import Mesh
    if shape is not None:
        coors, conn = meshes._grid_conn(tuple(ii + 1 for ii in shape))
        desc = {1: '1_2', 2: '2_4', 3: '3_8'}[len(shape)]
    else:
        coors, conns, descs = meshes.data(name)
        conn, desc = conns[0], descs[0]
    conn = nm.array(conn, dtype=nm.int32).copy()
    for ic, perm in perm_cells:
        conn[ic] = conn[ic][list(perm)]
    n_el = len(conn)
    if groups is None:
        groups = nm.arange(n_el, dtype=nm.int32) % 3 + 1
    vgs = nm.arange(len(coors), dtype=nm.int32) % 4
    coors = nm.array(coors, dtype=nm.float64)
    if affine:
        dim = coors.shape[1]
        coors = coors @ MTX[dim].T + SHIFT[:dim]
    return Mesh.from_data(name or 'grid', coors, vgs, [conn],
                          [nm.array(groups, nm.int32)], [desc])

def unmap(coors):
    dim = coors.shape[1]
    return (coors - SHIFT[:dim]) @ nm.linalg.inv(MTX[dim]).T

# Uniform refinement.
def simplices(gname):
    """
    A decomposition of a cell to simplices, to compute volumes.
    """
    if gname == '2_4':
        return [(0, 1, 2), (0, 2, 3)]
    if gname == '3_8':
        return meshes._HEX_TETS
    return [tuple(range({'1_2': 2, '2_3': 3, '3_4': 4}[gname]))]

def volumes(coors, conn, gname):
    dim = coors.shape[1]
    fact = {1: 1.0, 2: 2.0, 3: 6.0}[dim]
    out = []
    for tt in simplices(gname):
        cc = coors[conn[:, list(tt)]]
        out.append(nm.linalg.det(cc[:, 1:] - cc[:, :1]) / fact)
    return nm.array(out).T

def inside(coors, conn, gname, ic, points, tol=1e-9):
    """
    True for points in the closed (convex) cell, by the facet half-spaces.
    """
    verts = coors[conn[ic]]
    centre = verts.mean(0)
    ok = nm.ones(len(points), dtype=bool)
    dim = coors.shape[1]
    if dim == 1:
        return ((points[:, 0] > verts.min() - tol)
                & (points[:, 0] < verts.max() + tol))
    for fac in meshes.LOCAL[gname][dim - 1]:
        fv = verts[list(fac)]
        if dim == 2:
            tt = fv[1] - fv[0]
            nn = nm.array([tt[1], -tt[0]])
        else:
            nn = nm.cross(fv[1] - fv[0], fv[2] - fv[0])
        nn = nn / nm.linalg.norm(nn)
        if nn @ (centre - fv[0]) < 0: nn = -nn
        ok &= (points - fv[0]) @ nn > -tol
    return ok

def measure(fv):
    dim = fv.shape[1]
    if dim == 1: return 1.0
    if dim == 2: return nm.linalg.norm(fv[1] - fv[0])
    out = 0.0
    for ii in range(1, len(fv) - 1):
        out += nm.linalg.norm(nm.cross(fv[ii] - fv[0],
                                       fv[ii + 1] - fv[0])) / 2
    return out

def facets_of(conn, gname):
    """
    The facets with the cells containing them.
    """
    dim = int(gname[0])
    out = {}
    for ic, cc in enumerate(conn):
        for fac in (meshes.LOCAL[gname][dim - 1]):
            out.setdefault(frozenset(int(cc[ii]) for ii in fac),
                           []).append((ic, [int(cc[ii]) for ii in fac]))
    return out

def check_refined(mesh0, mesh1, n_sub, order_of_cells=True):
    """
    The cells of mesh1 divide the cells of mesh0.
    """
    gname = mesh0.descs[0]
    require(list(mesh1.descs) == [gname], 'descs %s', mesh1.descs)
    conn0, conn1 = mesh0.get_conn(gname), mesh1.get_conn(gname)
    coors0, coors1 = mesh0.coors, mesh1.coors
    require(len(conn1) == n_sub * len(conn0), 'cells %d', len(conn1))
    vol0 = volumes(coors0, conn0, gname)
    vol1 = volumes(coors1, conn1, gname)
    require((vol1 > 0).all(), 'negative volumes %s', vol1)
    require(nm.allclose(vol1.sum(1).reshape(-1, n_sub).sum(1), vol0.sum(1),
                        rtol=0, atol=1e-10),
            'volumes of children %s != %s', vol1.sum(1), vol0.sum(1))
    require(nm.allclose(vol1.sum(1), nm.repeat(vol0.sum(1) / n_sub, n_sub),
                        rtol=0, atol=1e-10), 'different volumes of children')
    for ic in range(len(conn0)):
        vv = nm.unique(conn1[ic * n_sub : (ic + 1) * n_sub])
        require(inside(coors0, conn0, gname, ic, coors1[vv]).all(),
                'children of cell %d are not in it', ic)
        require(set(map(tuple, nm.round(coors0[conn0[ic]], 9)))
                <= set(map(tuple, nm.round(coors1[vv], 9))),
                'the vertices of cell %d are not kept', ic)
    mats0, mats1 = mesh0.cmesh.cell_groups, mesh1.cmesh.cell_groups
    require((mats1 == nm.repeat(mats0, n_sub)).all(), 'cell groups %s', mats1)
    dist = len(set(map(tuple, nm.round(coors1, 9))))
    require(dist == len(coors1), 'duplicate vertices: %d of %d', dist,
            len(coors1))
    require((nm.unique(conn1) == nm.arange(len(coors1))).all(),
            'vertices without cells')
    if gname != '1_2':
        require((coors1[:len(coors0)] == coors0).all(),
                'the original vertices are not the first')
    else:
        require((nm.diff(coors1[:, 0]) > 0).all(), 'not sorted')
    dim = int(gname[0])
    if dim == 1:
        cnt0 = nm.bincount(conn0.ravel(), minlength=len(coors0))
        cnt1 = nm.bincount(conn1.ravel(), minlength=len(coors1))
        require((coors0[cnt0 == 1] == coors1[cnt1 == 1]).all(), 'ends')
        return

    f0, f1 = facets_of(conn0, gname), facets_of(conn1, gname)
    require(all(len(ii) <= 2 for ii in f1.values()), 'facets of 3 cells')
    area = [sum(measure(coors[ii[0][1]]) for ii in ff.values()
                if len(ii) == 1) for coors, ff in [(coors0, f0),
                                                   (coors1, f1)]]
    require(abs(area[0] - area[1]) < 1e-9, 'area of the boundary %s', area)
    total = [sum(measure(coors[ii[0][1]]) for ii in ff.values()
                 if len(ii) == 2) for coors, ff in [(coors0, f0),
                                                    (coors1, f1)]]
    if gname in ('2_3', '2_4'):
        # The sum of interior facets of the children in the old ones.
        inner = [sum(measure(coors1[ii[0][1]]) for ii in f1.values()
                     if len(ii) == 2
                     and ii[0][0] // n_sub != ii[1][0] // n_sub)]
        require(abs(total[0] - inner[0]) < 1e-9, 'inner facets %s', inner)

N_SUB = {'1_2': 2, '2_3': 4, '2_4': 4, '3_4': 8, '3_8': 8}

def run_uniform(acc, tier, name, part, n_part):
    from sfepy.discrete.fem import FEDomain
    shape = None
    if isinstance(name, list):
        name, shape = None, name
    mesh = make_mesh(name, shape)
    gname = mesh.descs[0]
    n_el = mesh.n_el
    perms = perms_of(gname)
    cases = [()] + [((ic, pp),) for ic in range(n_el) for pp in perms[1:]]
    if tier != 'quick' and n_el > 1:
        cases += [((0, p0), (1, p1)) for p0 in perms[1:] for p1 in perms[1:]]
    for ip in range(part, len(cases), n_part):
        pcs = cases[ip]
        levels = (2 if tier == 'quick' else 3) if ip == 0 else 2
        if gname == '1_2': levels = 3
        if (gname[0] == '3') and ip and (ip % 5): levels = 1
        with acc.case('uniform %s cells %s' % (name or shape, pcs)):
            mesh = make_mesh(name, shape, pcs)
            domain = FEDomain('d', mesh)
            # The domain can fix orientations, take the mesh from it.
            for level in range(levels):
                rdomain = domain.refine()
                acc.states += 1
                check_refined(domain.mesh, rdomain.mesh, N_SUB[gname])
                require(rdomain.shape.n_el == rdomain.mesh.n_el
                        == len(rdomain.get_conn()), 'shape of domain')
                domain = rdomain
            acc.outcome(('uniform', gname, levels))

def run_lines(acc, tier):
    """
    1D meshes with any order of cells and vertices.
    """
    from sfepy.discrete.fem import FEDomain, Mesh
    for nc in range(1, 5):
        xs = nm.cumsum(nm.arange(1, nc + 2))[:, None] * 1.0
        for order in itertools.permutations(range(nc)):
            with acc.case('line cells %s' % (order,)):
                conn = nm.array([[ii, ii + 1] for ii in order], nm.int32)
                groups = nm.array(order, nm.int32) + 1
                mesh = Mesh.from_data('l', xs, None, [conn], [groups], ['1_2'])
                for level in range(2):
                    mesh1 = FEDomain('d', mesh).refine().mesh
                    check_refined(mesh, mesh1, 2)
                    mesh = mesh1
                acc.outcome(('line', nc))
        for order in itertools.permutations(range(nc + 1)):
            inv = nm.argsort(order)
            with acc.case('line vertices %s' % (order,)):
                conn = nm.array([[inv[ii], inv[ii + 1]] for ii in range(nc)],
                                nm.int32)
                mesh = Mesh.from_data('l', xs[list(order)], None, [conn],
                                      [nm.arange(nc, dtype=nm.int32)],
                                      ['1_2'])
                try:
                    mesh1 = FEDomain('d', mesh).refine().mesh
                except ValueError:
                    acc.outcome('unsorted')
                    require(order != tuple(range(nc + 1)), 'refused')
                else:
                    check_refined(mesh, mesh1, 2)

def run_reference(acc, tier):
    """
    Refined reference elements: the error edges connect the middle of an edge
    with its ends.
    """
    from sfepy.discrete.fem.geometry_element import GeometryElement
    from sfepy.discrete.fem.refine import refine_reference
    for gname in ['2_3', '2_4', '3_4', '3_8']:
        gel = GeometryElement(gname)
        prev = gel.coors, nm.array([gel.conn])
        for level in range(4 if gname[0] == '2' else 3):
            with acc.case('reference %s level %d' % (gname, level)):
                coors, conn, edges = refine_reference(gel, level)
                if level == 0:
                    require((coors == gel.coors).all() and edges is None,
                            'level 0')
                    require((nm.ravel(conn) == gel.conn).all(), 'level 0 conn')
                    continue
                require(len(conn) == N_SUB[gname]**level, 'cells')
                vol = volumes(coors, conn, gname).sum(1)
                require((vol > 0).all(), 'volumes')
                require(abs(vol.sum() - gel.get_surface_entities.__self__
                            .coors[:, 0].max()
                            * {'2_3': 0.5, '3_4': 1 / 6.0}.get(gname, 1.0))
                        < 1e-10, 'volume %s', vol.sum())
                cc = coors[edges]
                require(nm.allclose(cc[..., 1, :],
                                    0.5 * (cc[..., 0, :] + cc[..., 2, :]),
                                    atol=1e-12),
                        'error edges are not split in the middle')
                # All edges (and diagonals) of the previous level are there.
                pcoors, pconn = prev
                for ic, pc in enumerate(pconn):
                    pairs = set()
                    for ee in edges[ic]:
                        pairs.add(frozenset(map(tuple, nm.round(
                            coors[[ee[0], ee[2]]], 9))))
                    for ii, jj in meshes.LOCAL[gname][1]:
                        pair = frozenset(map(tuple, nm.round(
                            pcoors[[pc[ii], pc[jj]]], 9)))
                        require(pair in pairs, 'edge %d-%d of cell %d is not'
                                ' in error edges', ii, jj, ic)
                acc.outcome(('reference', gname, level))
                prev = coors, conn

# Hanging nodes.
def lattice_nodes(cells, order):
    """
    The number of nodes of the conforming space. `cells`: integer corners and
    sizes of axis aligned cells.
    """
    dim = len(cells[0][0])
    nodes = {}
    for corner, size in cells:
        for idx in itertools.product(range(order + 1), repeat=dim):
            pt = tuple(corner[ii] * order + idx[ii] * size
                       for ii in range(dim))
            nodes.setdefault(pt, 0)
    keep = []
    for pt in nodes:
        ok = True
        for corner, size in cells:
            rel = [pt[ii] - corner[ii] * order for ii in range(dim)]
            if any(rr < 0 or rr > size * order for rr in rel): continue
            if any(rr % size for rr in rel):
                ok = False
                break
        if ok: keep.append(pt)
    return keep

def int_cells(mesh, scale):
    """
    The cells as corners and sizes in units of 1 / scale.
    """
    gname = mesh.descs[0]
    vv = unmap(mesh.coors)[mesh.get_conn(gname)] * scale
    lo, hi = vv.min(1), vv.max(1)
    require(nm.allclose(lo, nm.round(lo), atol=1e-8)
            and nm.allclose(hi, nm.round(hi), atol=1e-8),
            'vertices out of the lattice')
    lo = nm.round(lo).astype(int)
    hi = nm.round(hi).astype(int)
    require(((hi - lo) == (hi - lo)[:, :1]).all(), 'cells are not cubes')
    dim = lo.shape[1]
    for ic in range(len(vv)):
        require(set(map(tuple, nm.round(vv[ic]).astype(int)))
                == set(itertools.product(*zip(lo[ic], hi[ic]))),
                'cell %d is not a box', ic)
    return [(tuple(l.tolist()), int(h[0] - l[0])) for l, h in zip(lo, hi)]

def sub_boxes(box):
    corner, size = box
    half = size // 2
    return [(tuple(cc + half * ii for cc, ii in zip(corner, idx)), half)
            for idx in itertools.product(range(2), repeat=len(corner))]

def ref_points(dim, num):
    ax = nm.arange(num + 1) / num
    return nm.array(list(itertools.product(*[ax] * dim)))

def multilinear(pts):
    """
    The bilinear or trilinear basis in the usual order of vertices.
    """
    dim = pts.shape[1]
    order = {1: [[0], [1]], 2: [[0, 0], [1, 0], [1, 1], [0, 1]],
             3: [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                 [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}[dim]
    return nm.stack([nm.prod([pts[:, ii] if vv[ii] else 1 - pts[:, ii]
                              for ii in range(dim)], axis=0)
                     for vv in order], axis=1)

def cell_values(field, num):
    """
    The values of all global basis functions in points of cells.
    """
    from sfepy.discrete import Integral
    dim = field.domain.shape.dim
    pts = ref_points(dim, num)
    integral = Integral('i', coors=pts, weights=nm.ones(len(pts)))
    field.clear_qp_basis()
    bf = field.eval_basis('v', False, integral)
    n_el = field.econn.shape[0]
    bf = nm.broadcast_to(bf.reshape((-1, len(pts), bf.shape[-1])),
                         (n_el, len(pts), bf.shape[-1]))
    field.clear_qp_basis()
    vals = nm.zeros((n_el, len(pts), field.n_nod))
    ic = nm.arange(n_el)[:, None, None]
    ip = nm.arange(len(pts))[None, :, None]
    nm.add.at(vals, (ic, ip, field.econn[:, None, :]), bf)
    conn = field.domain.mesh.get_conn(field.domain.mesh.descs[0])
    xx = nm.einsum('pk,ckd->cpd', multilinear(pts),
                   field.domain.mesh.coors[conn])
    return vals, xx

def poly_exps(dim, order):
    return [ee for ee in itertools.product(range(order + 1), repeat=dim)
            if sum(ee) <= order]

def check_space(domain, subs, order, num, scale):
    """
    The space of the field with substituted DOFs is the conforming space.
    """
    from sfepy.discrete.fem import Field
    omega = domain.create_region('Omega', 'all', add_to_regions=False)
    field = Field.from_args('f', nm.float64, 1, omega, approx_order=order)
    if subs is not None:
        field.substitute_dofs(subs)
    vals, xx = cell_values(field, num)
    nd = vals.shape[-1]
    dim = xx.shape[-1]
    vals = vals.reshape((-1, nd))
    xx = xx.reshape((-1, dim))
    key = nm.round(unmap(xx) * scale * num * 4).astype(nm.int64)
    _, inv = nm.unique(key, axis=0, return_inverse=True)
    inv = inv.ravel()
    perm = nm.argsort(inv, kind='stable')
    first = perm[nm.searchsorted(inv[perm], inv)]
    jump = nm.abs(vals - vals[first]).max(1)
    require(jump.max() < 1e-10, 'a jump %.2e in %s', jump.max(),
            unmap(xx)[nm.argmax(jump)])
    used = nm.abs(vals).max(0) > 1e-9
    unused = nm.zeros(nd, dtype=bool)
    if field.unused_dofs is not None:
        unused[field.unused_dofs] = True
    require((used != unused).all(), 'unused DOFs: %s', nm.where(unused)[0])
    nodes = lattice_nodes(int_cells(domain.mesh, scale), order)
    require(used.sum() == len(nodes), 'dimension of the space: %d, should be'
            ' %d', used.sum(), len(nodes))
    # Nodal: one in its own node, zero in nodes of others, thus independent.
    coors = field.get_coor()
    got = {}
    for ii, pt in enumerate(map(tuple, nm.round(unmap(coors) * scale * order,
                                                6))):
        if used[ii]: got.setdefault(pt, []).append(ii)
    require(set(got) == set(tuple(float(jj) for jj in ii) for ii in nodes),
            'nodes of used DOFs')
    for ee in poly_exps(dim, order):
        exact = (xx**nm.array(ee)).prod(1)
        dofs = (coors**nm.array(ee)).prod(1)
        err = nm.abs(vals @ dofs - exact).max()
        require(err < 1e-9 * max(1.0, nm.abs(exact).max()),
                'the polynomial %s is not reproduced: %.2e', ee, err)
    return field, vals, xx

def check_restore(field, vals, num):
    """
    Restored DOF values give the same function in the original basis.
    """
    dofs = nm.cos(3.0 * nm.arange(field.n_nod)) + 2.0
    full = field.restore_substituted(dofs)
    used = nm.setdiff1d(nm.arange(field.n_nod), field.unused_dofs)
    require(nm.allclose(full[used], dofs[used], atol=1e-12),
            'used DOFs changed')
    econn = field.econn.copy()
    field.restore_dofs(store=True)
    v0, _ = cell_values(field, num)
    v0 = v0.reshape((-1, v0.shape[-1]))
    require(nm.allclose(v0 @ full, vals @ dofs, atol=1e-10),
            'restored DOFs give another function: %.2e',
            nm.abs(v0 @ full - vals @ dofs).max())
    field.substitute_dofs(None, restore=True)
    v1, _ = cell_values(field, num)
    require((field.econn == econn).all(), 'substituted again: econn')
    require(nm.allclose(v1.reshape(v0.shape), vals, atol=1e-12),
            'substituted again: basis')

def check_level(mesh0, mesh1, flag, sub_cells, scale):
    """
    The cells after a refinement of flagged cells.
    """
    gname = mesh0.descs[0]
    n_sub = N_SUB[gname]
    conn0, conn1 = mesh0.get_conn(gname), mesh1.get_conn(gname)
    nref = int((flag != 0).sum())
    require(len(conn1) == len(conn0) + nref * (n_sub - 1), 'cells')
    coarse = nm.where(flag == 0)[0]
    require((conn1[coarse] == conn0[coarse]).all(), 'coarse cells changed')
    require((mesh1.coors[:len(mesh0.coors)] == mesh0.coors).all(),
            'vertices changed')
    cgs0, cgs1 = mesh0.cmesh.cell_groups, mesh1.cmesh.cell_groups
    require((cgs0[coarse] == cgs1[coarse]).all(), 'groups of coarse cells')
    vv = nm.unique(conn0[coarse])
    require((mesh0.cmesh.vertex_groups[vv]
             == mesh1.cmesh.vertex_groups[vv]).all(), 'vertex groups')
    require((sub_cells[:, 0] == nm.where(flag)[0]).all(), 'refined cells')
    require(sub_cells.shape == (nref, n_sub + 1), 'sub_cells')
    require(sorted(sub_cells[:, 1:].ravel().tolist() + coarse.tolist())
            == list(range(len(conn1))), 'sub_cells do not cover the mesh')
    box0, box1 = int_cells(mesh0, scale), int_cells(mesh1, scale)
    vol = volumes(mesh1.coors, conn1, gname)
    require((vol > 0).all(), 'negative volumes')
    for row in sub_cells:
        require(sorted(box1[ii] for ii in row[1:])
                == sorted(sub_boxes(box0[row[0]])),
                'sub-cells of %d are %s', row[0], row[1:])
        require((cgs1[row[1:]] == cgs0[row[0]]).all(), 'groups of sub-cells')
    pts = set(map(tuple, nm.round(unmap(mesh1.coors) * scale).astype(int)))
    require(len(pts) == len(mesh1.coors), 'duplicate vertices')

def refine(mesh, flags, scale, check=True):
    import sfepy.discrete.fem.refine_hanging as rh
    from sfepy.discrete.fem import FEDomain
    domain, subs = FEDomain('d', mesh), None
    for flag in flags:
        mesh0 = domain.mesh
        flag = nm.array(flag, dtype=nm.uint8)
        out = rh.refine(domain, flag, subs=subs, ret_sub_cells=True)
        if not flag.any():
            require(out[0] is domain, 'nothing to refine')
            continue
        domain, subs, sub_cells = out
        if check:
            check_level(mesh0, domain.mesh, flag, sub_cells, scale)
    return domain, subs

def run_hanging(acc, tier, shape, order, perm_sel, part, n_part, restore):
    gname = {2: '2_4', 3: '3_8'}[len(shape)]
    n_el = int(nm.prod(shape))
    perms = perms_of(gname)
    if perm_sel == 'none':
        pcases = [()]
    elif perm_sel == 'pairs':
        pcases = [((0, p0), (1, p1)) for p0 in perms[1:] for p1 in perms[1:]]
    else:
        pcases = [((ic, pp),) for ic in perm_sel for pp in perms[1:]]
    num = {1: 2, 2: 4, 3: 6, 4: 8}[order]
    cases = [(pcs, mask) for pcs in pcases for mask in range(1, 2**n_el)]
    for ii in range(part, len(cases), n_part):
        pcs, mask = cases[ii]
        flag = [mask >> ic & 1 for ic in range(n_el)]
        with acc.case('hanging %s order %d cells %s refine %s'
                      % (shape, order, pcs, flag)):
            mesh = make_mesh(None, shape, pcs)
            domain, subs = refine(mesh, [flag], 2)
            acc.states += 1
            require((subs is None) == all(flag), 'substitutions %s', subs)
            field, vals, xx = check_space(domain, subs, order, num, 2)
            if restore and subs is not None:
                check_restore(field, vals, num)
            acc.outcome(('hanging', len(shape), order, sum(flag)))

def touching(boxes, ic, jc):
    """
    True if two closed boxes share a point.
    """
    (c0, s0), (c1, s1) = boxes[ic], boxes[jc]
    return all(c0[ii] <= c1[ii] + s1 and c1[ii] <= c0[ii] + s0
               for ii in range(len(c0)))

def run_levels(acc, tier, shape, order, max_sub, part, n_part):
    """
    The second level in cells not touching other sizes.
    """
    n_el = int(nm.prod(shape))
    num = {1: 2, 2: 4, 3: 6}[order]
    ik = 0
    for mask in range(1, 2**n_el):
        flag = [mask >> ic & 1 for ic in range(n_el)]
        domain, subs = refine(make_mesh(None, shape), [flag], 4, check=False)
        boxes = int_cells(domain.mesh, 4)
        free = [ic for ic in range(len(boxes))
                if all(boxes[jc][1] == boxes[ic][1]
                       for jc in range(len(boxes)) if touching(boxes, ic, jc))]
        for ns in range(1, max_sub + 1):
            for sub in itertools.combinations(free, ns):
                ik += 1
                if ik % n_part != part: continue
                flag2 = nm.zeros(len(boxes), dtype=int)
                flag2[list(sub)] = 1
                with acc.case('levels %s order %d refine %s, %s'
                              % (shape, order, flag, sub)):
                    domain, subs = refine(make_mesh(None, shape),
                                          [flag, flag2], 4)
                    acc.states += 1
                    check_space(domain, subs, order, num, 4)
                    acc.outcome(('levels', order, len(sub)))

def run_patch(acc, tier, shape, order):
    """
    A Laplace problem with a polynomial solution.
    """
    from sfepy.discrete import (FieldVariable, Integral, Equation, Equations,
                                Problem, Function)
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.discrete.fem import Field
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    from sfepy.terms import Term
    dim = len(shape)
    n_el = int(nm.prod(shape))
    def exact(coors):
        out = 1.0 + coors[:, 0] - 2.0 * coors[:, 1]
        if order > 1:
            out = out + coors[:, 0] * coors[:, 1]
            out = out + coors[:, 0]**2 - coors[:, 1]**2
        return out
    perms = perms_of({2: '2_4', 3: '3_8'}[dim])
    for mask in range(1, 2**n_el):
        flag = [mask >> ic & 1 for ic in range(n_el)]
        pcs = ((mask % n_el, perms[mask % len(perms)]),)
        with acc.case('patch %s order %d refine %s' % (shape, order, flag)):
            domain, subs = refine(make_mesh(None, shape, pcs), [flag], 2,
                                  check=False)
            omega = domain.create_region('Omega', 'all')
            gamma = domain.create_region('Gamma', 'vertices of surface',
                                         'facet')
            # Only the outer boundary.
            lo, hi = nm.zeros(dim), nm.array(shape)
            cc = unmap(domain.mesh.cmesh.get_centroids(dim - 1))
            outer = nm.where((nm.abs(cc - lo) < 1e-8).any(1)
                             | (nm.abs(cc - hi) < 1e-8).any(1))[0]
            gamma.entities[dim - 1] = outer.astype(nm.uint32)
            gamma.finalize()
            field = Field.from_args('f', nm.float64, 1, omega,
                                    approx_order=order)
            if subs is not None:
                field.substitute_dofs(subs)
            uu = FieldVariable('u', 'unknown', field)
            vv = FieldVariable('v', 'test', field, primary_var_name='u')
            integral = Integral('i', order=2 * order)
            eqs = Equations([Equation('eq', Term.new(
                'dw_laplace(v, u)', integral, omega, v=vv, u=uu))])
            fun = Function('f', lambda ts, coors, bc=None, problem=None,
                           **kwargs: exact(coors))
            pb = Problem('p', equations=eqs)
            pb.set_solver(Newton({}, lin_solver=ScipyDirect({})))
            pb.set_bcs(ebcs=Conditions([EssentialBC('e', gamma,
                                                    {'u.0': fun})]))
            state = pb.solve(save_results=False)
            vec = state.get_state_parts()['u']
            err = nm.abs(vec - exact(field.get_coor())).max()
            require(err < 1e-8, 'the solution is not exact: %.2e', err)
            vals, xx = cell_values(field, 3)
            require(nm.allclose(vals @ vec, exact(xx.reshape((-1, dim)))
                                .reshape(xx.shape[:2]), atol=1e-8), 'values')
            val = uu.evaluate('val', integral=Integral('i2', order=2))
            grad = uu.evaluate('grad', integral=Integral('i2', order=2))
            geo = field.get_mapping(omega, Integral('i2', order=2),
                                    'volume')[0]
            vols = nm.abs(volumes(domain.mesh.coors,
                                  domain.mesh.get_conn(domain.mesh.descs[0]),
                                  domain.mesh.descs[0]).sum(1))
            require(nm.allclose(geo.det.sum((1, 2, 3)), vols), 'volumes')
            if order == 1:
                require(nm.allclose(grad[..., 0], [1.0, -2.0, 0.0][:dim]),
                        'gradient')
            acc.outcome(('patch', dim, order))

def groups(tier):
    out = [['lines', tier], ['reference', tier]]
    for name in ['tri2', 'tri4', 'fan3', 'tet1', 'tet2', 'tet6', [2, 2],
                 [3, 1], [1, 1, 1], [2, 1, 1]]:
        n_part = 4 if name in ('tet6', [2, 1, 1]) else 1
        out += [['uniform', tier, name, ii, n_part] for ii in range(n_part)]
    def hang(shape, order, sel, n_part, restore=True):
        return [['hanging', tier, shape, order, sel, ii, n_part, restore]
                for ii in range(n_part)]
    for order in [1, 2, 3]:
        out += hang([2, 2], order, [0, 1, 2, 3], 1 if order < 3 else 2)
        out += hang([3, 2], order, 'none', 1)
        out += hang([2, 1, 1], order, [0, 1], 1 if order < 3 else 4)
    out += hang([2, 2, 1], 1, [0, 3], 2)
    out += hang([2, 2, 1], 2, [1], 8)
    out += hang([2, 2, 2], 1, 'none', 4)
    out += [['patch', tier, [3, 2], 1], ['patch', tier, [2, 2], 2],
            ['patch', tier, [2, 2, 1], 1]]
    for order in [1, 2]:
        out += [['levels', tier, [2, 2], order, 2, ii, 2] for ii in range(2)]
    out += [['levels', tier, [2, 1, 1], 1, 1, ii, 2] for ii in range(2)]
    if tier != 'quick':
        out += hang([3, 3], 1, 'none', 2) + hang([3, 3], 2, 'none', 4)
        for order in [1, 2, 3]:
            out += hang([2, 1, 1], order, 'pairs', 16)
            out += hang([2, 2], order, 'pairs', 4)
        out += hang([2, 2], 4, [0, 1, 2, 3], 8)
        out += hang([3, 2], 3, [0, 1, 2, 3, 4, 5], 8)
        out += hang([3, 2, 1], 1, 'none', 4)
        out += hang([2, 2, 1], 2, [0, 2, 3], 24)
        out += hang([2, 2, 2], 1, [0, 5], 48, False)
        out += [['levels', tier, [3, 2], oo, 2, ii, 16] for ii in range(16)
                for oo in [1, 2]]
        out += [['levels', tier, [2, 2, 1], 1, 1, ii, 16] for ii in range(16)]
        out += [['patch', tier, [3, 2], 2], ['patch', tier, [2, 2, 1], 2],
                ['patch', tier, [2, 2, 2], 1]]
    return out

def run(group, acc):
    {'lines': run_lines, 'reference': run_reference, 'uniform': run_uniform,
     'hanging': run_hanging, 'levels': run_levels,
     'patch': run_patch}[group[0]](acc, *group[1:])
