"""
C06: H1 conformity and DOF connectivity of the finite element fields.
"""
import itertools

import numpy as nm

from mc.core import require
from mc import meshes

PID = 'C06'
LEVEL = 'exploration'
RULE = ('a case = (two cells sharing an entity, the local vertex order of each'
        ' cell, the order of the shared vertices, basis, order) or (mesh, a'
        ' subset of cells as the field region, basis, order, a queried'
        ' region); non-trivial if any DOF is shared or queried; distinct by'
        ' those')
ASSUMPTIONS = ['the reference is the geometry: the trace of each global basis'
               ' function is evaluated from both cells in the same points of'
               ' the shared entity',
               'values are compared with the tolerance 1e-9',
               'affine cells, where polynomials are to be reproduced']
BOUNDS = {
    'quick': 'all local vertex orders of both cells x all shared vertex orders'
             ' (tets, quads, triangles; hexahedra: first cell fixed, and both'
             ' rotated for order 2); Lagrange up to 4, Bernstein 4, Lobatto 5,'
             ' SEM 4, serendipity 3; all cell subsets of meshes up to 6 cells',
    'thorough': 'both cells rotated for all bases and hexahedra; orders +1',
}
LIMIT = 800

# Automorphisms of the reference cells given by vertex permutations.
def automorphisms(desc):
    from sfepy.discrete.fem.geometry_element import GeometryElement
    gel = GeometryElement(desc)
    cc = gel.coors
    nv = cc.shape[0]
    if desc in ('1_2', '2_3', '3_4'):
        return [list(pp) for pp in itertools.permutations(range(nv))]
    out = []
    dim = cc.shape[1]
    if desc == '3_6':
        # Rotations, flips of the triangle, swap of the bases.
        for pp in itertools.permutations(range(3)):
            out.append(list(pp) + [3 + ii for ii in pp])
            out.append([3 + ii for ii in pp] + list(pp))
        return out
    key = {tuple(map(int, c)): ii for ii, c in enumerate(cc)}
    for axes in itertools.permutations(range(dim)):
        for flips in itertools.product((0, 1), repeat=dim):
            pp = [key[tuple(int(c[ax]) ^ fl for ax, fl in zip(axes, flips))]
                  for c in cc]
            out.append(pp)
    return out

PAIRS = {
    # name: (desc, coors, cell 1, cell 2)
    'line': ('1_2', [[0], [1], [2.5]], [0, 1], [1, 2]),
    'tri': ('2_3', [[0, 0], [1, 0], [0, 1], [1.2, 1.1]], [0, 1, 2], [1, 3, 2]),
    'tri-v': ('2_3', [[0, 0], [1, 0], [0, 1], [-1, 0], [0, -1.]],
              [0, 1, 2], [0, 3, 4]),
    'quad': ('2_4', [[0, 0], [1, 0], [1, 1], [0, 1], [2.2, .1], [2, 1.]],
             [0, 1, 2, 3], [1, 4, 5, 2]),
    'quad-v': ('2_4', [[0, 0], [1, 0], [1, 1], [0, 1],
                       [-1, 0], [-1, -1], [0, -1.]],
               [0, 1, 2, 3], [0, 4, 5, 6]),
    'tet': ('3_4', [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1.]],
            [0, 1, 2, 3], [1, 2, 3, 4]),
    'tet-e': ('3_4', [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1],
                      [0, -1, 0], [0, 0, -1.]],
              [0, 1, 2, 3], [0, 1, 4, 5]),
    'hex': ('3_8', [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                    [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1],
                    [2, 0, 0], [2, 1, 0], [2, 0, 1], [2, 1, 1.2]],
            [0, 1, 2, 3, 4, 5, 6, 7], [1, 8, 9, 2, 5, 10, 11, 6]),
    'hex-e': ('3_8', [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                      [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1],
                      [2, 1, 0], [2, 2, 0], [1, 2, 0],
                      [2, 1, 1], [2, 2, 1], [1, 2, 1.]],
              [0, 1, 2, 3, 4, 5, 6, 7], [2, 8, 9, 10, 6, 11, 12, 13]),
    'wedge-q': ('3_6', [[0, 0, 0], [1, 0, 0], [0, 1, 0],
                        [0, 0, 1], [1, 0, 1], [0, 1, 1],
                        [1, 1, 0], [1, 1, 1.]],
                [0, 1, 2, 3, 4, 5], [1, 6, 2, 4, 7, 5]),
    'wedge-t': ('3_6', [[0, 0, 0], [1, 0, 0], [0, 1, 0],
                        [0, 0, 1], [1, 0, 1], [0, 1, 1],
                        [0, 0, 2], [1, 0, 2], [0, 1, 2.]],
                [0, 1, 2, 3, 4, 5], [3, 4, 5, 6, 7, 8]),
}

def weights_for(desc, shared, coors):
    """
    Vertex weights of sample points of the shared entity.
    """
    nn = len(shared)
    if nn == 1:
        return nm.array([[1.0]])
    if nn == 2:
        ts = nm.array([0, 0.13, 0.37, 0.5, 0.81, 1.0])
        return nm.stack([1 - ts, ts], axis=1)
    if nn == 3:
        out = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        for a, b in [(.2, .3), (.7, .1), (.1, .6), (.33, .33), (.5, .5),
                     (0., .3), (.4, 0.), (.05, .15), (.12, .81), (.45, .05)]:
            out.append([a, b, 1 - a - b])
        return nm.array(out)
    # Bilinear weights in the cyclic order of the quadrilateral.
    out = []
    for a in (0, 0.17, 0.4, 0.77, 1):
        for b in (0, 0.23, 0.55, 0.9, 1):
            out.append([(1-a)*(1-b), a*(1-b), a*b, (1-a)*b])
    return nm.array(out)

def cyclic(shared, cell, desc):
    """
    Order the shared vertices around the facet.
    """
    if len(shared) < 4:
        return sorted(shared)
    dim = int(desc[0])
    for loc in meshes.LOCAL[desc][dim - 1]:
        vv = [cell[ii] for ii in loc]
        if set(vv) == set(shared):
            return vv
    raise ValueError(shared)

def configs(name, both):
    """
    Yield (perm1, perm2, shared order): local orders of the vertices of both
    cells and the order of the global numbers of the shared vertices.
    """
    desc, _, c1, c2 = PAIRS[name]
    auts = automorphisms(desc)
    shared = sorted(set(c1) & set(c2))
    a1 = auts if both else auts[:1]
    for p1, p2 in itertools.product(range(len(a1)), range(len(auts))):
        for order in itertools.permutations(range(len(shared))):
            yield p1, p2, order

def build_pairs(name, cfgs):
    """
    A mesh with the given configurations as disjoint pairs of cells.
    """
    from sfepy.discrete.fem import Mesh
    desc, coors, c1, c2 = PAIRS[name]
    coors = nm.array(coors, dtype=nm.float64)
    auts = automorphisms(desc)
    nv = coors.shape[0]
    shared = sorted(set(c1) & set(c2))
    conns, xs = [], []
    for ic, (p1, p2, order) in enumerate(cfgs):
        # New number of each vertex: the shared ones permuted among themselves.
        new = nm.arange(nv)
        new[shared] = nm.array(shared)[list(order)]
        x = nm.empty_like(coors)
        x[new] = coors
        xs.append(x)
        conns.append([new[c1[ii]] + ic * nv for ii in auts[p1]])
        conns.append([new[c2[ii]] + ic * nv for ii in auts[p2]])
    conn = nm.array(conns, dtype=nm.int32)
    mesh = Mesh.from_data('pairs', nm.concatenate(xs), None, [conn],
                          [nm.zeros(conn.shape[0], dtype=nm.int32)], [desc])
    return mesh

def eval_bf(field, pts, iels=None):
    """
    Basis values in the given reference points, shape (n_el, n_pt, n_ep).
    """
    from sfepy.discrete import Integral
    integral = Integral('i', coors=pts, weights=nm.ones(len(pts)))
    field.clear_qp_basis()
    bf = field.eval_basis('v', False, integral)
    field.clear_qp_basis()
    if bf.ndim == 3:
        bf = nm.broadcast_to(bf[None, :, 0, :],
                             (field.econn.shape[0],) + bf[:, 0, :].shape)
    else:
        bf = bf[..., 0, :]
    return bf

def supported(desc, basis, order):
    return True

SPACES = {
    '1_2': [('lagrange', 1), ('lagrange', 2), ('lagrange', 3), ('lagrange', 4),
            ('lobatto', 1), ('lobatto', 2), ('lobatto', 4), ('bernstein', 1),
            ('bernstein', 3), ('sem', 2), ('sem', 4), ('lagrange', '1B'),
            ('lagrange', '2B')],
    '2_3': [('lagrange', 1), ('lagrange', 2), ('lagrange', 3), ('lagrange', 4),
            ('lagrange', '1B'), ('lagrange', '2B'), ('bernstein', 1),
            ('bernstein', 2), ('bernstein', 3), ('bernstein', 4)],
    '2_4': [('lagrange', 1), ('lagrange', 2), ('lagrange', 3), ('lagrange', 4),
            ('lobatto', 1), ('lobatto', 2), ('lobatto', 3), ('lobatto', 5),
            ('bernstein', 1), ('bernstein', 2), ('bernstein', 4),
            ('serendipity', 1), ('serendipity', 2), ('serendipity', 3),
            ('sem', 1), ('sem', 2), ('sem', 3), ('sem', 4)],
    '3_4': [('lagrange', 1), ('lagrange', 2), ('lagrange', 3), ('lagrange', 4),
            ('lagrange', '1B'), ('lagrange', '2B'), ('bernstein', 1),
            ('bernstein', 2), ('bernstein', 3), ('bernstein', 4)],
    '3_8': [('lagrange', 1), ('lagrange', 2), ('lagrange', 3), ('lagrange', 4),
            ('lobatto', 1), ('lobatto', 2), ('lobatto', 3), ('lobatto', 4),
            ('bernstein', 1), ('bernstein', 2), ('bernstein', 4),
            ('serendipity', 1), ('serendipity', 2), ('serendipity', 3),
            ('sem', 2), ('sem', 3), ('sem', 4)],
    '3_6': [('lagrange', 1)],
}
MORE = {
    '1_2': [('lagrange', 5), ('bernstein', 5), ('lobatto', 6), ('sem', 6)],
    '2_3': [('lagrange', 5), ('bernstein', 5)],
    '2_4': [('lagrange', 5), ('lobatto', 6), ('lobatto', 7), ('sem', 6),
            ('bernstein', 5)],
    '3_4': [('lagrange', 5), ('bernstein', 5)],
    '3_8': [('lagrange', 5), ('lobatto', 5)],
    '3_6': [],
}

SUB_MESHES = {
    'quick': ['line3', 'tri4', 'quad4', 'tet2', 'hex2', 'wedge2', 'quad2'],
    'thorough': ['line3', 'tri4', 'quad4', 'tet6', 'hex4', 'wedge2', 'fan3',
                 'quad2'],
}
CHUNK = 1200

def groups(tier):
    out = []
    thorough = tier == 'thorough'
    for name, (desc, _, _, _) in PAIRS.items():
        spaces = SPACES[desc] + (MORE[desc] if thorough else [])
        both = (desc != '3_8') or thorough
        num = sum(1 for _ in configs(name, both))
        for basis, ao in spaces:
            for ic in range(0, num, CHUNK):
                out.append(['pair', name, basis, ao, both, ic])
    if not thorough:
        # Both hexahedra rotated.
        for basis, ao in (('lagrange', 3), ('lobatto', 3)):
            num = sum(1 for _ in configs('hex', True))
            for ic in range(0, num, 2 * CHUNK):
                out.append(['pair', 'hex', basis, ao, True, ic, 2 * CHUNK])
    for mname in SUB_MESHES[tier]:
        desc = meshes.data(mname)[2][0]
        for basis, ao in SPACES[desc]:
            out.append(['sub', mname, basis, ao])
        if desc != '3_6':
            out.append(['sub', mname, 'lagrange', '0d'])
        if desc != '3_6':
            out.append(['sub', mname, 'lagrange', '2d'])
    for mname in ('line3', 'tri4', 'quad4', 'tet2', 'hex2'):
        out.append(['setdofs', mname, 3 if thorough or 'hex' not in mname
                    else 2])
    for mname in ('tri4', 'quad4', 'tet2', 'hex2'):
        out.append(['surface', mname])
    for mname in ('mix2d', 'mix3d', 'mix2db'):
        for idesc, desc in enumerate(meshes.data(mname)[2]):
            for basis, ao in SPACES[desc]:
                out.append(['mixed', mname, idesc, basis, ao])
    for mname in ('tri4', 'quad4', 'tet2', 'hex2'):
        for basis, ao in (SPACES[meshes.data(mname)[2][0]]
                          + [('lagrange', '1d'), ('lagrange', '2d'),
                             ('lagrange', '0d')]):
            out.append(['output', mname, basis, ao])
    return out

def _field(region, basis, ao, ncomp=1, name='f'):
    from sfepy.discrete.fem import Field
    return Field.from_args(name, nm.float64, (ncomp,), region, ao, 'H1', basis)

def run(group, acc):
    globals()['_run_' + group[0]](group, acc)

def _run_pair(group, acc):
    from sfepy.discrete.fem import FEDomain
    name, basis, ao, both, ic = group[1:6]
    chunk = group[6] if len(group) > 6 else CHUNK
    cfgs = list(itertools.islice(configs(name, both), ic, ic + chunk))
    desc, coors0, c1, c2 = PAIRS[name]
    dom = FEDomain('d', build_pairs(name, cfgs))
    omega = dom.create_region('Omega', 'all')
    field = _field(omega, basis, ao)
    econn = field.econn
    conn = dom.cmesh.get_conn(dom.cmesh.tdim, 0).indices.reshape(
        (econn.shape[0], -1))
    xyz = dom.cmesh.coors
    nv = len(coors0)
    gel = field.gel
    n_ep = econn.shape[1]
    shared = cyclic(set(c1) & set(c2), c1, desc)
    ww = weights_for(desc, shared, coors0)
    # The shared entity within the cells, as local indices.
    locs = nm.empty((econn.shape[0], len(shared)), dtype=int)
    for ii, (p1, p2, order) in enumerate(cfgs):
        ss = sorted(shared)
        new = nm.arange(nv)
        new[ss] = nm.array(ss)[list(order)]
        gv = [new[vv] + ii * nv for vv in shared]
        for jj in (0, 1):
            row = conn[2*ii + jj].tolist()
            locs[2*ii + jj] = [row.index(vv) for vv in gv]
    bfs = nm.empty((econn.shape[0], len(ww), n_ep))
    uniq, inv = nm.unique(locs, axis=0, return_inverse=True)
    inv = inv.ravel()
    for iu, loc in enumerate(uniq):
        pts = nm.ascontiguousarray(ww @ gel.coors[loc])
        sel = nm.where(inv == iu)[0]
        bfs[sel] = eval_bf(field, pts)[sel]
    dim = field.gel.dim
    vols = dom.cmesh.get_volumes(dim)
    acc.count('vertex orders', len(uniq))
    is_disc = 'd' in str(ao)
    for ii, cfg in enumerate(cfgs):
        ident = 'pair %s %s%s %s' % (name, basis, ao, cfg)
        with acc.case(ident):
            ea, eb = econn[2*ii], econn[2*ii+1]
            ba, bb = bfs[2*ii], bfs[2*ii+1]
            require(len(set(ea.tolist())) == n_ep, 'repeated DOFs in a cell')
            require(len(set(eb.tolist())) == n_ep, 'repeated DOFs in a cell')
            common = sorted(set(ea.tolist()) & set(eb.tolist()))
            alld = sorted(set(ea.tolist()) | set(eb.tolist()))
            loc = {dd: k for k, dd in enumerate(alld)}
            va = nm.zeros((len(ww), len(alld)))
            vb = nm.zeros((len(ww), len(alld)))
            va[:, [loc[d] for d in ea]] = ba
            vb[:, [loc[d] for d in eb]] = bb
            err = nm.abs(va - vb).max()
            require(err < 1e-9, 'not continuous: jump %g, %d common DOFs',
                    err, len(common))
            nz = [alld[k] for k in nm.where(nm.abs(va).max(0) > 1e-10)[0]]
            require(sorted(nz) == common, 'common DOFs %s, DOFs not vanishing'
                    ' on the shared entity: %s', common, nz)
            require(len(common) >= len(shared), 'too few common DOFs')
            require(min(vols[2*ii], vols[2*ii+1]) > 0, 'volumes')
            acc.outcome('%s %s%s: %d shared' % (name, basis, ao, len(common)))
        acc.transitions += 1
    acc.states += len(cfgs)
    with acc.case('pair %s %s%s %d: numbering' % (name, basis, ao, ic)):
        used = nm.unique(econn)
        require((len(used) == field.n_nod) and (used[0] == 0)
                and (used[-1] == field.n_nod - 1), 'DOF numbers')
        require(field.coors.shape == (field.n_nod, dim), 'coors shape')
        if basis in ('lagrange', 'sem', 'serendipity') and not field.force_bubble:
            _check_poly(field, desc, basis, int(str(ao)[0]))

def monomials(desc, basis, order):
    dim = int(desc[0])
    for ee in itertools.product(range(order + 1), repeat=dim):
        if sum(ee) <= order:
            yield ee

def _check_poly(field, desc, basis, order):
    """
    Polynomials up to the approximation order are reproduced in the cells from
    the values in the field nodes, where the cells are affine.
    """
    gel = field.gel
    econn = field.econn
    pts = _inner_points(desc)
    bf = eval_bf(field, pts)
    gps = field.geom_poly_space
    gbf = gps.eval_basis(pts)[:, 0, :]
    vconn = field.domain.cmesh.get_conn(gel.dim, 0).indices.reshape(
        (-1, gel.n_vertex))[field.region.cells]
    xx = nm.einsum('pv,evd->epd', gbf, field.domain.cmesh.coors[vconn])
    affine = _affine_cells(field.domain.cmesh.coors[vconn], desc)
    nodes = field.coors[econn]
    for ee in monomials(desc, basis, order):
        vals = nm.prod(nodes ** nm.array(ee), axis=2)
        ref = nm.prod(xx ** nm.array(ee), axis=2)
        num = nm.einsum('epi,ei->ep', bf, vals)
        err = nm.abs(num - ref)[affine]
        if err.size:
            require(err.max() < 1e-9 * max(1, nm.abs(ref).max()),
                    'monomial %s not reproduced: error %g', ee, err.max())

def _inner_points(desc):
    dim = int(desc[0])
    base = nm.array([[.11, .21, .31], [.4, .05, .2], [.05, .55, .3],
                     [.25, .25, .25], [.0, .4, .1]])
    return nm.ascontiguousarray(base[:, :dim])

def _affine_cells(xc, desc):
    if desc in ('1_2', '2_3', '3_4'):
        return nm.ones(xc.shape[0], dtype=bool)
    if desc == '2_4':
        return nm.abs(xc[:, 0] - xc[:, 1] + xc[:, 2] - xc[:, 3]).max(1) < 1e-12
    if desc == '3_6':
        return nm.array([nm.abs((c[3] - c[0]) - (c[4] - c[1])).max() < 1e-12
                         and nm.abs((c[3] - c[0]) - (c[5] - c[2])).max() < 1e-12
                         for c in xc])
    out = []
    for c in xc:
        jac = nm.stack([c[1] - c[0], c[3] - c[0], c[4] - c[0]])
        ref = nm.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                        [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]])
        out.append(nm.abs(c[0] + ref @ jac - c).max() < 1e-12)
    return nm.array(out)

def entity_dofs(field, desc):
    """
    For each entity dimension: vertex set -> DOFs not vanishing on its closure,
    by evaluation of the basis.
    """
    gel = field.gel
    dim = gel.dim
    cmesh = field.domain.cmesh
    econn = field.econn
    vconn = cmesh.get_conn(dim, 0)
    offs = vconn.offsets
    out = {}
    loc = dict(meshes.LOCAL[desc])
    loc[0] = [(ii,) for ii in range(gel.n_vertex)]
    loc[dim] = [tuple(range(gel.n_vertex))]
    for dd, ents in loc.items():
        for ent in ents:
            if dd == dim:
                pts = _inner_points(desc)
            else:
                ww = weights_for(desc, ent, None)
                pts = nm.ascontiguousarray(ww @ gel.coors[list(ent)])
            bf = nm.abs(eval_bf(field, pts)).max(1) > 1e-10
            for ii, ic in enumerate(field.region.cells):
                vv = vconn.indices[offs[ic]:offs[ic+1]]
                key = (dd, frozenset(vv[list(ent)].tolist()))
                if dd == dim:
                    dofs = set(econn[ii].tolist())
                else:
                    dofs = set(econn[ii][bf[ii]].tolist())
                out.setdefault(key, set()).update(dofs)
    return out

def _verts_of(cmesh, dd, ii):
    if dd == 0:
        return frozenset([int(ii)])
    cc = cmesh.get_conn(dd, 0)
    return frozenset(cc.indices[cc.offsets[ii]:cc.offsets[ii+1]].tolist())

def _run_sub(group, acc):
    from sfepy.discrete.fem import FEDomain
    mname, basis, ao = group[1:]
    dom = FEDomain('d', meshes.mesh(mname))
    omega = dom.create_region('Omega', 'all')
    desc = dom.mesh.descs[0]
    full = _field(omega, basis, ao)
    cmesh = dom.cmesh
    dim = cmesh.tdim
    ncell = cmesh.n_el
    disc = 'd' in str(ao)
    nodal = (basis in ('lagrange', 'sem', 'serendipity'))
    vconn = cmesh.get_conn(dim, 0)

    # Queried regions: single entities and pairs of them.
    queries = []
    for dd in range(dim + 1):
        num = cmesh.num[dd]
        for kk in (1, 2):
            for ents in itertools.combinations(range(num), kk):
                if (kk == 2) and (num > 9) and (ents[1] - ents[0] > 2):
                    continue
                queries.append((dd, ents))
    regs = {}
    from sfepy.discrete.common.region import Region
    kinds = {0: 'vertex', dim: 'cell', dim - 1: 'facet'}
    kinds[1] = kinds.get(1, 'edge')
    if dim == 1:
        kinds = {0: 'vertex', 1: 'cell'}
    def get_region(dd, ents):
        key = (dd, ents)
        if key not in regs:
            kind = {0: 'vertex', 1: 'edge', 2: 'face'}.get(dd, 'cell')
            if dd == dim:
                kind = 'cell'
            if dim == 2 and dd == 1:
                kind = 'edge'
            reg = Region('Q%d_%s' % (dd, '_'.join(map(str, ents))), 'q', dom,
                         'q', kind=kind)
            reg.set_kind(kind)
            reg.entities[dd] = nm.array(ents, dtype=nm.uint32)
            reg.is_empty = False
            reg.finalize(allow_empty=True)
            regs[key] = reg
        return regs[key]

    for kk in range(1, ncell + 1):
        for cells in itertools.combinations(range(ncell), kk):
            ident = 'sub %s %s%s %s' % (mname, basis, ao, cells)
            if kk == ncell:
                sub = omega
            else:
                sub = dom.create_region('S' + '_'.join(map(str, cells)),
                                        'cell ' + ', '.join(map(str, cells)),
                                        'cell')
            field = None
            with acc.case(ident):
                field = _field(sub, basis, ao, name='f%s' % (cells,))
                require(sub.cells.tolist() == list(cells), 'region cells')
                econn = field.econn
                require(econn.shape == (kk, full.econn.shape[1]), 'shape')
                used = nm.unique(econn)
                require(nm.array_equal(used, nm.arange(field.n_nod)),
                        'DOF numbers')
                require(field.n_nod == field.n_vertex_dof + field.n_edge_dof
                        + field.n_face_dof + field.n_bubble_dof, 'DOF counts')
                # The same DOFs are shared as within the full field.
                fe = full.econn[list(cells)]
                mp = {}
                for da, db in zip(econn.ravel().tolist(), fe.ravel().tolist()):
                    require(mp.setdefault(da, db) == db,
                            'DOFs %d, %d joined', mp[da], db)
                require(len(set(mp.values())) == len(mp), 'DOFs split')
                require(nm.allclose(field.coors[econn], full.coors[fe],
                                    rtol=0, atol=1e-12), 'node coordinates')
                if field.ori is not None:
                    require(nm.array_equal(field.ori, full.ori[list(cells)]),
                            'orientations')
                if not disc:
                    vc = vconn.indices.reshape((ncell, -1))[list(cells)]
                    nv = vc.shape[1]
                    require(nm.array_equal(econn[:, :nv],
                                           field.vertex_remap[vc]),
                            'vertex_remap')
                    require(nm.array_equal(
                        vc, field.vertex_remap_i[econn[:, :nv]]),
                        'vertex_remap_i')
                    require(nm.array_equal(field.get_vertices(),
                                           nm.unique(vc)), 'get_vertices')
                    # Extension to the domain and back.
                    dofs = nm.arange(field.n_nod, dtype=float)[:, None] + 5
                    ext = field.extend_dofs(dofs)
                    require(ext.shape == (cmesh.n_coor, 1), 'extend shape')
                    for iv in range(cmesh.n_coor):
                        if iv in vc:
                            loc = nm.argwhere(vc == iv)[0]
                            ev = dofs[econn[loc[0], loc[1]], 0]
                        else:
                            ev = 5.0
                        require(ext[iv, 0] == ev, 'extend_dofs')
                    require(nm.array_equal(field.remove_extra_dofs(dofs),
                                           dofs[:field.n_vertex_dof]),
                            'remove_extra_dofs')
                # get_econn of all subregions.
                for k2 in range(1, kk + 1):
                    for c2 in itertools.combinations(range(kk), k2):
                        cs = [cells[ii] for ii in c2]
                        key = (dim, tuple(cs))
                        reg = get_region(dim, tuple(cs))
                        ec = field.get_econn('cell', reg)
                        require(nm.array_equal(ec, econn[list(c2)]),
                                'get_econn of %s', cs)
                        acc.transitions += 1
                acc.outcome('field of %d cells' % kk)
            if field is None: continue
            acc.states += 1
            with acc.case(ident + ' poly'):
                if nodal and not field.force_bubble:
                    _check_poly(field, desc, basis, int(str(ao)[0]))
            if disc:
                with acc.case(ident + ' disc'):
                    bdofs = field.get_dofs_in_region(sub)
                    require(sorted(bdofs.tolist())
                            == list(range(field.n_nod)), 'DOFs of the region')
                    require(field.n_nod == field.econn.size, 'n_nod')
                    if str(ao)[0] == '2':
                        # A linear function is averaged within cells.
                        lin = nm.arange(1., 1 + dim)
                        dofs = (field.coors @ lin)[:, None]
                        vc = vconn.indices.reshape((ncell, -1))[list(cells)]
                        cvals = (cmesh.get_centroids(dim) @ lin)[list(cells)]
                        vols = cmesh.get_volumes(dim)[list(cells)]
                        eref = nm.full((cmesh.n_coor, 1), dofs.min())
                        for iv in nm.unique(vc):
                            ic = (vc == iv).any(1)
                            eref[iv] = (cvals * vols)[ic].sum() / vols[ic].sum()
                        ext = field.extend_dofs(dofs)
                        emin = ext[nm.setdiff1d(nm.arange(cmesh.n_coor), vc)]
                        rem = field.remove_extra_dofs(dofs)
                        used = nm.unique(vc)
                        require(rem.shape == (len(used), 1), 'remove shape')
                        require(nm.abs(rem - eref[used]).max() < 1e-12,
                                'averages %s, not %s', rem, eref[used])
                        require(nm.abs(ext[used] - eref[used]).max() < 1e-12,
                                'extend')
                    else:
                        dofs = nm.arange(field.n_nod, dtype=float)[:, None]
                        rem = field.remove_extra_dofs(dofs)
                        require(nm.array_equal(rem, dofs), 'remove_extra')
                        ext = field.extend_dofs(dofs)
                        require(ext.shape[0] == ncell, 'extend shape')
                        eref = nm.zeros((ncell, 1))
                        eref[list(cells)] = dofs
                        require(nm.array_equal(ext, eref), 'extend %s', ext)
                continue
            ed = entity_dofs(field, desc)
            for dd, ents in queries:
                with acc.case('%s in (%d, %s)' % (ident, dd, ents)):
                    reg = get_region(dd, ents)
                    expected = set()
                    for d2 in range(dim + 1):
                        if not reg.can[d2]: continue
                        for ie in reg.get_entities(d2):
                            expected |= ed.get((d2, _verts_of(cmesh, d2, ie)),
                                               set())
                    got = field.get_dofs_in_region(reg)
                    require(len(set(got.tolist())) == len(got),
                            'repeated DOFs')
                    require(set(got.tolist()) == expected,
                            'DOFs %s, expected %s', sorted(got.tolist()),
                            sorted(expected))
                acc.transitions += 1

def _run_mixed(group, acc):
    """
    Fields on the cells of one kind of a mesh with several kinds are the same
    as the fields on the mesh of those cells only.
    """
    from sfepy.discrete.fem import FEDomain, Mesh
    mname, idesc, basis, ao = group[1:]
    coors, conns, descs = meshes.data(mname)
    dom = FEDomain('d', meshes.mesh(mname))
    desc = descs[idesc]
    conn = conns[idesc]
    ref = FEDomain('r', Mesh.from_data('r', coors, None, [conn],
                                       [nm.zeros(len(conn), dtype=nm.int32)],
                                       [desc]))
    cmesh = dom.cmesh
    dim = cmesh.tdim
    vc = cmesh.get_conn(dim, 0)
    where = [ii for ii in range(cmesh.n_el)
             if vc.offsets[ii+1] - vc.offsets[ii] == conn.shape[1]]
    for kk in range(1, len(where) + 1):
        for sel in itertools.combinations(range(len(where)), kk):
            cells = [where[ii] for ii in sel]
            with acc.case('mixed %s %s %s%s %s' % (mname, desc, basis, ao,
                                                   sel)):
                reg = dom.create_region('S' + '_'.join(map(str, sel)),
                                        'cell ' + ', '.join(map(str, cells)))
                rreg = ref.create_region('S' + '_'.join(map(str, sel)),
                                         'cell ' + ', '.join(map(str, sel)))
                field = _field(reg, basis, ao)
                rfield = _field(rreg, basis, ao)
                require(field.gel.name == desc, 'geometry')
                # Cell order may differ within the cmesh: match by vertices.
                va = [vc.indices[vc.offsets[ic]:vc.offsets[ic+1]].tolist()
                      for ic in cells]
                rvc = ref.cmesh.get_conn(dim, 0)
                vb = [rvc.indices[rvc.offsets[ic]:rvc.offsets[ic+1]].tolist()
                      for ic in sel]
                require(va == vb, 'cells')
                mp = {}
                for da, db in zip(field.econn.ravel().tolist(),
                                  rfield.econn.ravel().tolist()):
                    require(mp.setdefault(da, db) == db, 'DOFs joined')
                require(len(set(mp.values())) == len(mp) == field.n_nod
                        == rfield.n_nod, 'DOFs split')
                require(nm.allclose(field.coors[field.econn],
                                    rfield.coors[rfield.econn],
                                    rtol=0, atol=1e-12), 'node coordinates')
                if field.ori is not None:
                    # Orientations of odd functions: continuity by traces.
                    require(nm.array_equal(field.ori, rfield.ori), 'ori')
                dofs = field.get_dofs_in_region(reg)
                require(sorted(dofs.tolist()) == list(range(field.n_nod)),
                        'DOFs in region')
                for ii, ic in enumerate(cells):
                    creg = _cell_region(dom, ic)
                    dofs = field.get_dofs_in_region(creg)
                    require(sorted(dofs.tolist())
                            == sorted(field.econn[ii].tolist()), 'cell DOFs')
                acc.outcome('mixed %d cells' % kk)
            acc.transitions += 1
    acc.states += 1

def _cell_region(dom, ic):
    try:
        return dom.regions['C%d' % ic]
    except (KeyError, ValueError, IndexError):
        return dom.create_region('C%d' % ic, 'cell %d' % ic)

def _run_setdofs(group, acc):
    """
    Setting of DOFs in regions, all kinds of values and numbers of components.
    """
    from sfepy.discrete.fem import FEDomain
    mname, nmax = group[1:]
    dom = FEDomain('d', meshes.mesh(mname))
    omega = dom.create_region('Omega', 'all')
    desc = dom.mesh.descs[0]
    cmesh = dom.cmesh
    dim = cmesh.tdim
    bases = [bb for bb in SPACES[desc] if bb[0] in
             ('lagrange', 'lobatto', 'serendipity', 'sem')
             and not str(bb[1]).endswith('B')]
    verts = range(cmesh.n_coor)
    for basis, ao in bases:
        for ncomp in (1, 2, 3):
            field = _field(omega, basis, ao, ncomp)
            for kk in range(1, nmax + 1):
                for ents in itertools.combinations(verts, kk):
                    rname = 'V' + '_'.join(map(str, ents))
                    try:
                        reg = dom.regions[rname]
                    except (KeyError, ValueError, IndexError):
                        reg = dom.create_region(
                            rname, 'vertex ' + ', '.join(map(str, ents)),
                            'vertex')
                    dofs = sorted(field.get_dofs_in_region(reg).tolist())
                    nvert = [d for d in dofs if d < field.n_vertex_dof]
                    for kind in ('scalar', 'int', 'fun', 'flat', 'array'):
                        if kind == 'array' and basis == 'lobatto': continue
                        ident = 'setdofs %s %s%s %d %s %s' % (
                            mname, basis, ao, ncomp, ents, kind)
                        with acc.case(ident):
                            _check_set(field, reg, dofs, nvert, ncomp, kind,
                                       basis)
                            acc.outcome('%s %s' % (basis, kind))
                        acc.transitions += 1
            acc.states += 1

def _check_set(field, reg, dofs, nvert, ncomp, kind, basis):
    def ref(xx):
        return nm.stack([xx @ nm.arange(1., 1 + xx.shape[1]) * (ii + 1)
                         + 10 * ii for ii in range(ncomp)], axis=1)
    if kind == 'scalar':
        nods, vals = field.set_dofs(2.5, reg)
        exp = nm.full((len(dofs), ncomp), 2.5)
    elif kind == 'int':
        nods, vals = field.set_dofs(3, reg)
        exp = nm.full((len(dofs), ncomp), 3.)
    elif kind == 'array':
        aa = nm.arange(ncomp) + 0.5
        nods, vals = field.set_dofs(aa, reg)
        exp = nm.tile(aa, (len(dofs), 1))
    elif kind == 'fun':
        nods, vals = field.set_dofs(ref, reg)
        exp = ref(field.get_coor(nm.array(dofs)))
    else:
        nods, vals = field.set_dofs(lambda xx: ref(xx).ravel(), reg)
        exp = ref(field.get_coor(nm.array(dofs)))
    if basis == 'lobatto':
        # Linear functions are in the vertex DOFs.
        exp[[ii for ii, d in enumerate(dofs) if d not in nvert]] = 0.0
    require(nods.tolist() == dofs, 'nodes %s, not %s', nods.tolist(), dofs)
    require(vals.shape == exp.shape, 'shape %s', vals.shape)
    require(nm.abs(vals - exp).max() < 1e-12, 'values %s, not %s',
            vals.tolist(), exp.tolist())

def _run_surface(group, acc):
    """
    Facet connectivity and surface fields: each connected facet row holds the
    DOFs on the facet, the trace of a polynomial is reproduced in all the facet
    subsets.
    """
    from sfepy.discrete.fem import FEDomain
    from sfepy.discrete import Integral
    from sfepy.discrete.common.mappings import get_physical_qps
    mname = group[1]
    dom = FEDomain('d', meshes.mesh(mname))
    omega = dom.create_region('Omega', 'all')
    desc = dom.mesh.descs[0]
    cmesh = dom.cmesh
    dim = cmesh.tdim
    surf = dom.create_region('Surf', 'vertices of surface', 'facet')
    facets = surf.entities[dim - 1].tolist()
    subsets = []
    for kk in range(1, len(facets) + 1):
        for sel in itertools.combinations(facets, kk):
            if (kk > 2) and (kk < len(facets)): continue
            subsets.append(sel)
    for basis, ao in SPACES[desc]:
        if (basis == 'lobatto') or (str(ao) == '0'): continue
        nodal = basis in ('lagrange', 'sem', 'serendipity')
        field = _field(omega, basis, ao)
        ed = entity_dofs(field, desc)
        order = int(str(ao)[0])
        for sel in subsets:
            ident = 'surface %s %s%s %s' % (mname, basis, ao, sel)
            rname = 'F' + '_'.join(map(str, sel))
            try:
                reg = dom.regions[rname]
            except (KeyError, ValueError, IndexError):
                what = 'edge' if dim == 2 else 'face'
                reg = _facet_region(dom, rname, dim - 1, sel)
            with acc.case(ident):
                conn = field.get_econn('facet', reg)
                require(conn.shape[0] == len(sel), 'number of facets')
                rows = sorted(tuple(sorted(row)) for row in conn.tolist())
                exp = sorted(tuple(sorted(ed[(dim - 1,
                                              _verts_of(cmesh, dim - 1, ii))]))
                             for ii in sel)
                require(rows == exp, 'facet DOFs %s, not %s', rows, exp)
                sd = field.extra_data['sd_' + reg.name]
                require(nm.array_equal(sd.nodes[sd.leconn], sd.econn),
                        'nodes[leconn] == econn')
                integral = Integral('i', order=2)
                geo, _ = field.get_mapping(reg, integral, 'facet')
                pqps = get_physical_qps(reg, integral).values
                pqps = pqps.reshape((len(sel), -1, dim))
                if nodal and not field.force_bubble:
                    for ee in monomials(desc, basis, order):
                        vals = nm.prod(field.coors ** nm.array(ee), axis=1)
                        num = nm.einsum('fqi,fi->fq', nm.broadcast_to(
                            geo.bf[:, :, 0, :],
                            (len(sel),) + geo.bf.shape[1:2] + geo.bf.shape[3:]),
                                        vals[conn])
                        ref = nm.prod(pqps ** nm.array(ee), axis=2)
                        require(nm.abs(num - ref).max() < 1e-9,
                                'trace of %s: %s, not %s', ee, num, ref)
                # The trace is that of the volume field.
                dofs = nm.cos(1.0 + 2 * nm.arange(field.n_nod))
                fbf = nm.broadcast_to(
                    geo.bf[:, :, 0, :],
                    (len(sel),) + geo.bf.shape[1:2] + geo.bf.shape[3:])
                num = nm.einsum('fqi,fi->fq', fbf, dofs[conn])
                for ii, (ic, _) in enumerate(reg.get_facet_indices()):
                    vols = field_values(field, dofs, pqps[ii], ic)
                    require(nm.abs(num[ii] - vols).max() < 1e-9,
                            'trace in cell %d: %s, not %s', ic, num[ii], vols)
                acc.outcome('%s%s, %d facets' % (basis, ao, len(sel)))
            acc.transitions += 1
            if basis == 'lagrange' and (order == 1) and len(str(ao)) == 1:
                with acc.case(ident + ' field'):
                    sf = _field(reg, basis, ao, name='s')
                    require(sf.is_surface, 'is_surface')
                    verts = sorted(set().union(
                        *[_verts_of(cmesh, dim - 1, ii) for ii in sel]))
                    require(sf.n_nod == len(verts), 'n_nod %d', sf.n_nod)
                    require(nm.array_equal(sf.coors, cmesh.coors[verts]),
                            'coors')
                    ec = sf.get_econn('facet', reg)
                    rows = sorted(tuple(sorted(verts[ii] for ii in row))
                                  for row in ec.tolist())
                    exp = sorted(tuple(sorted(_verts_of(cmesh, dim - 1, ii)))
                                 for ii in sel)
                    require(rows == exp, 'surface field facets')
                    dofs = sf.get_dofs_in_region(reg)
                    require(sorted(dofs.tolist()) == list(range(len(verts))),
                            'DOFs in region')
                    nods, vals = sf.set_dofs(lambda xx: xx[:, 0], reg)
                    require(nm.allclose(vals[:, 0],
                                        cmesh.coors[verts][:, 0]), 'values')
        acc.states += 1

INV = {'2_3': [1, 2], '2_4': [1, 3], '3_4': [1, 2, 3], '3_8': [1, 3, 4]}

def field_values(field, dofs, points, ic):
    """
    Values of a field in points of a parallelogram-like cell.
    """
    cmesh = field.domain.cmesh
    gel = field.gel
    xc = cmesh.coors[cmesh.get_conn(gel.dim, 0).indices.reshape(
        (-1, gel.n_vertex))[ic]]
    mat = nm.stack([xc[k] - xc[0] for k in INV[gel.name]])
    xi = nm.linalg.solve(mat.T, (points - xc[0]).T).T
    bf = field.poly_space.eval_basis(nm.ascontiguousarray(nm.clip(xi, 0, 1)))
    return bf[:, 0, :] @ dofs[field.econn[ic]]

def _facet_region(dom, name, dd, ents):
    from sfepy.discrete.common.region import Region
    reg = Region(name, name, dom, '', kind='facet')
    reg.entities[dd] = nm.array(ents, dtype=nm.uint32)
    reg.is_empty = False
    reg.finalize()
    reg.update_shape()
    dom.regions.append(reg)
    return reg

def _run_output(group, acc):
    """
    Vertex interpolation, averaging and the linearized output.
    """
    from sfepy.discrete.fem import FEDomain
    mname = group[1]
    dom = FEDomain('d', meshes.mesh(mname))
    omega = dom.create_region('Omega', 'all')
    desc = dom.mesh.descs[0]
    cmesh = dom.cmesh
    dim = cmesh.tdim
    ncell = cmesh.n_el
    for kk in range(1, ncell + 1):
        for cells in itertools.combinations(range(ncell), kk):
            sub = omega if kk == ncell else dom.create_region(
                'S' + '_'.join(map(str, cells)),
                'cell ' + ', '.join(map(str, cells)), 'cell')
            for basis, ao in [tuple(group[2:])]:
                nodal = (basis in ('lagrange', 'sem', 'serendipity'))
                order = int(str(ao)[0])
                field = _field(sub, basis, ao, 2)
                ident = 'output %s %s%s %s' % (mname, basis, ao, cells)
                disc = 'd' in str(ao)
                lin = nm.arange(1., 1 + dim)
                with acc.case(ident + ' average'):
                    if disc and order:
                        vals = (field.coors @ lin)[:, None] * [1, 2.] + [1, 5.]
                        const = nm.ones((field.n_nod, 2)) * [3., 4.]
                        # Constants are preserved by averaging.
                        # (vertex DOFs are not defined here).
                if nodal and not disc and not field.force_bubble:
                    with acc.case(ident + ' interp'):
                        verts = field.get_vertices()
                        vv = (cmesh.coors[verts] @ lin)[:, None] * [1, 2.]
                        out = field.interp_v_vals_to_n_vals(vv)
                        exp = (field.coors @ lin)[:, None] * [1, 2.]
                        require(nm.abs(out - exp).max() < 1e-12,
                                'interp_v_vals_to_n_vals')
                        data, integral = field.interp_to_qp(exp)
                        geo, _ = field.get_mapping(sub, integral, 'cell')
                        vout = field.average_qp_to_vertices(
                            nm.ones_like(data) * 3.0, integral)
                        require(vout.shape == (len(verts), 2), 'average')
                        require(nm.abs(vout - 3).max() < 1e-12,
                                'average of a constant')
                        # Averages are weighted by volumes.
                        data = nm.zeros_like(data)
                        data[0] = 1.0
                        vout = field.average_qp_to_vertices(data, integral)
                        vols = cmesh.get_volumes(dim)
                        vc = cmesh.get_conn(dim, 0).indices.reshape(
                            (ncell, -1))
                        for ii, iv in enumerate(verts):
                            cs = [c for c in cells if iv in vc[c]]
                            exp = (vols[cells[0]] if cells[0] in cs else 0) \
                                / sum(vols[c] for c in cs)
                            require(nm.abs(vout[ii] - exp).max() < 1e-12,
                                    'vertex average %s, not %s', vout[ii], exp)
                if disc:
                    continue
                # Linearization.
                if 2 < kk < ncell: continue
                for coefs in ('lin', 'high'):
                    with acc.case(ident + ' linearize ' + coefs):
                        rng = nm.arange(field.n_nod)
                        if coefs == 'lin':
                            if not nodal or field.force_bubble: continue
                            dofs = (field.coors @ lin)[:, None] * [1, 2.]
                        else:
                            dofs = nm.stack([nm.cos(3 * rng), rng % 3.], 1)
                        mesh, vdofs, level = field.linearize(
                            dofs, min_level=1, max_level=2, eps=1e-2)
                        _check_linearized(field, dofs, mesh, vdofs)
                        acc.outcome('linearize %s %s' % (coefs, level))
                acc.transitions += 1
            acc.states += 1

def _check_linearized(field, dofs, mesh, vdofs):
    """
    The output values are the values of the field, the output cells cover it.
    """
    cmesh = field.domain.cmesh
    gel = field.gel
    require(vdofs.shape == (mesh.n_nod, dofs.shape[1]), 'shape %s',
            vdofs.shape)
    conn = mesh.get_conn(mesh.descs[0])
    vol = abs(mesh.cmesh.get_volumes(gel.dim)).sum()
    ref = cmesh.get_volumes(gel.dim)[field.region.cells].sum()
    require(abs(vol - ref) < 1e-10, 'volume %s, not %s', vol, ref)
    # Inverse mapping on affine (parallelogram) cells.
    vconn = cmesh.get_conn(gel.dim, 0).indices.reshape(
        (-1, gel.n_vertex))[field.region.cells]
    xc = cmesh.coors[vconn]
    ref = gel.coors
    ii = INV[gel.name]
    todo = nm.zeros(mesh.n_nod, dtype=bool)
    mat = nm.stack([xc[:, k] - xc[:, 0] for k in ii], axis=1)
    candidates = {}
    for ic in range(len(xc)):
        xi = nm.linalg.solve(mat[ic].T, (mesh.coors - xc[ic, 0]).T).T
        inside = (xi > -1e-9).all(1) & (xi < 1 + 1e-9).all(1)
        if gel.name in ('2_3', '3_4'):
            inside &= xi.sum(1) < 1 + 1e-9
        idx = nm.where(inside)[0]
        if not len(idx): continue
        bf = eval_bf(field, nm.ascontiguousarray(nm.clip(xi[idx], 0, 1)))[ic]
        vals = bf @ dofs[field.econn[ic]]
        ok = nm.abs(vals - vdofs[idx]).max(1) < 1e-8
        todo[idx[ok]] = True
    require(todo.all(), '%d linearized values differ', (~todo).sum())
