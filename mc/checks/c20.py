"""
C20: generated and transformed meshes.
"""
import itertools
import pickle

import numpy as nm

from mc import meshes
from mc.checks.c17 import facets_of, measure, perms_of, volumes
from mc.core import require

PID = 'C20'
LEVEL = 'exploration'
RULE = ('a case = a generator or a transformation of meshes with its'
        ' arguments; distinct by these; all are non-trivial')
ASSUMPTIONS = ['faces of extruded and revolved cells are planar, so that'
               ' volumes are those of simplices',
               'cells of generated blocks extended by mirroring may be'
               ' inverted, this is corrected in domains']
BOUNDS = {
    'quick': 'blocks and cylinders with 2-4 nodes in directions; all voxel'
             ' arrays up to 2x3 and 2x2x2; all tilings up to 3x2x2; all'
             ' partitions of duplicated nodes of four triangles; all'
             ' rotations of cells of extruded, revolved and mirrored meshes'
             ' of two cells; all selections by groups; all polylines of up'
             ' to four segments',
    'thorough': 'voxels up to 3x4 and 2x2x3, polylines of five segments, all'
                ' rotations of three cells, all partitions of five triangles',
}
LIMIT = 850

# Helpers.
_WEDGE = [(0, 1, 2, 5), (0, 1, 5, 4), (0, 4, 5, 3)]

def cell_volumes(coors, conn, desc):
    if desc == '3_6':
        out = []
        for tt in _WEDGE:
            cc = coors[conn[:, list(tt)]]
            out.append(nm.linalg.det(cc[:, 1:] - cc[:, :1]) / 6.0)
        return nm.array(out).sum(0)
    return volumes(coors, conn, desc).sum(1)

def descs_of(mesh):
    require(len(set(mesh.descs)) == len(mesh.descs),
            'repeated kinds of cells %s', mesh.descs)
    return list(mesh.descs)

def iter_cells(mesh):
    """
    (desc, vertex ids, group) of cells.
    """
    for desc in descs_of(mesh):
        tdim = int(desc[0])
        cm = mesh.cmesh_tdim[tdim]
        conn, ids = mesh.get_conn(desc, ret_cells=True, tdim=tdim)
        for row, ic in zip(conn, ids):
            yield desc, row, int(cm.cell_groups[ic])

def rnd(xx):
    return tuple(float(ii) + 0.0 for ii in nm.round(xx, 7))

def contents(mesh, ordered=True):
    """
    The cells by coordinates and groups of their vertices.
    """
    vgs = mesh.cmesh.vertex_groups
    out = []
    for desc, row, gr in iter_cells(mesh):
        vs = [(rnd(mesh.coors[ii]), int(vgs[ii])) for ii in row]
        out.append((desc, tuple(vs) if ordered else tuple(sorted(vs)), gr))
    return sorted(out, key=repr)

def check_vertices(mesh, unused=False):
    coors = mesh.coors
    require(nm.isfinite(coors).all(), 'coordinates are not finite')
    require(len(set(map(rnd, coors))) == len(coors), 'duplicate vertices')
    used = sorted(set(int(ii) for _, row, _ in iter_cells(mesh)
                      for ii in row))
    if not unused:
        require(used == list(range(len(coors))), 'vertices without cells')
    require(mesh.n_nod == len(coors), 'n_nod %d', mesh.n_nod)
    require(mesh.n_el == len(list(iter_cells(mesh))), 'n_el %d', mesh.n_el)

def all_facets(mesh):
    out = {}
    for desc in descs_of(mesh):
        conn = mesh.get_conn(desc)
        for key, val in facets_of(conn, desc).items():
            out.setdefault(key, []).extend(val)
    return out

def boundary(mesh):
    facets = all_facets(mesh)
    require(all(len(ii) <= 2 for ii in facets.values()), 'facets of 3 cells')
    return sum(measure(mesh.coors[ii[0][1]]) for ii in facets.values()
               if len(ii) == 1)

def check_solid(mesh, vol=None, area=None, positive=True):
    vols = nm.concatenate([cell_volumes(mesh.coors, mesh.get_conn(desc), desc)
                           for desc in descs_of(mesh)])
    if positive: require((vols > 0).all(), 'volumes of cells %s', vols)
    if vol is not None:
        require(abs(nm.abs(vols).sum() - vol) < 1e-8 * max(1, abs(vol)),
                'volume %s, expected %s', nm.abs(vols).sum(), vol)
    if area is not None:
        out = boundary(mesh)
        require(abs(out - area) < 1e-8 * max(1, area),
                'area of the boundary %s, expected %s: cells do not match',
                out, area)
    return vols

def mk(coors, conns, descs, groups=None, vgs=None):
    from sfepy.discrete.fem import Mesh
    coors = nm.array(coors, dtype=nm.float64)
    if groups is None:
        groups, off = [], 1
        for conn in conns:
            groups.append(nm.arange(len(conn)) % 3 + off)
            off += 1
    if vgs is None: vgs = nm.arange(len(coors)) % 4
    return Mesh.from_data('m', coors, vgs,
                          [nm.array(cc, dtype=nm.int32) for cc in conns],
                          [nm.array(gg, dtype=nm.int32) for gg in groups],
                          list(descs))

# Generators.
def run_block(acc, tier):
    from sfepy.mesh.mesh_generators import (gen_block_mesh,
                                            get_tensor_product_conn)
    nums = (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5)
    for dim in (1, 2, 3):
        for shape in itertools.product(nums, repeat=dim):
            for centre in ([0.0] * 3, [0.5, -1.0, 2.0]):
                with acc.case(['block', shape, centre]):
                    dims = [2.0, 1.5, 0.75]
                    mesh = gen_block_mesh(dims, shape, centre, mat_id=3,
                                          name='nn', verbose=False)
                    check_vertices(mesh)
                    require(mesh.name == 'nn', 'name')
                    steps = [dims[ii] / (shape[ii] - 1) for ii in range(dim)]
                    x0 = [centre[ii] - 0.5 * dims[ii] for ii in range(dim)]
                    ref, rconn = meshes._grid_conn(shape)
                    desc = {1 : '1_2', 2 : '2_4', 3 : '3_8'}[dim]
                    rmesh = mk(ref * steps + x0, [rconn], [desc],
                               [[3] * len(rconn)], [0] * len(ref))
                    require(contents(mesh) == contents(rmesh),
                            'cells of the block')
                    require(nm.allclose(mesh.coors, rmesh.coors),
                            'coordinates')
                    conn, desc2 = get_tensor_product_conn(shape)
                    require(desc2 == desc and (conn == mesh.get_conn(desc)
                                               ).all(), 'connectivity')
                    acc.outcome(('block', dim))

def run_cylinder(acc, tier):
    from sfepy.mesh.mesh_generators import gen_cylinder_mesh
    radii = [(1.0, 1.0, 2.0, 2.0), (0.0, 0.0, 2.0, 2.0),
             (1.0, 0.5, 2.0, 3.0), (0.5, 1.0, 1.5, 1.25)]
    for rr, nr, nfi, nl, axis, (is_open, oa), nonu, kind, centre in \
      itertools.product(radii, (2, 3), (3, 4, 5), (2, 3), 'xyz',
                        ((False, 0.0), (True, 0.25), (True, 0.5)),
                        (False, True), ('3d', 'flat', '2d', 'hollow'),
                        ([0.0, 0.0, 0.0], [0.5, -1.0, 2.0])):
        if kind == 'hollow' and rr[0] > 0: continue
        if kind != '3d' and nl > 2: continue
        if kind == '2d' and axis != 'z': continue
        with acc.case(['cylinder', rr, nr, nfi, nl, axis, is_open, oa, nonu,
                       kind, centre]):
            length = 0.0 if kind == 'flat' else 1.5
            mesh = gen_cylinder_mesh(rr + (length,), (nr, nfi, nl), centre,
                                     axis=axis,
                                     force_hollow=kind == 'hollow',
                                     is_open=is_open, open_angle=oa,
                                     non_uniform=nonu, make_2d=kind == '2d',
                                     verbose=False)
            hollow = rr[0] > 0 or kind == 'hollow'
            flat = kind in ('flat', '2d')
            # The coordinates of rings.
            tt = nm.linspace(0, 1, nr)
            if nonu:
                ras = nm.sqrt(rr[0] ** 2 + tt * (rr[2] ** 2 - rr[0] ** 2))
                rbs = nm.sqrt(rr[1] ** 2 + tt * (rr[3] ** 2 - rr[1] ** 2))
            else:
                ras = rr[0] + tt * (rr[2] - rr[0])
                rbs = rr[1] + tt * (rr[3] - rr[1])
            fis = nm.linspace(oa, 2 * nm.pi - oa, nfi + 1)
            if not is_open: fis = fis[:-1]
            zs = [0.0] if flat else nm.linspace(0, length, nl) - length / 2
            order = {'x' : [0, 1, 2], 'y' : [2, 0, 1], 'z' : [1, 2, 0]}[axis]
            exp = set()
            for (ra, rb), fi, zz in itertools.product(zip(ras, rbs), fis, zs):
                xx = nm.array([zz, ra * nm.cos(fi), rb * nm.sin(fi)])
                if kind == '2d': xx = xx[1:] + centre[:2]
                else: xx = xx[order] + centre
                exp.add(rnd(xx))
            require(set(map(rnd, mesh.coors)) == exp,
                    'vertices around %s instead of %s',
                    mesh.coors.mean(0), nm.mean(list(exp), axis=0))
            if not (rr[0] == 0 and kind == 'hollow'):
                require(len(mesh.coors) == len(exp), 'duplicate vertices')
            else:
                num = nr * len(fis) * len(zs)
                require(len(mesh.coors) == num, 'n_nod %d', len(mesh.coors))
            desc, = mesh.descs
            require(desc == ('2_4' if flat else '3_8'), 'cells %s', desc)
            conn = mesh.get_conn(desc)
            num = (nr - 1) * nfi * (1 if flat else nl - 1)
            require(len(conn) == num, 'n_el %d', len(conn))
            # Sizes of cells.
            ff = nm.linspace(oa, 2 * nm.pi - oa, nfi + 1)
            ps = (nm.multiply.outer(ras, nm.cos(ff))
                  + 1j * nm.multiply.outer(rbs, nm.sin(ff)))
            d1, d2 = ps[1:, 1:] - ps[:-1, :-1], ps[:-1, 1:] - ps[1:, :-1]
            sizes = 0.5 * (d1.conj() * d2).imag.ravel()
            if not flat: sizes = nm.repeat(sizes, nl - 1)
            if not flat: sizes *= length / (nl - 1)
            coors = mesh.coors
            if kind == 'flat': coors = coors[:, [order.index(1),
                                                 order.index(2)]]
            out = cell_volumes(coors, conn, desc)
            require(nm.allclose(nm.abs(out), sizes), 'sizes of cells %s,'
                    ' expected %s', out, sizes)
            if kind != 'flat':
                require((out > 0).all(), 'orientation of cells')
            acc.outcome(('cylinder', kind, axis))

def run_extended(acc, tier):
    from sfepy.mesh.mesh_generators import gen_extended_block_mesh
    nums = (2, 3) if tier == 'quick' else (2, 3, 4)
    for shape, num, fun, centre in itertools.product(
            itertools.product(nums, repeat=3), (2, 3, 4),
            (None, lambda xx: xx, lambda xx: xx ** 2),
            ([0.0, 0.0, 0.0], [0.5, -1.0, 2.0])):
        kind = None if fun is None else fun(0.5)
        with acc.case(['extended', shape, num, kind, centre]):
            bd, ed = [1.0, 2.0, 1.5], [3.5, 7.0, 4.5]
            mesh = gen_extended_block_mesh(bd, shape, ed, num, centre, fun,
                                           name='nn')
            check_vertices(mesh)
            require(mesh.name == 'nn', 'name')
            box = mesh.get_bounding_box()
            require(nm.allclose(box, [nm.array(centre) - 0.5 * nm.array(ed),
                                      nm.array(centre) + 0.5 * nm.array(ed)]),
                    'bounding box %s', box)
            # The area of the boundary, as no cells overlap.
            check_solid(mesh, nm.prod(ed), positive=False)
            facets = all_facets(mesh)
            lim = 0.5 * nm.array(ed)
            for ff in facets.values():
                require(len(ff) <= 2, 'facets of 3 cells')
                if len(ff) == 1:
                    xx = nm.abs(mesh.coors[ff[0][1]] - centre)
                    require((nm.abs(xx - lim) < 1e-8).all(0).any(),
                            'a boundary facet inside')
            n_b, n_e = nm.prod(nm.array(shape) - 1), num - 1
            exp = {0 : n_b}
            for ii in range(3):
                side = n_b // (shape[ii] - 1) * n_e
                exp[10 * ii + 10] = exp[10 * ii + 11] = side
            grs = mesh.cmesh.cell_groups
            require({int(ii) : int((grs == ii).sum())
                     for ii in nm.unique(grs)} == exp, 'groups')
            cc = mesh.coors[mesh.get_conn('3_8')].mean(1) - centre
            for gr, xx in zip(grs, cc):
                rel = nm.abs(xx) / (0.5 * nm.array(bd))
                if gr == 0: require((rel < 1).all(), 'a cell of group 0')
                else:
                    ax, neg = gr // 10 - 1, gr % 10
                    require(rel[ax] > 1 and (xx[ax] < 0) == neg,
                            'a cell of group %d at %s', gr, xx)
            acc.outcome(('extended', num))

def run_tiled(acc, tier):
    from sfepy.mesh.mesh_generators import gen_tiled_mesh
    cells = []
    for name in ('quad2', 'quad4', 'tri4', 'hex2', 'tet6'):
        try: coors, conns, descs = meshes.data(name)
        except Exception: continue
        if len(descs) == 1: cells.append((name, coors, conns[0], descs[0]))
    for name, coors, conn, desc in cells:
        coors = nm.array(coors, dtype=float)
        dim = coors.shape[1]
        if name == 'tet6' and dim != 3: continue
        reps = ((1, 2, 3),) + ((1, 2),) * (dim - 1)
        for grid, num, scale in itertools.product(
                itertools.product(*reps), ('id', 'rev', 'm3'), (1.0, 0.5)):
            with acc.case(['tiled', name, grid, num, scale]):
                from mc.checks.c19 import _numbering
                vp = _numbering(num, len(coors))
                cc = nm.empty_like(coors)
                cc[vp] = coors * [1.0, 1.25, 1.5][:dim] + 0.5
                mesh0 = mk(cc, [vp[conn]], [desc],
                           vgs=nm.zeros(len(coors)))
                bb = mesh0.get_bounding_box()
                mesh, ndmap = gen_tiled_mesh(mesh0, list(grid), scale,
                                             ret_ndmap=True)
                mesh2 = gen_tiled_mesh(mesh0, list(grid), scale)
                require((mesh.coors == mesh2.coors).all()
                        and contents(mesh) == contents(mesh2),
                        'different with ret_ndmap')
                check_vertices(mesh)
                exp = []
                for ii in itertools.product(*[range(kk) for kk in grid]):
                    shift = nm.array(ii) * (bb[1] - bb[0])
                    exp += contents(mk((cc + shift) * scale, [vp[conn]],
                                       [desc], vgs=nm.zeros(len(coors))))
                require(contents(mesh) == sorted(exp, key=repr),
                        'cells are not those of the copies')
                rel = (mesh.coors / scale - cc[ndmap]) / (bb[1] - bb[0])
                require(nm.abs(rel - nm.round(rel)).max() < 1e-8, 'ndmap')
                acc.outcome(('tiled', name))

def run_voxels(acc, tier, part):
    from sfepy.mesh.mesh_generators import gen_mesh_from_voxels
    shapes = [(1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2),
              (1, 1, 1), (1, 1, 3), (1, 4, 1), (3, 1, 1), (2, 2, 2),
              (1, 2, 3), (2, 1, 4)]
    if tier == 'thorough': shapes += [(3, 4), (2, 5), (2, 2, 3), (3, 2, 2)]
    ik = 0
    for shape in shapes:
        num = int(nm.prod(shape))
        for mask in range(1, 2 ** num):
            ik += 1
            if ik % 4 != part: continue
            vox = nm.array([(mask >> ii) & 1 for ii in range(num)]
                           ).reshape(shape)
            for etype in 'qt':
                with acc.case(['voxels', shape, mask, etype]):
                    dims = [0.5, 0.25, 2.0][:len(shape)]
                    mesh = gen_mesh_from_voxels(vox, dims, etype)
                    check_vertices(mesh)
                    boxes = set()
                    for ii in zip(*nm.nonzero(vox)):
                        # Rows are y, columns x.
                        jj = (ii[1], ii[0]) + tuple(ii[2:])
                        boxes.add(tuple(int(kk) for kk in jj))
                    n_sub = {'q' : 1, 't2' : 2, 't3' : 6}[
                        etype + (str(len(shape)) if etype == 't' else '')]
                    vols = check_solid(mesh, num and
                                       len(boxes) * nm.prod(dims))
                    require(len(vols) == n_sub * len(boxes), 'n_el')
                    conn = mesh.get_conn(mesh.descs[0])
                    cnt = {}
                    for row in conn:
                        xx = mesh.coors[row].mean(0) / dims
                        key = tuple(int(kk) for kk in nm.floor(xx))
                        cnt[key] = cnt.get(key, 0) + 1
                    require(cnt == {key : n_sub for key in boxes},
                            'cells in voxels %s', cnt)
                    facets = all_facets(mesh)
                    area = 0.0
                    for box in boxes:
                        for ax in range(len(shape)):
                            ff = nm.prod(dims) / dims[ax]
                            for dd in (-1, 1):
                                nb = list(box)
                                nb[ax] += dd
                                if tuple(nb) not in boxes: area += ff
                    out = sum(measure(mesh.coors[ii[0][1]])
                              for ii in facets.values() if len(ii) == 1)
                    require(abs(out - area) < 1e-9, 'boundary %s, expected'
                            ' %s', out, area)
                    acc.outcome(('voxels', shape, etype))

# Merging.
def partitions(num):
    """
    Restricted growth strings.
    """
    def rec(pre, ma):
        if len(pre) == num:
            yield tuple(pre)
            return
        for ii in range(ma + 2):
            yield from rec(pre + [ii], max(ma, ii))
    return rec([], -1)

def run_merge(acc, tier):
    from sfepy.discrete.fem.mesh import fix_double_nodes
    from sfepy.mesh.mesh_tools import merge_nodes
    # Duplicated vertices of triangles around a point.
    num = 4 if tier == 'quick' else 5
    fi = nm.linspace(0, 2 * nm.pi, num, endpoint=False)
    ring = nm.c_[nm.cos(fi), nm.sin(fi)]
    for centre, outer, order in itertools.product(
            partitions(num), itertools.product((0, 1), repeat=num),
            ('id', 'rev', 'm3')):
        with acc.case(['double', centre, outer, order]):
            # Triangles ii : centre, ring[ii], ring[ii+1], the ring vertices
            # either common to neighbours or not.
            coors, vgs, conn = [], [], []
            ids = {}
            def vert(key, xx, gr):
                if key not in ids:
                    ids[key] = len(coors)
                    coors.append(xx)
                    vgs.append(gr)
                return ids[key]
            for ii in range(num):
                jj = (ii + 1) % num
                conn.append([vert(('c', centre[ii]), [0.0, 0.0], 9),
                             vert(('r', ii, 0), ring[ii], ii),
                             vert(('r', jj, outer[jj]), ring[jj], jj)])
            from mc.checks.c19 import _numbering
            vp = _numbering(order, len(coors))
            xx = nm.empty((len(coors), 2))
            xx[vp] = coors
            vg = nm.empty(len(coors), dtype=nm.int32)
            vg[vp] = vgs
            conn = vp[nm.array(conn)]
            mesh0 = mk(xx, [conn[:2], conn[2:]], ['2_3', '2_3'], None, vg) \
                if False else mk(xx, [conn], ['2_3'], None, vg)
            ref = contents(mesh0)
            out = fix_double_nodes(xx.copy(), vg.copy(), [conn.copy()])
            require((nm.array(out[2][0]) >= 0).all(),
                    'fix_double_nodes: missing vertices')
            mesh1 = mk(out[0], out[2], ['2_3'], None, out[1])
            for name, mesh in (('fix_double_nodes', mesh1),
                               ('merge_nodes', merge_nodes(mesh0))):
                require(contents(mesh) == ref, '%s: cells changed', name)
                check_vertices(mesh)
                require(len(mesh.coors) == num + 1, '%s: %d vertices', name,
                        len(mesh.coors))
            acc.outcome(('double', len(set(centre)), sum(outer)))

    # Sums of meshes.
    for dim in (2, 3):
        sh = (3, 2) if dim == 2 else (3, 2, 2)
        coors, conn = meshes._grid_conn(sh)
        coors = nm.array(coors, dtype=float)
        desc = '2_4' if dim == 2 else '3_8'
        from mc.checks.c19 import _numbering
        for n1, n2, shift in itertools.product(
                ('id', 'rev', 'm3', 'odd'), ('id', 'rev', 'm5', 'odd'),
                ([2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [-2.0, 0, 0],
                 [1.0, 1.0, 0.0], [2.0, 1.0, 0.0], [5.0, 0.0, 0.0])):
            with acc.case(['sum', dim, n1, n2, shift]):
                ms = []
                for nn, ss in ((n1, nm.zeros(3)), (n2, nm.array(shift))):
                    vp = _numbering(nn, len(coors))
                    cc = nm.empty_like(coors)
                    cc[vp] = coors + ss[:dim]
                    vg = nm.round(cc.sum(1)).astype(int) % 5
                    ms.append(mk(cc, [vp[conn]], [desc], None, vg))
                mesh = ms[0] + ms[1]
                require(contents(mesh) == sorted(contents(ms[0])
                                                 + contents(ms[1]), key=repr),
                        'cells of the sum')
                check_vertices(mesh)
                require((mesh.coors[:len(coors)] == ms[0].coors).all(),
                        'vertices of the first mesh')
                acc.outcome(('sum', dim, len(mesh.coors)))

# Transformations.
PLANAR = {
    'tri2' : ([[0, 0], [1, 0], [1, 1], [0, 1]],
              [([[0, 1, 2], [0, 2, 3]], '2_3')]),
    'quad2' : ([[0, 0], [1, 0], [2.5, 0], [0, 1], [1, 1], [2, 1]],
               [([[0, 1, 4, 3], [1, 2, 5, 4]], '2_4')]),
    'mix' : ([[0, 0], [1, 0], [2.5, 0], [0, 1], [1, 1], [2, 1]],
             [([[0, 1, 4], [0, 4, 3]], '2_3'), ([[1, 2, 5, 4]], '2_4')]),
    'mixb' : ([[0, 0], [1, 0], [2.5, 0], [0, 1], [1, 1], [2, 1]],
              [([[1, 2, 5, 4]], '2_4'), ([[0, 1, 4], [0, 4, 3]], '2_3')]),
    'tri3' : ([[0, 0], [1, 0], [0, 1], [1, 1.5], [2, 0.25]],
              [([[0, 1, 2], [1, 3, 2], [1, 4, 3]], '2_3')]),
}

def planar(tier, names=None):
    for name in (names or PLANAR):
        coors, parts = PLANAR[name]
        coors = nm.array(coors, dtype=float)
        spec = [(ip, ic, desc) for ip, (conn, desc) in enumerate(parts)
                for ic in range(len(conn))]
        if tier == 'quick' and name != 'tri3': num = ('id', 'rev', 'm3')
        else: num = ('id', 'm3')
        for perms, nn in itertools.product(itertools.product(
                *[perms_of(desc) for _, _, desc in spec]), num):
            from mc.checks.c19 import _numbering
            vp = _numbering(nn, len(coors))
            cc = nm.empty_like(coors)
            cc[vp] = coors
            conns = [vp[nm.array(conn)] for conn, _ in parts]
            for (ip, ic, _), perm in zip(spec, perms):
                conns[ip][ic] = conns[ip][ic][list(perm)]
            yield [name, perms, nn], mk(cc, conns, [dd for _, dd in parts])

def layers(mesh, coors, wedge_to_tetra):
    """
    The reference: cells between given layers of vertices.
    """
    out = []
    vgs = mesh.cmesh.vertex_groups
    for x0, x1 in zip(coors[:-1], coors[1:]):
        for desc, row, gr in iter_cells(mesh):
            vs = tuple((rnd(xx[ii]), int(vgs[ii])) for xx in (x0, x1)
                       for ii in row)
            out.append(('3_%d' % len(vs), vs, gr))
    return sorted(out, key=repr)

def check_layers(mesh, out, coors, tetra, closed=False):
    """
    Judge an extruded mesh.
    """
    ref = layers(mesh, coors, tetra)
    ref_q = [cc for cc in ref if cc[0] == '3_8']
    ref_w = [cc for cc in ref if cc[0] == '3_6']
    cells = contents(out)
    require([cc for cc in cells if cc[0] == '3_8'] == ref_q, 'hexahedra')
    check_vertices(out)
    if not tetra:
        require(cells == ref, 'wedges')
        check_solid(out)
        return
    tets = [cc for cc in cells if cc[0] == '3_4']
    require(len(tets) == 3 * len(ref_w) and len(tets) + len(ref_q)
            == len(cells), 'kinds of cells')
    # Tetrahedra of each wedge.
    wedges = [[frozenset(cc[1]), cc[2], 0.0, 0] for cc in ref_w]
    xyz = lambda vs: nm.array([vv[0] for vv in vs])
    for _, vs, gr in tets:
        own = [ww for ww in wedges if set(vs) <= ww[0]]
        require(len(own) == 1, 'a tetrahedron in no wedge')
        require(own[0][1] == gr, 'the group of a tetrahedron')
        xx = xyz(vs)
        vol = nm.linalg.det(xx[1:] - xx[:1]) / 6.0
        require(vol > 0, 'a negative volume of a tetrahedron')
        own[0][2] += vol
        own[0][3] += 1
    for ww, cc in zip(wedges, ref_w):
        xx = xyz(cc[1])
        vol = cell_volumes(xx, nm.arange(6)[None], '3_6')[0]
        require(ww[3] == 3 and abs(ww[2] - vol) < 1e-6,
                'tetrahedra do not fill a wedge')
    if not ref_q:
        # The same boundary as of the wedges.
        ref_f = {}
        for _, vs, _ in ref_w:
            for fac in meshes.LOCAL['3_6'][2]:
                key = frozenset(vs[ii] for ii in fac)
                ref_f.setdefault(key, []).append([vs[ii][0] for ii in fac])
        area = sum(measure(nm.array(ff[0])) for ff in ref_f.values()
                   if len(ff) == 1)
        res = boundary(out)
        require(abs(res - area) < 1e-5, 'the boundary of tetrahedra %s,'
                ' expected %s: faces of neighbours do not match', res, area)

def rot(vec, fi):
    vec = nm.array(vec, dtype=float)
    vec = vec / nm.linalg.norm(vec)
    kk = nm.array([[0, -vec[2], vec[1]], [vec[2], 0, -vec[0]],
                   [-vec[1], vec[0], 0]])
    return nm.eye(3) + nm.sin(fi) * kk + (1 - nm.cos(fi)) * kk @ kk

def run_extrude(acc, tier, part):
    from sfepy.mesh.mesh_tools import expand2d, extrude
    for ik, (key, mesh) in enumerate(planar(tier)):
        if ik % 4 != part: continue
        x2 = nm.c_[mesh.coors, nm.zeros(len(mesh.coors))]
        cc = x2.mean(0)
        for tetra in (True, False):
            with acc.case(['extrude', key, tetra]):
                line = nm.array([[0, 0, 0], [0, 0, 0.5], [0, 0, 1.5]]) + cc
                scale = [1.0, 0.5]
                out = extrude(mesh, line, scale=scale, wedge_to_tetra=tetra)
                check_layers(mesh, out, [x2, x2 + [0, 0, 0.5],
                                         (x2 - cc) * 0.5 + cc
                                         + [0, 0, 1.5]], tetra)
                # Not along z.
                line = [[1, 2, 3], [1, 2, 4], [1.5, 2, 5]]
                nvec = [[0, 0, 1], [0, 0, 2.0]]
                out = extrude(mesh, line, nvec=nvec, wedge_to_tetra=tetra)
                check_layers(mesh, out, [x2 - cc + xx for xx in line], tetra)
                acc.outcome(('extrude', key[0], tetra))
        with acc.case(['expand', key]):
            out = expand2d(mesh, 0.25, 2)
            check_layers(mesh, out, [x2, x2 + [0, 0, 0.25],
                                     x2 + [0, 0, 0.5]], True)
        with acc.case(['twist', key]):
            line = nm.array([[0, 0, 0], [0, 0, 0.5], [0, 0, 1.5]]) + cc
            for twist in ([0.1, -0.25], 0.2):
                out = extrude(mesh, line, twist=twist, wedge_to_tetra=False)
                tw = [0.2, 0.4] if twist == 0.2 else twist
                ref = [x2] + [(x2 - cc) @ rot([0, 0, 1], fi).T + ll for fi, ll
                              in zip(tw, line[1:])]
                require(contents(out) == layers(mesh, ref, False), 'twist')
        with acc.case(['oblique', key]):
            line = nm.array([[0, 0, 0], [1, 0, 1], [1, 1, 2.0]]) + cc
            out = extrude(mesh, line, wedge_to_tetra=False)
            ref = [x2 - cc + line[0]]
            for l0, l1 in zip(line[:-1], line[1:]):
                vv = (l1 - l0) / nm.linalg.norm(l1 - l0)
                ax = nm.cross([0, 0, 1], vv)
                ref.append((x2 - cc) @ rot(ax, nm.arccos(vv[2])).T + l1)
            require(contents(out) == layers(mesh, ref, False), 'oblique')

def run_revolve(acc, tier, part):
    from sfepy.mesh.mesh_tools import revolve
    names = ('tri2', 'quad2', 'mix') if tier == 'quick' else None
    for ik, (key, mesh) in enumerate(planar(tier, names)):
        if ik % 4 != part: continue
        if tier == 'quick' and key[2] == 'rev': continue
        x2 = nm.c_[mesh.coors, nm.zeros(len(mesh.coors))]
        axes = [([0, -1, 0], [1, 0, 0]), ([-1, 0, 0], [0, -1, 0]),
                ([-1, -1, 0], [1, -1, 0]), ([0, -1, 0], [2, 0, 0]),
                ([0, -3, 0], [3, 1, 0.0]), ([-2, 0, 0], [0, -0.5, 0])]
        iax = range(len(axes)) if ik < 16 or tier == 'thorough' \
            else [ik % len(axes)]
        for ia, (nphi, phi_max) in itertools.product(
                iax, ((3, None), (4, None), (2, 90), (3, 180), (4, 270))):
            tetra = (ik // 4 + ia + nphi) % 2 == 0
            p, v = axes[ia]
            with acc.case(['revolve', key, p, v, nphi, phi_max, tetra]):
                out = revolve(mesh, nphi, p, v, phi_max=phi_max,
                              wedge_to_tetra=tetra)
                fis = nm.linspace(0, nm.deg2rad(phi_max or 360), nphi + 1)
                ref = [(x2 - p) @ rot(v, fi).T + p for fi in fis]
                check_layers(mesh, out, ref, tetra)
                acc.outcome(('revolve', key[0], nphi, phi_max))

def run_mirror(acc, tier):
    from sfepy.mesh.mesh_tools import mirror
    solids = []
    for key, mesh in planar(tier):
        if tier == 'quick' and key[2] == 'rev': continue
        x2 = nm.c_[mesh.coors, nm.zeros(len(mesh.coors))]
        conns = [mesh.get_conn(dd) for dd in mesh.descs]
        grs = [mesh.cmesh.cell_groups[mesh.get_conn(dd, ret_cells=True)[1]]
               for dd in mesh.descs]
        solids.append((['flat', key], mesh, x2, conns, mesh.descs, grs))
    for gname in ('3_4', '3_8'):
        name = {'3_4' : 'tet6', '3_8' : 'hex2'}[gname]
        coors, conns, descs = meshes.data(name)
        coors = nm.array(coors, dtype=float)
        for perm in perms_of(gname):
            conn = nm.array(conns[0]).copy()
            conn[0] = conn[0][list(perm)]
            mm = mk(coors, [conn], descs)
            solids.append((['solid', gname, perm], mm, coors, [conn], descs,
                           [mm.cmesh.cell_groups]))
    for key, mesh, xx, conns, descs, grs in solids:
        for p, v in (([0, 0, 0], [1, 0, 0]), ([0, 0, 0], [0, 2, 0]),
                     ([-1, 0, 0], [1, 0.5, 0]), ([0, 0, 0], [-1, 0, 0])):
            with acc.case(['mirror', key, p, v]):
                out = mirror(mesh, p, v)
                vv = nm.array(v) / nm.linalg.norm(v)
                xm = xx - 2 * ((xx - p) @ vv)[:, None] * vv
                # Vertex groups of merged vertices are those of either.
                def cells(mm, coors):
                    res = []
                    for dd in mm.descs:
                        conn, ids = mm.get_conn(dd, ret_cells=True)
                        for row, ic in zip(conn, ids):
                            res.append((dd, tuple(sorted(map(rnd, coors[row]))),
                                        int(mm.cmesh.cell_groups[ic])))
                    return res
                exp = cells(mesh, xx) + cells(mesh, xm)
                require(sorted(cells(out, out.coors), key=repr)
                        == sorted(exp, key=repr), 'cells')
                check_vertices(out)
                for dd in out.descs:
                    conn = out.get_conn(dd)
                    cc = out.coors if dd[0] == '3' else out.coors[:, :2]
                    vols = cell_volumes(cc, conn, dd)
                    require((vols > 0).all(), 'orientation of cells')
                acc.outcome(('mirror', key[0], tuple(out.descs)))

def run_triangulate(acc, tier):
    from sfepy.mesh.mesh_tools import triangulate
    for dim in (2, 3):
        for shape in itertools.product((2, 3, 4), repeat=dim):
            with acc.case(['triangulate', shape]):
                coors, conn = meshes._grid_conn(shape)
                coors = nm.array(coors, dtype=float)
                desc = '2_4' if dim == 2 else '3_8'
                mesh0 = mk(coors, [conn], [desc])
                mesh = triangulate(mesh0)
                check_vertices(mesh)
                require((mesh.coors == mesh0.coors).all(), 'coordinates')
                require((mesh.cmesh.vertex_groups
                         == mesh0.cmesh.vertex_groups).all(), 'groups')
                check_solid(mesh, len(conn), boundary(mesh0))
                for row, gr in zip(mesh.get_conn(mesh.descs[0]),
                                   mesh.cmesh.cell_groups):
                    own = [ic for ic, cc in enumerate(conn)
                           if set(row) <= set(cc)]
                    require(len(own) == 1, 'cells')
                    require(mesh0.cmesh.cell_groups[own[0]] == gr, 'group')
                require(triangulate(mesh) is mesh, 'simplices kept')
                acc.outcome(('triangulate', dim))

# Selections and copies.
def some_meshes():
    for name in ('quad4', 'tri4', 'mix2d', 'mix2db', 'hex2', 'tet6'):
        try: coors, conns, descs = meshes.data(name)
        except Exception: continue
        yield name, mk(coors, conns, descs)

def run_select(acc, tier):
    from sfepy.mesh.mesh_tools import (get_cell_vertices_only,
                                       get_mesh_by_cgroup,
                                       get_mesh_by_ngroup)
    for name, mesh in some_meshes():
        values = [0, 1, 2, 3, [1, 3], [2], [3, 1, 2], (1, 2), (2, 3), (0, 9)]
        for value, only in itertools.product(values, (True, False)):
            sel = (lambda gr: value[0] <= gr <= value[1]) \
                if isinstance(value, tuple) else (
                    (lambda gr: gr in value) if isinstance(value, list)
                    else (lambda gr: gr == value))
            exp = [cc for cc in contents(mesh) if sel(cc[2])]
            if len(exp):
                with acc.case(['cgroup', name, value, only]):
                    out = get_mesh_by_cgroup(mesh, value, only)
                    require(contents(out) == exp, 'cells')
                    check_vertices(out, unused=not only)
                    if not only:
                        require((out.coors == mesh.coors).all(), 'vertices')
                    acc.outcome(('cgroup', len(exp)))
            exp = [cc for cc in contents(mesh)
                   if all(sel(vv[1]) for vv in cc[1])]
            if len(exp):
                with acc.case(['ngroup', name, value, only]):
                    out = get_mesh_by_ngroup(mesh, value, only)
                    require(contents(out) == exp, 'cells')
                    check_vertices(out, unused=not only)
                    if not only:
                        vgs = mesh.cmesh.vertex_groups
                        ii = [sel(gr) for gr in vgs]
                        require((out.coors == mesh.coors[ii]).all(),
                                'vertices')
                    acc.outcome(('ngroup', len(exp)))
        # Unused vertices.
        for pos in range(3):
            with acc.case(['unused', name, pos]):
                num = len(mesh.coors)
                at = [0, num // 2, num][pos]
                cc = nm.insert(mesh.coors, at, 99.0, axis=0)
                vg = nm.insert(mesh.cmesh.vertex_groups, at, 7)
                conns, grs = [], []
                for dd in mesh.descs:
                    conn, ids = mesh.get_conn(dd, ret_cells=True)
                    conns.append(nm.where(conn >= at, conn + 1, conn))
                    grs.append(mesh.cmesh.cell_groups[ids])
                out = get_cell_vertices_only(mk(cc, conns, mesh.descs, grs,
                                                vg))
                require(contents(out) == contents(mesh), 'cells')
                check_vertices(out)
                used = sorted(set(int(ii) for _, row, _ in iter_cells(mesh)
                                  for ii in row))
                require(out.coors.tolist() == mesh.coors[used].tolist(),
                        'order of vertices')

def same(m1, m2, what):
    require((m1.coors == m2.coors).all(), '%s: coordinates', what)
    require((m1.cmesh.vertex_groups == m2.cmesh.vertex_groups).all(),
            '%s: vertex groups', what)
    require(contents(m1) == contents(m2), '%s: cells', what)
    require([str(dd) for dd in m1.descs] == [str(dd) for dd in m2.descs],
            '%s: descs', what)
    b1, b2 = m1.nodal_bcs, m2.nodal_bcs
    require(sorted(b1) == sorted(b2) and all(
        (nm.asarray(b1[kk]) == nm.asarray(b2[kk])).all() for kk in b1),
            '%s: nodal regions', what)
    require((m1.n_el, m1.n_nod, m1.dim) == (m2.n_el, m2.n_nod, m2.dim),
            '%s: shapes', what)

def run_copies(acc, tier):
    from sfepy.discrete.fem import FEDomain, Mesh
    def variants():
        yield from some_meshes()
        # With cells of lower dimensions.
        coors, conns, descs = meshes.data('quad4')
        yield 'lower', mk(coors, [conns[0], [[0, 1], [1, 2]]],
                          ['2_4', '1_2'])
        # Several groups of cells of one kind.
        yield 'groups', mk(coors, [conns[0][:1], conns[0][1:]],
                           ['2_4', '2_4'], [[5], [1, 2, 3]])
    for name, mesh in variants():
        mesh.nodal_bcs = {'a' : nm.array([0, 2]), 'b' : nm.array([1])}
        dim = mesh.coors.shape[1]
        with acc.case(['copy', name]):
            ref = pickle.loads(pickle.dumps(mesh))
            same(ref, mesh, 'pickle')
            out = mesh.copy()
            same(out, mesh, 'copy')
            require(mesh.copy(name='x').name == 'x', 'name')
            # Independent copies.
            out.coors[:] += 1.0
            out.cmesh.cell_groups[:] = 9
            out.cmesh.vertex_groups[:] = 9
            out.nodal_bcs['a'][:] = 1
            out.nodal_bcs['c'] = nm.array([0])
            same(mesh, ref, 'original')
            acc.outcome(('copy', name))
        with acc.case(['transform', name]):
            for aff in (False, True):
                out = mesh.copy()
                mtx = (nm.arange(dim * dim).reshape(dim, dim) * 0.25
                       + nm.eye(dim))
                tr = nm.arange(dim) + 0.5
                out.transform_coors(nm.c_[mtx, tr] if aff else mtx)
                exp = mesh.coors @ mtx.T + (tr if aff else 0.0)
                require(nm.allclose(out.coors, exp), 'transform_coors')
                out.transform_coors(nm.c_[mtx, tr] if aff else mtx,
                                    ref_coors=mesh.coors)
                require(nm.allclose(out.coors, exp), 'ref_coors')
            out.set_centre(nm.arange(dim) * 2.0)
            bb = out.get_bounding_box()
            require(nm.allclose(bb.mean(0), nm.arange(dim) * 2.0), 'centre')
            require(nm.allclose(out.coors - out.coors[0], exp - exp[0]),
                    'shape')
        with acc.case(['graph', name]):
            out = mesh.create_conn_graph(verbose=False)
            exp = nm.zeros((mesh.n_nod, mesh.n_nod), dtype=bool)
            for _, row, _ in iter_cells(mesh):
                exp[nm.ix_(row, row)] = True
            require(((out.toarray() != 0) == exp).all(), 'graph')
        if name in ('lower', 'groups'): continue
        n_el = mesh.n_el
        for mask in range(1, 2 ** n_el):
            cells = [ii for ii in range(n_el) if mask >> ii & 1]
            for localize in (True, False):
                with acc.case(['region', name, cells, localize]):
                    domain = FEDomain('d', mesh)
                    reg = domain.create_region('R', 'cell %s' % ', '.join(
                        map(str, cells)))
                    out = Mesh.from_region(reg, mesh, localize=localize)
                    grs = mesh.cmesh.cell_groups
                    keep = []
                    vgs = mesh.cmesh.vertex_groups
                    for dd in mesh.descs:
                        conn, ids = mesh.get_conn(dd, ret_cells=True)
                        keep += [(dd, tuple((rnd(mesh.coors[ii]),
                                             int(vgs[ii])) for ii in row),
                                  int(grs[ic]))
                                 for row, ic in zip(conn, ids)
                                 if ic in cells]
                    require(contents(out) == sorted(keep, key=repr), 'cells')
                    check_vertices(out, unused=not localize)
                    for key, val in mesh.nodal_bcs.items():
                        used = set(int(ii) for ii in reg.vertices)
                        exp = [rnd(mesh.coors[ii]) for ii in val
                               if (ii in used) or not localize]
                        got = [rnd(out.coors[ii])
                               for ii in out.nodal_bcs[key]]
                        require(exp == got, 'nodal regions')

def run_smooth(acc, tier):
    from sfepy.mesh.mesh_tools import smooth_mesh
    for name, mesh in some_meshes():
        if len(mesh.descs) > 1: continue
        desc = mesh.descs[0]
        dim = mesh.coors.shape[1]
        coors = mesh.coors.copy()
        for n_iter, bc, corr in itertools.product((0, 1, 2, 5),
                                                  (False, True),
                                                  (False, True)):
            with acc.case(['smooth', name, n_iter, bc, corr]):
                out = smooth_mesh(mesh, n_iter=n_iter, bconstr=bc,
                                  volume_corr=corr)
                require((mesh.coors == coors).all(), 'the mesh was changed')
                if n_iter == 0:
                    require(nm.allclose(out, coors), 'no iterations')
                if corr and desc != '3_8':
                    conn = mesh.get_conn(desc)
                    vol0, vol1 = [cell_volumes(cc, conn, desc).sum()
                                  for cc in (coors, out)]
                    require(abs(vol1 - vol0) < 1e-8 * vol0,
                            'volume %s, expected %s', vol1, vol0)
                # Translations are no obstacle.
                mesh.coors[:] = coors + nm.arange(dim)
                try:
                    out2 = smooth_mesh(mesh, n_iter=n_iter, bconstr=bc,
                                       volume_corr=corr)
                finally:
                    mesh.coors[:] = coors
                require(nm.allclose(out2, out + nm.arange(dim)),
                        'a shifted mesh')
                acc.outcome(('smooth', name, n_iter))

# Lines.
def run_lines(acc, tier, part):
    from sfepy.mesh.mesh_tools import merge_lines
    num = 4 if tier == 'quick' else 5
    steps = {'E' : [1, 0, 0], 'N' : [0, 1, 0], 'U' : [0, 0, 1]}
    ik = 0
    for nn in range(1, num + 1):
        for word in itertools.product('ENU', repeat=nn):
            for flips, order in itertools.product(
                    itertools.product((0, 1), repeat=nn), (1, -1, 3)):
                ik += 1
                if ik % 4 != part: continue
                with acc.case(['lines', word, flips, order]):
                    coors = nm.cumsum([[0, 0, 0]] + [steps[ii]
                                                     for ii in word], axis=0)
                    conn = [[ii, ii + 1][::-1 if flips[ii] else 1]
                            for ii in range(nn)]
                    idx = list(range(nn))
                    if order == -1: idx = idx[::-1]
                    if order == 3: idx = idx[1::2] + idx[::2]
                    conn = nm.array(conn)[idx]
                    vg = nm.arange(nn + 1)
                    mesh = (coors.astype(float), vg, [conn.copy()],
                            [nm.ones(nn, dtype=nm.int32)], ['3_2'])
                    out = merge_lines(mesh)
                    ends = [0] + [ii for ii in range(1, nn)
                                  if word[ii] != word[ii - 1]] + [nn]
                    exp = sorted(sorted([rnd(coors[ii]), rnd(coors[jj])])
                                 for ii, jj in zip(ends[:-1], ends[1:]))
                    got = sorted(sorted([rnd(out[0][ii]), rnd(out[0][jj])])
                                 for ii, jj in out[2][0])
                    require(exp == got, 'lines %s, expected %s', got, exp)
                    require(len(out[3][0]) == len(exp)
                            and len(out[0]) == len(ends), 'sizes')
                    require([int(ii) for ii in out[1]] == ends,
                            'vertex groups')
                    acc.outcome(('lines', len(exp)))

def run_outline(acc, tier):
    from sfepy.mesh.mesh_generators import gen_mesh_from_voxels
    from sfepy.mesh.mesh_tools import extract_edges
    for mask, etype in itertools.product(range(1, 2 ** 8), 'qt'):
        vox = nm.array([(mask >> ii) & 1 for ii in range(8)]
                       ).reshape((2, 2, 2))
        mesh = gen_mesh_from_voxels(vox, [1.0, 1.0, 1.0], etype)
        facets = all_facets(mesh)
        edges = {}
        for ff in facets.values():
            if len(ff) > 1: continue
            loop = ff[0][1]
            xx = mesh.coors[loop]
            nn = nm.cross(xx[1] - xx[0], xx[2] - xx[0])
            # Outwards.
            conn = mesh.get_conn(mesh.descs[0])[ff[0][0]]
            if nn @ (mesh.coors[conn].mean(0) - xx[0]) > 0: nn = -nn
            nn = rnd(nn / nm.linalg.norm(nn))
            for ii, jj in zip(loop, loop[1:] + loop[:1]):
                edges.setdefault(frozenset([ii, jj]), []).append(nn)
        # Surfaces touching in edges are out of scope.
        if any(len(nn) != 2 for nn in edges.values()): continue
        with acc.case(['outline', mask, etype]):
            exp = sorted(sorted(rnd(mesh.coors[ii]) for ii in key)
                         for key, nn in edges.items() if nn[0] != nn[1])
            coors, _, conns, _, descs = extract_edges(mesh, eps=1e-12)
            got = sorted(sorted([rnd(coors[ii]), rnd(coors[jj])])
                         for ii, jj in conns[0])
            require(got == exp, 'edges')
            require(list(descs) == ['3_2'], 'descs')
            require(len(set(map(rnd, coors))) == len(coors), 'vertices')
            acc.outcome(('outline', etype, len(exp)))

def groups(tier):
    out = [['block', tier], ['cylinder', tier], ['extended', tier],
           ['tiled', tier], ['merge', tier], ['mirror', tier],
           ['triangulate', tier], ['select', tier], ['copies', tier],
           ['smooth', tier], ['outline', tier]]
    for name in ('voxels', 'extrude', 'revolve', 'lines'):
        out += [[name, tier, part] for part in range(4)]
    return out

RUNS = {'block' : run_block, 'cylinder' : run_cylinder,
        'extended' : run_extended, 'tiled' : run_tiled, 'merge' : run_merge,
        'mirror' : run_mirror, 'triangulate' : run_triangulate,
        'select' : run_select, 'copies' : run_copies, 'smooth' : run_smooth,
        'outline' : run_outline, 'voxels' : run_voxels,
        'extrude' : run_extrude, 'revolve' : run_revolve, 'lines' : run_lines}

def run(group, acc):
    from sfepy.base.base import output
    output.set_output(quiet=True)
    RUNS[group[0]](acc, *group[1:])
