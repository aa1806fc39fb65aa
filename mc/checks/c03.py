"""
Mesh topology: connectivities, incidence queries, submeshes, entity geometry.
"""
import itertools
import numpy as nm

from mc import meshes
from mc.core import require

PID = 'C03'
LEVEL = 'exploration'
RULE = ('Tiny meshes of every cell type (also mixed, and with detached or '
        'vertex-only contacts), all vertex renumberings (up to 6 vertices) or '
        'a fixed family of them, cell-local rotations; all subsets of '
        'entities of size <= k in incidence queries; all sequences of up to '
        'three connectivity setup/free operations. Compared with a vertex '
        'set model. Non-trivial: more than one entity is involved.')
ASSUMPTIONS = ['Geometric quantities are compared with tolerance 1e-12; '
               'quadrilateral faces are planar in the meshes used.']
BOUNDS = {'quick': 'subsets of size <= 2 (3 for the basic numbering), '
                   'histories of length <= 2',
          'thorough': 'subsets of size <= 3, histories of length <= 3'}

NAMES = ['line3', 'quad1', 'quad2', 'quad4', 'tri2', 'tri4', 'mix2d', 'fan3',
         'tet1', 'tet2', 'tet6', 'hex1', 'hex2', 'wedge2']

# Rotations of the reference cells (orientation preserving).
ROT = {
    '1_2': [(0, 1)],
    '2_3': [(0, 1, 2), (1, 2, 0), (2, 0, 1)],
    '2_4': [(0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2)],
    '3_4': [(0, 1, 2, 3), (1, 2, 0, 3), (1, 3, 2, 0), (3, 1, 0, 2)],
    '3_6': [(0, 1, 2, 3, 4, 5), (1, 2, 0, 4, 5, 3), (2, 0, 1, 5, 3, 4)],
    '3_8': [(0, 1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 0, 5, 6, 7, 4),
            (4, 0, 3, 7, 5, 1, 2, 6), (3, 2, 6, 7, 0, 1, 5, 4)],
}

def variants(name, tier):
    coors, conns, descs = meshes.data(name)
    nn = coors.shape[0]
    if nn <= 5:
        perms = list(itertools.permutations(range(nn)))
        if tier == 'quick':
            perms = perms[::7] if nn == 5 else perms
    else:
        base = list(range(nn))
        perms = [base, base[::-1], base[1:] + base[:1],
                 base[::2] + base[1::2], base[nn//2:] + base[:nn//2]]
    n_rot = max(len(ROT[desc]) for desc in descs)
    for ip, perm in enumerate(perms):
        for ir in range(n_rot):
            if ip and ir and tier == 'quick' and (ip + ir) % 3:
                continue
            yield ip, ir, list(perm)

def build(name, ir, perm):
    from sfepy.discrete.fem import Mesh
    coors, conns, descs = meshes.data(name)
    perm = nm.asarray(perm)
    new = nm.empty_like(coors)
    new[perm] = coors
    out = []
    for conn, desc in zip(conns, descs):
        rows = []
        for ic, row in enumerate(conn):
            rot = ROT[desc][(ir * (ic + 1)) % len(ROT[desc])]
            rows.append(perm[row][list(rot)])
        out.append(nm.array(rows, nm.int32))
    ng = nm.arange(coors.shape[0], dtype=nm.int32) % 3
    mats = [nm.arange(cc.shape[0], dtype=nm.int32) % 2 + 1 for cc in out]
    return Mesh.from_data(name, new, ng, out, mats, list(descs)), out, descs

def rows_of(conn):
    return [conn.indices[conn.offsets[ii]:conn.offsets[ii+1]].tolist()
            for ii in range(conn.num)]

def check_tables(cmesh, top, pairs=None):
    """
    All available connectivities d1 -> d2 against the model.
    """
    td = cmesh.tdim
    for d1, d2 in pairs or itertools.product(range(td + 1), repeat=2):
        conn = cmesh.get_conn(d1, d2)
        if conn is None:
            continue
        rows = rows_of(conn)
        require(len(rows) == len(top.ents[d1]),
                '%d -> %d: %d rows', d1, d2, len(rows))
        for ii, row in enumerate(rows):
            if d1 > d2:
                want = top.down[d1, d2][ii]
            elif d1 < d2:
                want = top.up[d1, d2][ii]
            else:
                continue
            # Triangular faces of wedges have a repeated vertex.
            if (d1, d2) not in ((0, 2), (2, 0)) or not top.wedge:
                require(len(set(row)) == len(row),
                        '%d -> %d: repeated items in row %d: %s', d1, d2, ii,
                        row)
            require(set(row) == set(want), '%d -> %d: row %d: %s, expected'
                    ' %s', d1, d2, ii, row, sorted(want))

def check_entities(cmesh, top, cells, descs):
    """
    Each sub-entity of a cell is there exactly once, local order is kept.
    """
    td = cmesh.tdim
    for dd in range(1, td):
        want = {vv for subs in top.sub[dd] for vv in subs}
        got = top.ents[dd]
        require(len(set(got)) == len(got), 'dimension %d: repeated entities',
                dd)
        require(set(got) == want, 'dimension %d: entities %s, expected %s',
                dd, got, want)
        require(int(cmesh.num[dd]) == len(want), 'num[%d]', dd)
        conn = cmesh.get_conn(td, dd)
        for ic, row in enumerate(rows_of(conn)):
            require([got[ii] for ii in row] == top.sub[dd][ic],
                    'cell %d: local order of entities of dim. %d: %s', ic, dd,
                    row)
    flat = [row.tolist() for conn in cells for row in conn]
    require(rows_of(cmesh.get_cell_conn()) == flat, 'cell connectivity')

def check_queries(cmesh, top, kmax):
    td = cmesh.tdim
    num = 0
    for dent in range(td + 1):
        n_ent = len(top.ents[dent])
        for k in range(1, kmax + 1):
            for ents in itertools.combinations(range(n_ent), k):
                if k > 1 and n_ent > 12 and sum(ents) % 5:
                    continue
                aents = nm.array(ents[::-1], dtype=nm.uint32)
                for dim in range(td + 1):
                    if dim == dent:
                        continue
                    rel = top.down if dim < dent else top.up
                    inc, offs = cmesh.get_incident(dim, aents, dent,
                                                   ret_offsets=True)
                    for ii, ent in enumerate(aents):
                        row = inc[offs[ii]:offs[ii+1]].tolist()
                        require(set(row) == rel[dent, dim][ent],
                                'incident(%d, %s, %d): %s', dim, aents, dent,
                                row)
                    if dim > dent:
                        got = cmesh.get_complete(dim, aents, dent).tolist()
                        want = top.complete(dim, ents, dent)
                        require(sorted(got) == sorted(want),
                                'complete(%d, %s, %d): %s, expected %s', dim,
                                aents, dent, got, sorted(want))
                        lids = cmesh.get_local_ids(aents, dent, inc, offs,
                                                   dim)
                        pos = 0
                        conn = rows_of(cmesh.get_conn(dim, dent))
                        for ii, ent in enumerate(aents):
                            for jj in range(offs[ii], offs[ii+1]):
                                require(conn[inc[jj]][lids[jj]] == ent,
                                        'local ids of %d/%d in %d', dent, ent,
                                        dim)
                    num += 1
    return num

def check_geometry(cmesh, top, descs_of_cells):
    td = cmesh.tdim
    co = cmesh.coors
    for dd in range(1, td + 1):
        cc = cmesh.get_centroids(dd)
        vv = cmesh.get_volumes(dd)
        for ii, verts in enumerate(top.ents[dd]):
            pts = co[sorted(verts)]
            require(nm.allclose(cc[ii], pts.mean(0), atol=1e-12),
                    'centroid of %d/%d', dd, ii)
            if dd == 1:
                vol = nm.linalg.norm(pts[1] - pts[0])
            elif dd == 2:
                vol = _area(top, ii, co) if td == 3 else None
            else:
                vol = None
            if dd == td and td > 1:
                vol = {'2_3': 0.5, '2_4': 1.0, '3_8': 1.0, '3_6': 0.5}.get(
                    descs_of_cells[ii])
                if descs_of_cells[ii] == '3_4':
                    ww = top.cells[ii]
                    mm = co[list(ww[1:])] - co[ww[0]]
                    vol = abs(nm.linalg.det(mm)) / 6
                if td == 2 and descs_of_cells[ii] == '2_3':
                    ww = top.cells[ii]
                    mm = co[list(ww[1:])] - co[ww[0]]
                    vol = abs(nm.linalg.det(mm)) / 2
            require(nm.allclose(vv[ii], vol, atol=1e-12),
                    'volume of %d/%d: %s, expected %s', dd, ii, vv[ii], vol)
    if td > 1 and td == cmesh.dim:
        nn = cmesh.get_facet_normals()
        conn = cmesh.get_conn(td, td - 1)
        for ic in range(cmesh.n_el):
            cc = co[list(top.cells[ic])].mean(0)
            for jj in range(conn.offsets[ic], conn.offsets[ic + 1]):
                verts = sorted(top.ents[td - 1][conn.indices[jj]])
                pts = co[verts]
                require(nm.allclose(nm.linalg.norm(nn[jj]), 1, atol=1e-10),
                        'normal of cell %d is not unit: %s', ic, nn[jj])
                require(nm.allclose((pts - pts[0]) @ nn[jj], 0, atol=1e-10),
                        'normal of cell %d is not orthogonal', ic)
                require((pts.mean(0) - cc) @ nn[jj] > 0,
                        'normal of cell %d points inside', ic)

def _area(top, ii, co):
    verts = sorted(top.ents[2][ii])
    pts = co[verts]
    if len(verts) == 3:
        return 0.5 * nm.linalg.norm(nm.cross(pts[1] - pts[0],
                                             pts[2] - pts[0]))
    # Planar convex quad: half of the cross product of its diagonals.
    cc = pts.mean(0)
    nv = nm.cross(pts[1] - pts[0], pts[2] - pts[0])
    e1 = (pts[0] - cc) / nm.linalg.norm(pts[0] - cc)
    e2 = nm.cross(nv / nm.linalg.norm(nv), e1)
    ang = nm.arctan2((pts - cc) @ e2, (pts - cc) @ e1)
    pts = pts[nm.argsort(ang)]
    return 0.5 * nm.linalg.norm(nm.cross(pts[2] - pts[0], pts[3] - pts[1]))

def check_submesh(mesh, top, acc):
    """
    New meshes made of all subsets of cells (facets).
    """
    cmesh = mesh.cmesh
    td = cmesh.tdim
    for dent in (td, td - 1):
        if dent < 1:
            continue
        n_ent = len(top.ents[dent])
        for k in range(1, min(n_ent, 3) + 1):
            for ents in itertools.combinations(range(n_ent), k):
                if k > 1 and n_ent > 8 and sum(ents) % 7:
                    continue
                for loc in (False, True):
                    with acc.case(['submesh', dent, list(ents), loc]):
                        sub = cmesh.create_new(nm.array(ents, nm.uint32),
                                               dent, localize=loc)
                        require(sub.n_el == k and sub.tdim == dent,
                                'submesh shape')
                        src = rows_of(cmesh.get_conn(dent, 0))
                        rows = rows_of(sub.get_cell_conn())
                        used = sorted({vv for ee in ents
                                       for vv in src[ee]})
                        if loc:
                            require(sub.n_coor == len(used), 'n_coor')
                            back = [[used[vv] for vv in row] for row in rows]
                            want_c = cmesh.coors[used]
                            want_g = nm.asarray(cmesh.vertex_groups)[used]
                        else:
                            back = rows
                            want_c = cmesh.coors
                            want_g = nm.asarray(cmesh.vertex_groups)
                        require(back == [src[ee] for ee in ents],
                                'connectivity %s', rows)
                        require((nm.asarray(sub.coors) == want_c).all(),
                                'coordinates')
                        require((nm.asarray(sub.vertex_groups)
                                 == want_g).all(), 'vertex groups')
                        if dent == td:
                            require(
                                (nm.asarray(sub.cell_groups) == nm.asarray(
                                    cmesh.cell_groups)[list(ents)]).all()
                                and (nm.asarray(sub.cell_types)
                                     == nm.asarray(cmesh.cell_types)[
                                         list(ents)]).all(), 'cell data')

def _ref(mesh):
    top = meshes.ref_of_mesh(mesh)
    top.wedge = False
    return top

def histories(cmesh_of, acc, depth):
    """
    Sequences of connectivity operations.
    """
    _, cmesh, _, _ = cmesh_of()
    td = cmesh.tdim
    ops = [('setup', a, b) for a in range(td + 1) for b in range(td + 1)
           if a != b]
    ops += [('free', a, b) for a in range(td + 1) for b in range(td + 1)
            if a != b and not (a == td and b == 0)]
    for dd in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=dd):
            if dd == 3 and len({oo[0] for oo in seq}) == 1:
                continue
            with acc.case(['history'] + [list(oo) for oo in seq]):
                mesh, cmesh, top, _ = cmesh_of()
                for op, a, b in seq:
                    if op == 'setup':
                        cmesh.setup_connectivity(a, b)
                        require(cmesh.get_conn(a, b) is not None,
                                '%d -> %d was not set up', a, b)
                    else:
                        cmesh.free_connectivity(a, b)
                        require(cmesh.get_conn(a, b) is None,
                                '%d -> %d was not freed', a, b)
                    check_tables(cmesh, _ref(mesh)
                                 if all(cmesh.get_conn(ii, 0) is not None
                                        for ii in range(1, td)) else top)
                for a, b in itertools.permutations(range(td + 1), 2):
                    cmesh.setup_connectivity(a, b)
                top = _ref(mesh)
                check_tables(cmesh, top)

def groups(tier):
    out = [['mesh', name, tier] for name in NAMES]
    for name in ('tri2', 'quad2', 'tet2', 'line3'):
        n = 1 if name != 'tet2' else 4
        out.append(['history', name, tier])
    return out

def run(group, acc):
    from sfepy.discrete.fem.geometry_element import create_geometry_elements
    what, name, tier = group
    gels = create_geometry_elements()

    def make(ir=0, perm=None):
        if perm is None:
            perm = list(range(meshes.data(name)[0].shape[0]))
        mesh, conns, descs = build(name, ir, perm)
        cmesh = mesh.cmesh
        cmesh.set_local_entities(gels)
        cmesh.setup_entities()
        top = meshes.ref_of_mesh(mesh)
        top.wedge = name == 'wedge2'
        top.cells = [tuple(int(ii) for ii in row) for cc in conns
                     for row in cc]
        return mesh, cmesh, top, (conns, descs)

    if what == 'history':
        histories(make, acc, 3 if (tier == 'thorough' or name == 'line3')
                  else 2)
        return

    for ip, ir, perm in variants(name, tier):
        with acc.case(['tables', ir, perm]):
            mesh, cmesh, top, (conns, descs) = make(ir, perm)
            check_entities(cmesh, top, conns, descs)
            for d1, d2 in itertools.permutations(range(cmesh.tdim + 1), 2):
                cmesh.setup_connectivity(d1, d2)
            check_tables(cmesh, top)
            kmax = 3 if (ip == 0 or tier == 'thorough') else 2
            acc.count('queries', check_queries(cmesh, top, kmax))
            dofc = [desc for cc, desc in zip(conns, descs) for row in cc]
            check_geometry(cmesh, top, dofc)
            surf = set(cmesh.get_surface_facets().tolist())
            fd = cmesh.tdim - 1
            require(surf == {ii for ii, cc in
                             enumerate(top.up[fd, cmesh.tdim])
                             if len(cc) == 1}, 'surface facets %s', surf)
            graph = cmesh.get_conn_as_graph(cmesh.tdim, 0)
            require([sorted(graph.indices[graph.indptr[ii]:
                                          graph.indptr[ii+1]].tolist())
                     for ii in range(cmesh.n_el)]
                    == [sorted(cc) for cc in top.cells], 'graph')
            acc.outcome(repr((perm, [sorted(ee) for ee in
                                     top.ents[max(fd, 0)]])))
        if ip == 0:
            check_submesh(mesh, top, acc)
