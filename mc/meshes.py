"""
Tiny meshes and set based references of mesh topology.
"""
import itertools
import numpy as nm

def _grid_conn(shape):
    """
    Tensor product grid: vertices and (quad|hex|line) cells.
    """
    dim = len(shape)
    idx = nm.arange(nm.prod(shape)).reshape(shape)
    axes = [nm.arange(n, dtype=float) for n in shape]
    grid = nm.meshgrid(*axes, indexing='ij')
    coors = nm.stack([g.ravel() for g in grid], axis=1)
    cells = []
    for ii in itertools.product(*[range(n - 1) for n in shape]):
        if dim == 1:
            cells.append([idx[ii[0]], idx[ii[0] + 1]])
        elif dim == 2:
            i, j = ii
            cells.append([idx[i, j], idx[i+1, j], idx[i+1, j+1], idx[i, j+1]])
        else:
            i, j, k = ii
            cells.append([idx[i, j, k], idx[i+1, j, k], idx[i+1, j+1, k],
                          idx[i, j+1, k], idx[i, j, k+1], idx[i+1, j, k+1],
                          idx[i+1, j+1, k+1], idx[i, j+1, k+1]])
    return coors, nm.array(cells, dtype=nm.int32)

_HEX_TETS = [[0, 1, 3, 7], [1, 2, 3, 7], [0, 4, 1, 7], [4, 5, 1, 7],
             [5, 2, 1, 7], [5, 6, 2, 7]]

def data(name):
    """
    (coors, [conns], [descs]) of a named tiny mesh.
    """
    if name == 'line3':
        coors, conn = _grid_conn((4,))
        return coors, [conn], ['1_2']
    if name == 'quad1':
        coors, conn = _grid_conn((2, 2))
        return coors, [conn], ['2_4']
    if name == 'quad2':
        coors, conn = _grid_conn((3, 2))
        return coors, [conn], ['2_4']
    if name == 'quad3':
        coors, conn = _grid_conn((4, 2))
        return coors, [conn], ['2_4']
    if name == 'quad4':
        coors, conn = _grid_conn((3, 3))
        return coors, [conn], ['2_4']
    if name == 'tri2':
        coors, conn = _grid_conn((2, 2))
        return coors, [nm.array([[0, 1, 3], [0, 3, 2]], nm.int32)[:, :]
                       if False else
                       nm.array([conn[0][[0, 1, 2]], conn[0][[0, 2, 3]]],
                                nm.int32)], ['2_3']
    if name == 'tri4':
        coors, conn = _grid_conn((3, 2))
        out = []
        for cc in conn:
            out += [cc[[0, 1, 2]], cc[[0, 2, 3]]]
        return coors, [nm.array(out, nm.int32)], ['2_3']
    if name == 'mix2d':
        # A quad and two triangles sharing an edge each.
        coors = nm.array([[0, 0], [1, 0], [2, 0], [0, 1], [1, 1], [2, 1.]])
        tri = nm.array([[1, 2, 5], [1, 5, 4]], nm.int32)
        quad = nm.array([[0, 1, 4, 3]], nm.int32)
        return coors, [tri, quad], ['2_3', '2_4']
    if name == 'mix2db':
        # Triangles first and last in a strip of quads and triangles.
        coors, conn = _grid_conn((4, 3))
        tri, quad = [], []
        for ii, cc in enumerate(conn):
            if ii % 2:
                quad.append(cc)
            elif len(tri) < 4:
                tri += [cc[[0, 1, 2]], cc[[0, 2, 3]]]
        return coors, [nm.array(tri, nm.int32), nm.array(quad, nm.int32)], \
            ['2_3', '2_4']
    if name == 'mix3d':
        # Tetrahedra attached to (by vertices and edges of) two hexahedra.
        coors, conn = _grid_conn((3, 2, 2))
        extra = nm.array([[-1, 0, 0], [-1, 1, 0], [-1, 0.5, 1.]])
        nn = coors.shape[0]
        coors = nm.r_[coors, extra]
        v0, v3, v4 = conn[0][[0, 3, 4]]
        tet = nm.array([[v0, v3, nn, v4], [v3, nn, v4, nn + 2],
                        [v3, nn + 1, nn, nn + 2]], nm.int32)
        return coors, [tet, conn], ['3_4', '3_8']
    if name == 'tet1':
        coors = nm.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
        return coors, [nm.array([[0, 1, 2, 3]], nm.int32)], ['3_4']
    if name == 'tet2':
        coors = nm.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.],
                          [1, 1, 1.]])
        return coors, [nm.array([[0, 1, 2, 3], [1, 2, 3, 4]],
                                nm.int32)], ['3_4']
    if name == 'tet6':
        coors, conn = _grid_conn((2, 2, 2))
        return coors, [nm.array([conn[0][tt] for tt in _HEX_TETS],
                                nm.int32)], ['3_4']
    if name == 'hex1':
        coors, conn = _grid_conn((2, 2, 2))
        return coors, [conn], ['3_8']
    if name == 'hex2':
        coors, conn = _grid_conn((3, 2, 2))
        return coors, [conn], ['3_8']
    if name == 'hex4':
        coors, conn = _grid_conn((3, 3, 2))
        return coors, [conn], ['3_8']
    if name == 'wedge2':
        coors, conn = _grid_conn((2, 2, 2))
        cc = conn[0]
        return coors, [nm.array([cc[[0, 1, 2, 4, 5, 6]],
                                 cc[[0, 2, 3, 4, 6, 7]]], nm.int32)], ['3_6']
    if name == 'fan3':
        # Three triangles around a vertex + an isolated-by-vertex triangle.
        coors = nm.array([[0, 0], [1, 0], [1, 1], [0, 1], [-1, 0], [-1, -1.]])
        tri = nm.array([[0, 1, 2], [0, 2, 3], [0, 4, 5]], nm.int32)
        return coors, [tri], ['2_3']
    raise KeyError(name)

def mesh(name, ngroups=None, mat_ids=None, perm=None):
    """
    A new Mesh instance; `mat_ids` given for all the cells.
    """
    from sfepy.discrete.fem import Mesh
    coors, conns, descs = data(name)
    if ngroups is None:
        ngroups = nm.arange(coors.shape[0], dtype=nm.int32) % 3
    mats = []
    off = 0
    for conn in conns:
        if mat_ids is None:
            mm = (nm.arange(conn.shape[0], dtype=nm.int32) + off) % 2 + 1
        else:
            mm = nm.asarray(mat_ids[off:off+conn.shape[0]], dtype=nm.int32)
        mats.append(mm)
        off += conn.shape[0]
    return Mesh.from_data(name, coors.copy(), nm.array(ngroups, nm.int32),
                          [cc.copy() for cc in conns], mats, list(descs))

# Reference topology. Independent definition of cell sub-entities.
LOCAL = {
    '1_2': {0: [(0,), (1,)]},
    '2_3': {1: [(0, 1), (1, 2), (2, 0)]},
    '2_4': {1: [(0, 1), (1, 2), (2, 3), (3, 0)]},
    '3_4': {1: [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
            2: [(0, 2, 1), (0, 3, 2), (0, 1, 3), (1, 2, 3)]},
    '3_6': {1: [(0, 1), (1, 2), (2, 0), (0, 3), (1, 4), (2, 5), (3, 4),
                (4, 5), (5, 3)],
            2: [(0, 2, 1), (0, 3, 5, 2), (0, 1, 4, 3), (1, 2, 5, 4),
                (3, 4, 5)]},
    '3_8': {1: [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7),
                (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
            2: [(0, 3, 2, 1), (0, 4, 7, 3), (0, 1, 5, 4), (4, 5, 6, 7),
                (1, 2, 6, 5), (3, 7, 6, 2)]},
}

class RefTopology:
    """
    Topology given by vertex sets: ents[d] is the list of vertex frozensets of
    entities of dimension d, in the numbering of the given cmesh.
    """
    def __init__(self, cell_verts, cell_descs, n_vertex, dim_vertex_sets):
        self.tdim = int(cell_descs[0][0])
        self.ents = {0: [frozenset([ii]) for ii in range(n_vertex)],
                     self.tdim: [frozenset(cc) for cc in cell_verts]}
        self.ents.update(dim_vertex_sets)
        # Cell -> local sub-entities as vertex sets in the local order.
        self.sub = {}
        for dd in range(1, self.tdim):
            self.sub[dd] = [[frozenset(cell[ii] for ii in loc)
                             for loc in LOCAL[desc][dd]]
                            for cell, desc in zip(cell_verts, cell_descs)]
        self.index = {dd: {vv: ii for ii, vv in enumerate(ee)}
                      for dd, ee in self.ents.items()}
        # Downward incidence through true sub-entity relations.
        self.down = {}
        for d1 in range(self.tdim + 1):
            for d2 in range(d1 + 1):
                self.down[d1, d2] = [self._down(d1, ii, d2)
                                     for ii in range(len(self.ents[d1]))]
        self.up = {}
        for d1 in range(self.tdim + 1):
            for d2 in range(d1 + 1, self.tdim + 1):
                rows = [set() for _ in self.ents[d1]]
                for jj, subs in enumerate(self.down[d2, d1]):
                    for ii in subs:
                        rows[ii].add(jj)
                self.up[d1, d2] = rows

    def _down(self, d1, ii, d2):
        verts = self.ents[d1][ii]
        if d1 == d2:
            return {ii}
        if d2 == 0:
            return set(verts)
        if d1 == self.tdim:
            return {self.index[d2][vv] for vv in self.sub[d2][ii]}
        # Face -> edges (3D): edges of an incident cell within the face.
        return {jj for jj, vv in enumerate(self.ents[d2]) if vv < verts}

    def closure(self, ents, d1, d2):
        out = set()
        for ii in ents:
            out |= self.down[d1, d2][ii]
        return out

    def complete(self, dim, ents, dent):
        ents = set(ents)
        return {ii for ii in range(len(self.ents[dim]))
                if self.down[dim, dent][ii] <= ents}

def ref_of_mesh(mesh):
    """
    The reference topology of the highest dimension cmesh of a mesh, from the
    cell connectivity only; entity numbering is taken from the cmesh.
    """
    cmesh = mesh.cmesh
    i2k = {vv: kk for kk, vv in cmesh.key_to_index.items()}
    conn = cmesh.get_cell_conn()
    offs = conn.offsets
    cells = [tuple(int(ii) for ii in conn.indices[offs[ic]:offs[ic+1]])
             for ic in range(cmesh.n_el)]
    descs = [i2k[int(ct)] for ct in cmesh.cell_types]
    sets = {}
    for dd in range(1, cmesh.tdim):
        cc = cmesh.get_conn(dd, 0)
        sets[dd] = [frozenset(int(jj) for jj in
                              cc.indices[cc.offsets[ii]:cc.offsets[ii+1]])
                    for ii in range(cc.num)]
    return RefTopology(cells, descs, cmesh.n_coor, sets)
