"""
Independent finite element reference: Lagrange bases on reference cells by
unisolvent interpolation, isoparametric mappings and dense global basis
functions in quadrature points of cells and facets.
"""
import itertools
import numpy as nm

VOIGT = {1: [(0, 0)],
         2: [(0, 0), (1, 1), (0, 1)],
         3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}

REF = {
    '1_2': nm.array([[0.], [1]]),
    '2_3': nm.array([[0., 0], [1, 0], [0, 1]]),
    '2_4': nm.array([[0., 0], [1, 0], [1, 1], [0, 1]]),
    '3_4': nm.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    '3_8': nm.array([[0., 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                     [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]),
    '3_6': nm.array([[0., 0, 0], [1, 0, 0], [0, 1, 0],
                     [0, 0, 1], [1, 0, 1], [0, 1, 1]]),
}
# Facets by their vertices in a cyclic order.
FACETS = {
    '1_2': [(0,), (1,)],
    '2_3': [(0, 1), (1, 2), (2, 0)],
    '2_4': [(0, 1), (1, 2), (2, 3), (3, 0)],
    '3_4': [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)],
    '3_8': [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (3, 2, 6, 7),
            (0, 3, 7, 4), (1, 2, 6, 5)],
    '3_6': [(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (0, 2, 5, 3)],
}

def monomials(gname, order):
    dim = int(gname[0])
    out = []
    for idx in itertools.product(range(order + 1), repeat=dim):
        if gname in ('2_3', '3_4') and sum(idx) > order: continue
        if gname == '3_6' and idx[0] + idx[1] > order: continue
        out.append(idx)
    return nm.array(out)

def vander(xi, exps, der=None):
    out = nm.ones((len(xi), len(exps)))
    for ic in range(xi.shape[1]):
        ee = exps[:, ic]
        if der == ic:
            out *= ee * xi[:, ic, None]**nm.maximum(ee - 1, 0)
        else:
            out *= xi[:, ic, None]**ee
    return out

class Basis:
    """
    Nodal basis given by the nodes in the reference cell.
    """
    def __init__(self, gname, nodes, order):
        self.exps = monomials(gname, order)
        self.coef = nm.linalg.inv(vander(nodes, self.exps))

    def val(self, xi):
        return vander(xi, self.exps) @ self.coef

    def grad(self, xi):
        """
        (n_point, dim, n_nod)
        """
        return nm.stack([vander(xi, self.exps, ic) @ self.coef
                         for ic in range(xi.shape[1])], axis=1)

def cofactors(mtx):
    det = nm.linalg.det(mtx)
    return det[:, None, None] * nm.linalg.inv(mtx).transpose(0, 2, 1)

class Points:
    """
    Quadrature points of cells, or of facets given as (cell, vertices) pairs.
    """
    def __init__(self, coors, conn, gname, items, qps, facets=False):
        self.gname, self.coors, self.conn = gname, coors, conn
        self.dim = coors.shape[1]
        geo = Basis(gname, REF[gname], 1)
        cells, xis, ws, tans, self.item = [], [], [], [], []
        self.n_item = len(items)
        for ii, item in enumerate(items):
            if not facets:
                xi, ww = qps[gname]
                ic = item
                tan = None
            else:
                ic, verts = item
                rv = REF[gname][[list(conn[ic]).index(iv) for iv in verts]]
                if len(verts) == 1:
                    xi, ww = rv.copy(), nm.ones(1)
                    tan = nm.zeros((1, self.dim, 0))
                elif len(verts) == 2:
                    fx, ww = qps['1_2']
                    xi = rv[0] + fx * (rv[1] - rv[0])
                    tan = nm.tile((rv[1] - rv[0])[None, :, None],
                                  (len(xi), 1, 1))
                else:
                    n1 = rv[-1] if len(verts) == 4 else rv[2]
                    fx, ww = qps['2_4' if len(verts) == 4 else '2_3']
                    t1, t2 = rv[1] - rv[0], n1 - rv[0]
                    xi = rv[0] + fx[:, :1] * t1 + fx[:, 1:] * t2
                    tan = nm.tile(nm.stack([t1, t2], axis=1)[None],
                                  (len(xi), 1, 1))
                tans.append(tan)
            cells += [ic] * len(xi)
            self.item += [ii] * len(xi)
            xis.append(xi)
            ws.append(ww)
        self.cells = nm.array(cells)
        self.item = nm.array(self.item)
        self.xi = nm.concatenate(xis)
        self.n_qp = len(self.xi) // self.n_item
        ww = nm.concatenate(ws)
        xc = coors[conn[self.cells]]
        self.x = nm.einsum('pn,pni->pi', geo.val(self.xi), xc)
        # jac[i, j] = dx_i / dxi_j
        self.jac = nm.einsum('pjn,pni->pij', geo.grad(self.xi), xc)
        self.jinv = nm.linalg.inv(self.jac)
        det = nm.linalg.det(self.jac)
        self.normal = None
        if not facets:
            self.w = ww * det
        else:
            tan = self.jac @ nm.concatenate(tans)
            if self.dim == 1:
                nn = nm.ones((len(tan), 1))
            elif self.dim == 2:
                nn = nm.stack([tan[:, 1, 0], -tan[:, 0, 0]], axis=1)
            else:
                nn = nm.cross(tan[:, :, 0], tan[:, :, 1])
            size = nm.linalg.norm(nn, axis=1)
            nn = nn / size[:, None]
            out = self.x - coors[conn[self.cells]].mean(1)
            nn *= nm.sign((nn * out).sum(1))[:, None]
            self.normal = nn
            self.w = ww * (size if self.dim > 1 else 1.0)

    def basis(self, nodes, conn, order, n_nod):
        """
        Global scalar basis functions: values (P, n_nod), gradients
        (P, n_nod, dim).
        """
        bb = Basis(self.gname, nodes, order)
        lv, lg = bb.val(self.xi), bb.grad(self.xi)
        lg = nm.einsum('pji,pjn->pni', self.jinv, lg)
        val = nm.zeros((len(self.xi), n_nod))
        grad = nm.zeros((len(self.xi), n_nod, self.dim))
        rows = nm.arange(len(self.xi))[:, None]
        cc = conn[self.cells]
        val[rows, cc] = lv
        grad[rows, cc] = lg
        return val, grad

class Fun:
    """
    Functions (basis or given by DOFs) of a field in points: `val` (P, a, i),
    `grad` (P, a, i, j) = d_j u_i.
    """
    def __init__(self, val, grad):
        self.val, self.grad = val, grad
        self.nc, self.dim = grad.shape[2:]

    @property
    def s(self): return self.val[..., 0]

    @property
    def gs(self): return self.grad[..., 0, :]

    @property
    def div(self): return nm.einsum('paii->pa', self.grad)

    @property
    def e(self):
        gg = self.grad
        return nm.stack([gg[..., i, i] if i == j
                         else gg[..., i, j] + gg[..., j, i]
                         for i, j in VOIGT[self.dim]], axis=-1)

    @property
    def gvec(self):
        return self.grad.reshape(self.grad.shape[:2] + (-1,))

def basis_fun(val, grad, nc):
    """
    Unit functions of all DOFs (node major).
    """
    pp, nn = val.shape
    dim = grad.shape[2]
    vv = nm.zeros((pp, nn, nc, nc))
    gg = nm.zeros((pp, nn, nc, nc, dim))
    for ic in range(nc):
        vv[:, :, ic, ic] = val
        gg[:, :, ic, ic, :] = grad
    return Fun(vv.reshape((pp, nn * nc, nc)),
               gg.reshape((pp, nn * nc, nc, dim)))

def dof_fun(bf, dofs):
    """
    The function with given DOFs.
    """
    return Fun(nm.einsum('pai,a->pi', bf.val, dofs)[:, None],
               nm.einsum('paij,a->pij', bf.grad, dofs)[:, None])
