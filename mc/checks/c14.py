"""
C14: values of terms.
"""
import itertools
from copy import copy

import numpy as nm

from mc import fe, meshes
from mc.core import require, Skip

PID = 'C14'
LEVEL = 'exploration'
RULE = ('a case = a term, the shapes and kinds of its arguments, a mesh, a'
        ' region and approximation orders; all the entries of the vector,'
        ' matrices and evaluation modes are compared with dense sums of the'
        ' defining formula; non-trivial if the region is supported by the'
        ' term; distinct by those')
ASSUMPTIONS = ['the reference uses its own bases and mappings, only quadrature'
               ' points come from sfepy (C12)',
               'nonlinear terms are judged in three states']
BOUNDS = {
    'quick': 'all terms having a formula in the reference (about 110), all'
             ' their argument shapes and kinds, five cell types, regions of'
             ' all cells and of one cell, of all boundary facets and of one',
    'thorough': 'all subsets of cells and facets up to 2, higher orders',
}
LIMIT = 250
PRELOAD = ('sfepy.discrete.fem', 'sfepy.terms')

MESHES = {
    # Distorted meshes.
    'line3': 'line3', 'tri2': 'tri2', 'quad2': 'quad2', 'tet2': 'tet2',
    'hex1': 'hex1',
}

def distort(coors):
    cc = coors.copy()
    dim = cc.shape[1]
    for ii in range(len(cc)):
        for ic in range(dim):
            cc[ii, ic] += 0.12 * nm.sin(1.7 * ii + 2.3 * ic + 0.4)
    return cc

##
# Formulas: f(mats and variables in the order of the term arguments) -> (P, a,
# b) for two variables, (P, a) for one variable.

def bil(xx, yy):
    xx = xx.reshape(xx.shape[:2] + (-1,))
    yy = yy.reshape(yy.shape[:2] + (-1,))
    return nm.einsum('pak,pbk->pab', xx, yy)

def sc(mm):
    return 1.0 if mm is None else mm[:, 0, 0][:, None, None]

def mv(mm, yy):
    return nm.einsum('pij,paj->pai', mm, yy)

def vec(mm):
    return mm[:, :, 0]

def full(mm, dim):
    """
    Voigt vector to a symmetric matrix.
    """
    out = nm.zeros((len(mm), dim, dim))
    for ii, (i, j) in enumerate(fe.VOIGT[dim]):
        out[:, i, j] = out[:, j, i] = mm[:, ii, 0]
    return out

def dotc(cc, yy):
    """
    c_j d_j u_i
    """
    return nm.einsum('pj,paij->pai', cc, yy)

def alpha(mm, dim):
    """
    Symmetric tensor given as a Voigt vector or a matrix.
    """
    if mm.shape[2] == 1:
        return full(mm, dim)
    return mm

def aten(mm, yy):
    """
    alpha_ij e_ij(y), non-symmetric: alpha_ij d_j y_i
    """
    return nm.einsum('pij,paij->pa', alpha(mm, yy.dim), yy.grad)

def f_dot(m, v, u, n=None):
    if v.nc != u.nc:
        # Facet normals.
        if v.nc > 1:
            return sc(m) * bil(nm.einsum('pai,pi->pa', v.val, n)[..., None],
                               u.s[..., None])
        return sc(m) * bil(v.s[..., None],
                           nm.einsum('pai,pi->pa', u.val, n)[..., None])
    if m is not None and m.shape[1] > 1:
        return bil(v.val, mv(m, u.val))
    return sc(m) * bil(v.val, u.val)

def iso(lam, mu, v, u):
    ee = lambda x: 0.5 * (x.grad + x.grad.swapaxes(2, 3))
    return (sc(lam) * bil(v.div[..., None], u.div[..., None])
            + 2 * sc(mu) * bil(ee(v), ee(u)))

def kg(kap, yy):
    """
    g_ij(u) of waves, Voigt.
    """
    gg = nm.einsum('pai,j->paij', yy.val, nm.asarray(kap))
    return nm.stack([gg[..., i, i] if i == j else gg[..., i, j] + gg[..., j, i]
                     for i, j in fe.VOIGT[yy.dim]], axis=-1)

def kv(kap, yy):
    return nm.einsum('pai,i->pa', yy.val, nm.asarray(kap))

ONE = lambda xx: xx[..., None]

BIL = {
    'dw_laplace': lambda m, q, p: sc(m) * bil(q.gs, p.gs),
    'dw_diffusion': lambda m, q, p: bil(q.gs, mv(m, p.gs)),
    'dw_dot': f_dot,
    'dw_div_grad': lambda m, v, u: sc(m) * bil(v.grad, u.grad),
    'dw_lin_convect': lambda v, b, u: bil(v.val, dotc(b.val[:, 0], u.grad)),
    'dw_lin_convect2': lambda m, v, u: bil(v.val, dotc(vec(m), u.grad)),
    'dw_lin_elastic': lambda m, v, u: bil(v.e, mv(m, u.e)),
    'dw_lin_elastic_iso': iso,
    'dw_nonsym_elastic': lambda m, v, u: bil(v.gvec, mv(m, u.gvec)),
    'dw_stokes': lambda m, v, p: sc(m) * bil(ONE(v.div), ONE(p.s)),
    'dw_biot': lambda m, v, p: bil(ONE(aten(m, v)), ONE(p.s)),
    'dw_piezo_coupling': lambda m, v, p: bil(mv(m, v.e), p.gs),
    'dw_s_dot_mgrad_s': lambda m, q, p: bil(
        ONE(q.s), ONE(nm.einsum('pi,pai->pa', vec(m), p.gs))),
    'dw_v_dot_grad_s': lambda m, v, p: bil(
        v.val, p.gs if m is None else
        (mv(m, p.gs) if m.shape[1] > 1 else sc(m) * p.gs)),
    'dw_vm_dot_s': lambda m, v, p: bil(
        ONE(nm.einsum('pi,pai->pa', vec(m), v.val)), ONE(p.s)),
    'dw_advect_div_free': lambda m, q, p: bil(
        ONE(q.s), ONE(nm.einsum('pi,pai->pa', vec(m), p.gs))),
    'dw_st_grad_div': lambda m, v, u: sc(m) * bil(ONE(v.div), ONE(u.div)),
    'dw_st_pspg_p': lambda m, q, p: sc(m) * bil(q.gs, p.gs),
    'dw_st_pspg_c': lambda m, q, b, u: sc(m) * bil(
        q.gs, dotc(b.val[:, 0], u.grad)),
    'dw_st_supg_p': lambda m, v, b, p: sc(m) * bil(
        dotc(b.val[:, 0], v.grad), p.gs),
    'dw_st_supg_c': lambda m, v, b, u: sc(m) * bil(
        dotc(b.val[:, 0], v.grad), dotc(b.val[:, 0], u.grad)),
    'dw_adj_convect1': lambda v, w, u: nm.einsum(
        'paj,pij,pbi->pab', v.val, u.grad[:, 0], w.val),
    'dw_adj_convect2': lambda v, w, u: nm.einsum(
        'pj,paij,pbi->pab', u.val[:, 0], v.grad, w.val),
    'dw_elastic_wave': lambda m, k, v, u: bil(kg(k, v), mv(m, kg(k, u))),
    'dw_stokes_wave': lambda k, v, u: bil(ONE(kv(k, v)), ONE(kv(k, u))),
    'dw_elastic_wave_cauchy': lambda m, k, v, u: bil(kg(k, v), mv(m, u.e)),
    'dw_stokes_wave_div': lambda k, v, u: bil(ONE(kv(k, v)), ONE(u.div)),
    'dw_non_penetration_p': lambda m, v, u, n: sc(m) * bil(
        ONE(nm.einsum('pai,pi->pa', v.val, n)),
        ONE(nm.einsum('pai,pi->pa', u.val, n))),
    'dw_non_penetration': lambda m, v, p, n: sc(m) * bil(
        ONE(nm.einsum('pai,pi->pa', v.val, n)), ONE(p.s)),
    'dw_surface_flux': lambda m, q, p, n: bil(
        ONE(q.s), ONE(nm.einsum('pi,pai->pa', n,
                                p.gs if m is None else mv(m, p.gs)))),
    'de_stokes_traction': lambda m, v, u, n: sc(m) * bil(
        v.val, nm.einsum('paij,pj->pai', u.grad, n)),
    'de_surface_flux': lambda m, q, p, n: bil(
        ONE(q.s), ONE(nm.einsum('pi,pai->pa', n, mv(m, p.gs)))),
    'de_surface_piezo_flux': lambda m, q, u, n: bil(
        ONE(q.s), ONE(nm.einsum('pk,pak->pa', n, mv(m, u.e)))),
    'de_m_flexo': lambda v, t: bil(v.gvec, t.val),
}
for _name in ('laplace', 'diffusion', 'dot', 'div_grad', 'lin_convect',
              'lin_elastic', 'nonsym_elastic', 'stokes', 's_dot_mgrad_s',
              'non_penetration_p'):
    BIL['de_' + _name] = BIL['dw_' + _name]
for _name in ('volume_dot', 'surface_dot'):
    BIL['dw_' + _name] = f_dot

def f_coupling(m, q, p):
    # Mode weak 1: p K_j d_j q.
    return bil(ONE(nm.einsum('pi,pai->pa', vec(m), q.gs)), ONE(p.s))
BIL['dw_diffusion_coupling'] = f_coupling

def trac(m, v, n):
    if m is None:
        tt = n
    elif m.shape[1] == 1:
        tt = m[:, 0] * n
    elif m.shape[2] == v.dim and v.dim > 1:
        tt = nm.einsum('pij,pj->pi', m, n)
    elif m.shape[1] == v.dim:
        tt = vec(m)
    else:
        tt = nm.einsum('pij,pj->pi', full(m, v.dim), n)
    return nm.einsum('pai,pi->pa', v.val, tt)

s1 = lambda m: 1.0 if m is None else m[:, 0]

LIN = {
    'dw_integrate': lambda m, q: s1(m) * q.s,
    'dw_volume_lvf': lambda m, v: nm.einsum('pai,pi->pa', v.val, vec(m)),
    'dw_div': lambda m, v: s1(m) * v.div,
    'dw_diffusion_r': lambda m, q: nm.einsum('pi,pai->pa', vec(m), q.gs),
    'dw_lin_prestress': lambda m, v: aten(m, v),
    'dw_lin_strain_fib': lambda m, d, v: nm.einsum(
        'pas,pst,pt->pa', v.e, m, nm.stack(
            [d[:, i, 0] * d[:, j, 0] for i, j in fe.VOIGT[v.dim]], axis=1)),
    'dw_surface_ltr': trac,
    'dw_surface_ndot': lambda m, q, n: q.s * nm.einsum('pi,pi->p', vec(m),
                                                      n)[:, None],
}
for _name in ('integrate', 'div', 'surface_ltr'):
    LIN['de_' + _name] = LIN['dw_' + _name]
LIN['dw_volume_integrate'] = LIN['dw_surface_integrate'] = LIN['dw_integrate']

# Nonlinear in states: f(mats, virtual, states at their values) -> (P, a).
NON = {
    'dw_convect': lambda v, u: bil(v.val, dotc(u.val[:, 0], u.grad))[..., 0],
    'dw_convect_v_grad_s': lambda q, u, p: q.s * nm.einsum(
        'pi,pi->p', u.val[:, 0], p.gs[:, 0])[:, None],
    'dw_bc_newton': lambda a, o, q, p: q.s * (
        a[:, 0] * (p.s - o[:, 0])),
    'dw_nl_diffusion': lambda f, d, q, p: bil(
        q.gs, p.gs)[..., 0] * f(p.s[:, 0])[:, None],
    'dw_volume_nvf': lambda f, d, q, p: q.s * f(p.s[:, 0])[:, None],
    'dw_electric_source': lambda m, q, p: q.s * m[:, 0] * (
        p.gs[:, 0]**2).sum(-1)[:, None],
    'dw_st_adj1_supg_p': None,
    'dw_tl_volume': lambda q, u: q.s * nm.linalg.det(
        nm.eye(u.dim) + u.grad[:, 0])[:, None],
    'dw_ul_volume': lambda q, u: q.s * (det(
        nm.eye(u.dim) + u.grad[:, 0])[:, None] - 1.0),
}
COMPLEX_NO = ('dw_st_supg_c', 'ev_def_grad') # Not linear in the arguments.
NON['de_convect'] = lambda m, v, u: (
    (1.0 if m is None else m[:, 0]) * NON['dw_convect'](v, u))
NON = {kk : vv for kk, vv in NON.items() if vv is not None}

# Energies W(F, J, mat): the residual is the derivative of the integral.
def w_neohook(ff, mm, **kwargs):
    i1, i2, jj = invariants(ff)
    return 0.5 * mm[..., 0, 0] * jj**(-2.0 / 3) * i1

def w_mr(ff, mm, **kwargs):
    i1, i2, jj = invariants(ff)
    return 0.5 * mm[..., 0, 0] * jj**(-4.0 / 3) * i2

def invariants(ff):
    """
    Plane strain in 2D.
    """
    cc = nm.swapaxes(ff, -1, -2) @ ff
    ex = 3 - ff.shape[-1]
    tr = nm.trace(cc, axis1=-2, axis2=-1) + ex
    t2 = nm.trace(cc @ cc, axis1=-2, axis2=-1) + ex
    return tr, 0.5 * (tr**2 - t2), det(ff)

def w_bulk(ff, mm, **kwargs):
    return 0.5 * mm[..., 0, 0] * (det(ff) - 1)**2

def w_pressure(ff, pp, **kwargs):
    return -pp * (det(ff) - 1)

def w_active(ff, mm, **kwargs):
    return mm[..., 0, 0] * det(ff)

def w_svk(ff, mm, **kwargs):
    dim = ff.shape[-1]
    ee = 0.5 * (nm.swapaxes(ff, -1, -2) @ ff - nm.eye(dim))
    ev = nm.stack([ee[..., i, j] * (1 if i == j else 2)
                   for i, j in fe.VOIGT[dim]], axis=-1)
    return 0.5 * nm.einsum('...i,...ij,...j->...', ev, mm, ev)

def w_yeoh(ff, mm, **kwargs):
    i1, i2, jj = invariants(ff)
    i1 = jj**(-2.0 / 3) * i1
    out = 0.0
    for ii in range(mm.shape[-2]):
        out = out + mm[..., ii, 0] * (i1 - 3)**mm[..., ii, 1]
    return out

def det(ff):
    dim = ff.shape[-1]
    if dim == 1:
        return ff[..., 0, 0]
    if dim == 2:
        return ff[..., 0, 0] * ff[..., 1, 1] - ff[..., 0, 1] * ff[..., 1, 0]
    return (ff[..., 0, 0] * (ff[..., 1, 1] * ff[..., 2, 2]
                             - ff[..., 1, 2] * ff[..., 2, 1])
            - ff[..., 0, 1] * (ff[..., 1, 0] * ff[..., 2, 2]
                               - ff[..., 1, 2] * ff[..., 2, 0])
            + ff[..., 0, 2] * (ff[..., 1, 0] * ff[..., 2, 1]
                               - ff[..., 1, 1] * ff[..., 2, 0]))

ENERGY = {
    'dw_tl_he_neohook': w_neohook,
    'dw_tl_he_mooney_rivlin': w_mr,
    'dw_tl_bulk_penalty': w_bulk,
    'dw_tl_bulk_active': w_active,
    'dw_tl_bulk_pressure': w_pressure,
    'dw_tl_he_svk': w_svk,
    'dw_tl_he_genyeoh': w_yeoh,
    'dw_ul_he_neohook': w_neohook,
    'dw_ul_he_mooney_rivlin': w_mr,
    'dw_ul_bulk_penalty': w_bulk,
    'dw_ul_bulk_pressure': w_pressure,
}

# Integrands of the evaluated terms: (P, ...).
EV = {
    'ev_integrate': lambda m, y, n: (1.0 if m is None else m[:, 0]) * (
        y.val[:, 0]),
    'ev_integrate_mat': lambda m, y, n: m,
    'ev_grad': lambda m, y, n: (1.0 if m is None else m) * y.grad[:, 0]
    .swapaxes(1, 2),
    'ev_div': lambda m, y, n: (1.0 if m is None else m[:, 0, 0]) * y.div[:, 0],
    'ev_cauchy_strain': lambda y, n: y.e[:, 0],
    'ev_cauchy_stress': lambda m, y, n: mv(m, y.e)[:, 0],
    'de_cauchy_stress': lambda m, y, n: mv(m, y.e)[:, 0],
    'ev_diffusion_velocity': lambda m, y, n: -mv(m, y.gs)[:, 0],
    'ev_biot_stress': lambda m, y, n: -vec(m) * y.s,
    'ev_piezo_strain': lambda m, y, n: mv(m, y.e)[:, 0],
    'ev_piezo_stress': lambda m, y, n: nm.einsum('pki,pk->pi', m, y.gs[:, 0]),
    'ev_surface_flux': lambda m, y, n: (
        nm.einsum('pi,pi->p', n, y.gs[:, 0]) if m is None
        else nm.einsum('pi,pij,pj->p', n, m, y.gs[:, 0])),
    'ev_volume': lambda y, n: nm.ones(len(y.val)),
    'ev_volume_surface': None,
    'ev_def_grad': lambda y, n: nm.eye(y.dim) + y.grad[:, 0],
    'ev_surface_piezo_flux': lambda m, y, n: nm.einsum(
        'pk,pks,ps->p', n, m, y.e[:, 0]),
}
EV['ev_volume_integrate'] = EV['ev_surface_integrate'] = EV['ev_integrate']
EV['ev_cauchy_strain_s'] = EV['ev_cauchy_strain']
EV['ev_surface_grad'] = EV['ev_grad']
EV['ev_surface_div'] = EV['ev_div']
EV['ev_volume_integrate_mat'] = EV['ev_integrate_mat']
EV['ev_surface_integrate_mat'] = EV['ev_integrate_mat']
EV['ev_surface_flux2'] = EV['ev_surface_flux']
EV = {kk : vv for kk, vv in EV.items() if vv is not None}

##
# Arguments.

def parse_dim(sh, dim, num):
    sym = (dim * (dim + 1)) // 2
    tab = {'D': dim, 'D2': dim**2, 'D3': dim**3, 'S': sym, 'SD': sym * dim,
           'N': num}
    return tab[sh] if sh in tab else int(sh)

def mat_value(shape, key, sym=False):
    """
    A deterministic full matrix with the given shape: constant and linear
    parts.
    """
    ii = nm.arange(nm.prod(shape)).reshape(shape)
    m0 = 1.0 + 0.3 * nm.sin(1.3 * ii + 0.7 * key)
    m1 = 0.2 * nm.cos(0.9 * ii + 1.1 * key)
    if len(shape) == 2 and shape[0] == shape[1]:
        m0 = m0 + 2 * nm.eye(shape[0])
        if sym:
            m0, m1 = 0.5 * (m0 + m0.T), 0.5 * (m1 + m1.T)
    return m0, m1

def mat_at(val, coors, const=False):
    m0, m1 = val
    lin = 0.0 if const else (coors * (1 + nm.arange(coors.shape[1]))).sum(1)
    return m0[None] + m1[None] * (lin * nm.ones(len(coors)))[:, None, None]

class Setup:
    """
    A domain with its reference.
    """
    def __init__(self, mname, coors=None):
        from sfepy.discrete.fem import FEDomain, Mesh
        cc, conns, descs = meshes.data(mname)
        self.coors = distort(cc) if coors is None else coors
        conn = conns[0]
        self.gname = descs[0]
        self.conn = self._fix(conn)
        self.dim = self.coors.shape[1]
        self.mname = mname
        self.mesh = Mesh.from_data('m', self.coors, None, [self.conn],
                                   [nm.zeros(len(conn), nm.int32)], descs)
        self.domain = FEDomain('d', self.mesh)
        self.omega = self.domain.create_region('Omega', 'all')
        self.regions = {'Omega': (self.omega, list(range(len(conn))))}

    def _fix(self, conn):
        # Positive orientation.
        if self.gname == '3_4':
            conn = conn.copy()
            for row in conn:
                xx = self.coors[row]
                if nm.linalg.det(xx[1:] - xx[0]) < 0:
                    row[[2, 3]] = row[[3, 2]]
        return conn

    def region(self, what, ids=None):
        key = '%s_%s' % (what, '_'.join(map(str, ids or [])))
        if key in self.regions:
            return self.regions[key]
        if what == 'cells':
            reg = self.domain.create_region(
                key, 'cell ' + ', '.join(map(str, ids)), 'cell')
            items = list(ids)
        else:
            fac = self.facets()
            if ids is None:
                ids = range(len(fac))
            for ii in ids:
                fkey = 'F%d' % ii
                if fkey not in self.regions:
                    verts = ', '.join(str(iv) for iv in sorted(fac[ii][1]))
                    self.regions[fkey] = self.domain.create_region(
                        fkey, 'vertex ' + verts, 'facet')
            reg = self.domain.create_region(
                key, (' +f ' if self.dim == 3 else ' +e ').join('r.F%d' % ii for ii in ids), 'facet')
            items = self.in_order(reg, fac)
        self.regions[key] = (reg, items)
        return self.regions[key]

    def in_order(self, reg, fac):
        """
        Facets in the order used by the region.
        """
        cmesh = self.domain.cmesh
        fd = cmesh.tdim - 1
        out = []
        if fd == 0:
            byv = {frozenset(vv): (ic, vv) for ic, vv in fac}
            return [byv[frozenset([int(iv)])] for iv in reg.facets]
        cmesh.setup_connectivity(fd, 0)
        conn = cmesh.get_conn(fd, 0)
        byv = {frozenset(vv): (ic, vv) for ic, vv in fac}
        for ifa in reg.facets:
            vv = conn.indices[conn.offsets[ifa]:conn.offsets[ifa + 1]]
            item = byv.get(frozenset(int(ii) for ii in vv))
            require(item is not None, 'facet %s', vv)
            out.append(item)
        return out

    def facets(self):
        seen = {}
        for ic, row in enumerate(self.conn):
            for fv in fe.FACETS[self.gname]:
                vv = tuple(int(row[ii]) for ii in fv)
                seen.setdefault(frozenset(vv), []).append((ic, vv))
        return [vv[0] for vv in seen.values() if len(vv) == 1]

REFFAC = fe.FACETS

def dofs_of(n_dof, key):
    return 0.3 + nm.sin(1.9 * nm.arange(n_dof) + key) * 0.9

class Case:
    """
    Arguments of a term.
    """
    def __init__(self, setup, cls, shapes, ats, mode, region, items, facets,
                 integral, qps, orders, num=1, cplx=False, const=False,
                 scale=1.0, surf_field=False):
        from sfepy.discrete import FieldVariable, Material
        from sfepy.discrete.fem import Field
        from sfepy.terms.terms import get_arg_kinds
        self.setup, self.cls, self.ats = setup, cls, ats
        self.kinds = get_arg_kinds(ats)
        dim = setup.dim
        self.points = fe.Points(setup.coors, setup.conn, setup.gname, items,
                                qps, facets)
        self.args, names, self.ref = {}, [], []
        self.vars, self.virtual, self.states = [], None, []
        self.const = const
        dtype = nm.complex128 if cplx else nm.float64
        self.dtype = dtype
        fields = {}
        vals = {}
        self.mats = []

        def fun(ts, coors, mode=None, **kwargs):
            if mode == 'qp':
                return {kk : mat_at(vv, coors, const)
                        for kk, vv in vals.items()}
        use_fun = False
        for ii, kind in enumerate(self.kinds):
            at = ats[ii]
            sh = None
            if kind != 'ts':
                sh = shapes.get(at, shapes.get('%s/%s' % (at, mode)))
            if kind.endswith('variable'):
                s0 = sh[0] if isinstance(sh, tuple) else sh
                nc = parse_dim(s0, dim, num)
                order = orders[0 if nc == 1 else 1]
                key = (nc, order)
                if key not in fields:
                    freg = region if surf_field else setup.omega
                    fields[key] = Field.from_args('f%d' % nc, dtype, nc,
                                                  freg, approx_order=order)
                field = fields[key]
                n_dof = field.n_nod * nc
                if kind == 'virtual_variable':
                    ist = None
                    if sh[1] is not None and sh[1] in ats:
                        ist = ats.index(sh[1])
                    var = FieldVariable('v', 'test', field,
                                        primary_var_name='u%s' % ist)
                    if ist is None:
                        uu = FieldVariable('uNone', 'unknown', field)
                        uu.set_data(nm.zeros(n_dof, dtype))
                        self.extra = uu
                        var.primary_var_name = 'uNone'
                    self.virtual = ii
                elif kind == 'state_variable':
                    var = FieldVariable('u%d' % ii, 'unknown', field)
                    self.states.append(ii)
                else:
                    var = FieldVariable('p%d' % ii, 'parameter', field,
                                        primary_var_name='(set-to-None)')
                bf = self.basis(field, nc, setup)
                if kind == 'virtual_variable':
                    self.ref.append(bf)
                else:
                    dofs = dofs_of(n_dof, ii) * scale
                    if cplx:
                        dofs = dofs + 1j * dofs_of(n_dof, ii + 7)
                    var.set_data(dofs.astype(dtype))
                    self.ref.append((bf, dofs, var))
                self.args[var.name] = var
                names.append(var.name)
            elif kind.endswith('material'):
                if sh is None:
                    self.ref.append(None)
                    continue
                prefix = ''
                if isinstance(sh, str) and ':' in sh:
                    prefix, sh = [ss.strip() for ss in sh.split(':')]
                if sh == 'str': raise Skip
                shape = [parse_dim(ss.strip(), dim, num)
                         for ss in str(sh).split(',')]
                if prefix or len(shape) == 1:
                    if shape == [1]:
                        value = 1.3
                    else:
                        value = mat_value(shape, ii)[0]
                    mat = Material('m%d' % ii, values={'.c%d' % ii: value})
                    self.ref.append(value)
                else:
                    sym = isinstance(sh, str) and sh.replace(' ', '') in (
                        'S,S', 'SD,SD')
                    vv = mat_value(tuple(shape), ii, sym)
                    vals['c%d' % ii] = vv
                    self.ref.append(mat_at(vv, self.points.x, const))
                    mat = None
                    use_fun = True
                names.append(('m.c%d' if mat is None else 'm%d.c%d')
                             % ((ii,) if mat is None else (ii, ii)))
                if mat is not None:
                    self.args[mat.name] = mat
            elif kind == 'user':
                # f(p), f'(p) of nonlinear terms.
                fun_ = {'fun' : lambda pp: 1 + nm.sin(pp),
                        'dfun' : lambda pp: nm.cos(pp)}[at]
                self.args[at] = fun_
                names.append(at)
                self.ref.append(fun_)
            else:
                raise Skip
        if use_fun:
            from sfepy.discrete import Function
            self.args['m'] = Material('m', function=Function('fun', fun))
        self.fields = fields
        self.names = names
        from sfepy.terms import Term
        self.term = Term.new('%s(%s)' % (cls.name, ', '.join(names)), integral,
                             region, **self.args)
        self.term.setup()

    def basis(self, field, nc, setup):
        ap = field.approx_order
        if ap == 0:
            conn = nm.arange(len(setup.conn))[:, None]
            val, grad = self.points.basis(nm.array([[0.25] * setup.dim]), conn,
                                          0, field.n_nod)
            return fe.basis_fun(val, grad, nc)
        nodes = field.poly_space.node_coors
        conn = field.get_econn('cell', field.region)
        val, grad = self.points.basis(nodes, conn, ap, field.n_nod)
        return fe.basis_fun(val, grad, nc)

    def fargs(self, sub=None):
        """
        Reference arguments: functions with the current DOFs; `sub` index gets
        the whole basis.
        """
        out = []
        for ii, ref in enumerate(self.ref):
            if isinstance(ref, tuple):
                bf, dofs, var = ref
                out.append(bf if ii == sub else fe.dof_fun(bf, dofs))
            else:
                out.append(ref)
        return out

    def assemble(self, diff_var=None):
        """
        Global vector or matrix from the element contributions.
        """
        term = self.term
        vals, iels = term.evaluate(mode='weak', diff_var=diff_var)
        vv = self.args['v']
        nrow = vv.field.n_nod * vv.n_components
        rname = term.region.name
        rc = self.dofconn(vv, rname)
        require(vals.shape[:3] == (rc.shape[0], 1, rc.shape[1]),
                'shape %s, DOFs %s', vals.shape, rc.shape)
        require(list(iels) == list(range(rc.shape[0])), 'elements %s', iels)
        if diff_var is None:
            out = nm.zeros(nrow, vals.dtype)
            nm.add.at(out, rc, vals[:, 0, :, 0])
            return out
        sv = self.args[diff_var]
        out = nm.zeros((nrow, sv.field.n_nod * sv.n_components), vals.dtype)
        cc = self.dofconn(sv, rname)
        require(vals.shape[3] == cc.shape[1], 'columns %s, %s', vals.shape,
                cc.shape)
        nm.add.at(out, (rc[:, :, None], cc[:, None, :]), vals[:, 0])
        return out

    def dofconn(self, var, rname):
        """
        DOF connectivity in the component major order of terms.
        """
        ct = self.term.get_dof_conn_type(var.name)
        econn = var.field.get_econn(ct[0] if isinstance(ct, tuple) else ct,
                                    self.term.region)
        nc = var.n_components
        return nm.concatenate([econn * nc + ic for ic in range(nc)], axis=1)

    def order_qps(self):
        """
        Positions of the physical points of the term in the reference ones, by
        items: facet points depend on the orientation.
        """
        pts = self.points
        qps = self.term.get_physical_qps()
        got = qps.values.reshape((pts.n_item, pts.n_qp, -1))
        ref = pts.x.reshape(got.shape)
        dist = nm.linalg.norm(got[:, :, None] - ref[:, None], axis=-1)
        out = dist.argmin(2)
        require(dist.min(2).max() < 1e-10
                and (nm.sort(out, axis=1) == nm.arange(pts.n_qp)).all(),
                'other physical points')
        return out

    def integrate(self, vals):
        return nm.einsum('p,p...->...', self.points.w, vals)

def close(got, ref, msg, *args, rtol=1e-9):
    scale = max(nm.abs(ref).max(initial=0), 1e-3)
    err = nm.abs(got - ref).max(initial=0)
    require(nm.isfinite(got).all() and err < rtol * scale,
            msg + ': error %.2e of %.2e', *args, err, scale)

def needs_normal(fun, nvar):
    import inspect
    return 'n' in inspect.signature(fun).parameters

def call(fun, case, args):
    if needs_normal(fun, None):
        return fun(*args, n=case.points.normal)
    return fun(*args)

def judge_bil(case, fun, acc):
    ats = case.ats
    iv = [ii for ii, kk in enumerate(case.kinds) if kk.endswith('variable')]
    if case.virtual is None:
        # The evaluation of a form.
        ref = call(fun, case, case.fargs())
        vals = ref[:, 0, 0]
        judge_modes(case, vals, acc)
        return
    st = [ii for ii in case.states]
    require(len(st) == 1, 'states %s', st)
    ist = st[0]
    args = case.fargs(sub=ist)
    ref = call(fun, case, args)
    if case.virtual > ist:
        ref = ref.swapaxes(1, 2)
    mtx = case.integrate(ref)
    dofs = case.ref[ist][1]
    close(case.assemble(), mtx @ dofs, 'residual')
    close(case.assemble(case.args['u%d' % ist].name), mtx, 'matrix')

def judge_lin(case, fun, acc):
    ref = call(fun, case, case.fargs())
    if case.virtual is None:
        judge_modes(case, ref[:, 0], acc)
        return
    close(case.assemble(), case.integrate(ref), 'vector')

def set_state(case, ii, dofs):
    bf, _, var = case.ref[ii]
    case.ref[ii] = (bf, dofs, var)
    var.set_data(dofs.copy())

def move_mesh(case):
    """
    The configuration of the updated Lagrangian formulation.
    """
    mesh = case.setup.mesh
    if not hasattr(mesh, 'coors_act'):
        mesh.coors_act = mesh.coors.copy()
    mesh.coors_act[:] = mesh.coors
    for var in case.args.values():
        if not hasattr(var, 'field'): continue
        var.field.clear_mappings(clear_all=True)
        for ct in {ct[0] if isinstance(ct, tuple) else ct
                   for ct in [case.term.geometry_types[var.name]]}:
            var.field.get_mapping(case.term.region, case.term.integral, ct)
        var.field.save_mappings()
        var.field.clear_mappings()
    bf, dofs, _ = case.ref[case.states[0]]
    mesh.coors_act[:] = mesh.coors + dofs.reshape((-1, bf.dim))

def judge_non(case, fun, acc, tangents=True, getref=None):
    """
    Nonlinear: residuals, tangents by central differences of the reference.
    """
    if case.virtual is None:
        if getref is None:
            ref = fun(*[fe.Fun(aa.val[:, :1], aa.grad[:, :1]) if ii == 0
                        and False else aa
                        for ii, aa in enumerate(case.fargs())])
            judge_modes(case, ref[:, 0], acc)
        return

    ul = '_ul_' in case.cls.name
    if ul and any(var.field.approx_order > 1
                  for _, _, var in [case.ref[ii] for ii in case.states]):
        raise Skip

    def res():
        if getref is not None:
            return getref()
        return case.integrate(call(fun, case, case.fargs()))
    base = [case.ref[ii][1].copy() for ii in case.states]
    for ik in range(2):
        for ii, dofs in zip(case.states, base):
            set_state(case, ii, dofs * (1.0 - 0.4 * ik))
        if ul:
            move_mesh(case)
        if ik == 0:
            close(case.assemble(), res(), 'residual', rtol=1e-8)
        mats = [case.assemble('u%d' % ii) for ii in case.states]
        if ik:
            # The residual follows the matrix at the new state.
            close(case.assemble(), res(), 'residual', rtol=1e-8)
        for ii, mtx in zip(case.states, mats):
            dofs = case.ref[ii][1].copy()
            hh = 1e-5
            ref = nm.zeros_like(mtx)
            for ic in range(len(dofs)):
                dd = dofs.copy()
                bf, _, var = case.ref[ii]
                dd[ic] += hh
                case.ref[ii] = (bf, dd, var)
                r1 = res()
                dd = dofs.copy()
                dd[ic] -= hh
                case.ref[ii] = (bf, dd, var)
                r0 = res()
                ref[:, ic] = (r1 - r0) / (2 * hh)
            case.ref[ii] = (bf, dofs, var)
            close(mtx, ref, 'matrix w.r.t. u%d in state %d', ii, ik,
                  rtol=2e-7)

def judge_energy(case, fun, acc):
    mat = None
    bulk_p = 'pressure' in case.cls.name
    iu = case.states[0]

    def energy_res():
        """
        Derivative by the complex step.
        """
        bf, dofs, _ = case.ref[iu]
        if bulk_p:
            pbf, pdofs, _ = case.ref[case.states[1]]
            mm = fe.dof_fun(pbf, pdofs).s[:, 0]
        else:
            mm = case.ref[0]
        gg = nm.einsum('paij,a->pij', bf.grad, dofs)
        hh = 1e-30
        ff = (nm.eye(bf.dim) + gg)[:, None] + 1j * hh * bf.grad
        mm = mm[:, None]
        if 'yeoh' in case.cls.name:
            # Coefficients and exponents.
            nn = mm.shape[-1] // 2
            mm = nm.stack([mm[..., 0, :nn], mm[..., 0, nn:]], axis=-1)
        ww = fun(ff, mm)
        return case.integrate(ww.imag / hh)
    judge_non(case, None, acc, getref=energy_res)

def judge_modes(case, vals, acc):
    """
    All the evaluation modes given the integrand in points.
    """
    term, pts = case.term, case.points
    tot = case.integrate(vals)
    got = nm.asarray(term.evaluate(mode='eval'))
    close(got, tot.squeeze(), 'eval')
    per = nm.zeros((pts.n_item,) + vals.shape[1:], vals.dtype)
    vol = nm.zeros(pts.n_item)
    nm.add.at(per, pts.item, (pts.w * vals.T).T)
    nm.add.at(vol, pts.item, pts.w)
    for mode in ('el_eval', 'el_avg', 'qp', 'eval'):
        if mode == 'eval':
            # Again, after the other modes.
            got = nm.asarray(term.evaluate(mode='eval'))
            close(got, tot.squeeze(), 'second eval')
            continue
        try:
            got = nm.asarray(term.evaluate(mode=mode))
        except (ValueError, KeyError) as exc:
            acc.count('unsupported')
            continue
        if mode == 'qp':
            if got.shape[:2] != (pts.n_item, pts.n_qp):
                # The term has a single value per element.
                acc.count('noqp')
                continue
            ref = vals.reshape((pts.n_item, pts.n_qp) + vals.shape[1:])
            ref = nm.take_along_axis(ref, case.order_qps().reshape(
                (pts.n_item, pts.n_qp) + (1,) * (ref.ndim - 2)), axis=1)
        elif mode == 'el_eval':
            if got.ndim < 2 or got.shape[0] != pts.n_item:
                acc.count('noel')
                continue
            ref = per[:, None]
        else:
            if case.cls.name == 'ev_volume':
                vol = 1.0
            ref = (per.T / vol).T[:, None]
        if (got.size == ref.size) and (got.shape[0] == ref.shape[0]):
            # Various unit dimensions.
            got = got.reshape(ref.shape)
        require(got.shape == ref.shape, 'shape %s of mode %s, expected %s',
                got.shape, mode, ref.shape)
        close(got, ref, 'mode %s', mode)

def shapes_of(cls, integ):
    dd = getattr(cls, 'arg_shapes_dict', None)
    ll = dd[integ] if dd else cls.arg_shapes
    if not isinstance(ll, list):
        ll = [ll]
    prev = {}
    out = []
    for sh in ll:
        cur = copy(prev)
        cur.update(sh)
        prev = cur
        out.append(cur)
    return out

def explore(cls, mname, tier, acc):
    """
    All the configurations of a term.
    """
    from sfepy.discrete import Integral
    name = cls.name
    setup = Setup(mname)
    gname = setup.gname
    if gname not in cls.geometries:
        return
    order = 4 if gname in ('2_3', '3_4') else 2
    integral = Integral('i', order=order)
    qps = {}
    for gg in ('1_2', '2_3', '2_4', '3_4', '3_8'):
        qps[gg] = integral.get_qp(gg)
    fgeo = {'1_2': None, '2_3': '1_2', '2_4': '1_2', '3_4': '2_3',
            '3_8': '2_4'}[gname]
    integs = cls.integration
    if isinstance(integs, str):
        integs = (integs,)
    all_ats = cls.arg_types
    if not isinstance(all_ats[0], tuple):
        all_ats = (all_ats,)
    modes = getattr(cls, 'modes', None)

    regs = []
    if 'cell' in integs:
        regs.append(('cell', setup.region('cells', list(range(
            len(setup.conn)))) if False else setup.regions['Omega'], False))
        if len(setup.conn) > 1:
            regs.append(('cell', setup.region('cells',
                                              [len(setup.conn) - 1]), False))
    if ('facet' in integs or 'facet_extra' in integs) and setup.dim > 1:
        ik = 'facet' if 'facet' in integs else 'facet_extra'
        regs.append((ik, setup.region('facets'), True))
        regs.append((ik, setup.region('facets', [1]), True))
    hexa = mname == 'hex1'
    for integ, (region, items), isf in regs:
        n_all = len(setup.conn) if not isf else len(setup.facets())
        nonl = name in NON or name in ENERGY
        for ish, shapes in enumerate(shapes_of(cls, integ)):
            for iat, ats in enumerate(all_ats):
                mode = modes[iat] if modes else None
                for orders in ([(1, 1)] if hexa and nonl else
                               [(1, 1), (1, 2), (2, 1)]):
                    if nonl and orders == (2, 1): continue
                    if tier == 'quick' and orders != (1, 1) and (
                            (hexa and ish) or len(items) == 1 < n_all):
                        continue
                    for cplx in (False, True):
                        if cplx and (nonl or orders != (1, 2) or hexa
                                     or name in COMPLEX_NO or name.startswith('de_')):
                            continue
                        ident = [name, region.name, ish, mode, orders, cplx]
                        with acc.case(ident):
                            case = make_case(setup, cls, shapes, ats, mode,
                                             region, items, isf, integral, qps,
                                             orders, cplx)
                            dispatch(case, name, acc)
                            acc.outcome([mname, ident])
                            acc.transitions += 1

def make_case(setup, cls, shapes, ats, mode, region, items, isf, integral,
              qps, orders, cplx):
    scale = (0.05 if cls.name in ENERGY or '_tl_' in cls.name
             or '_ul_' in cls.name else 1.0)
    if '_ul_' in cls.name and isf: raise Skip
    if (cls.name == 'dw_surface_ltr' and mode == 'weak'
            and shapes['opt_material'] == 'D, D'):
        # Documented as supported in the evaluation only.
        raise Skip
    for at in ats:
        sh = shapes.get(at, shapes.get('%s/%s' % (at, mode)))
        if at in ('ts',): raise Skip
        if not at.startswith(('opt_', 'fun', 'dfun')) and sh is None:
            raise Skip
    num = setup.dim if isf else 2
    return Case(setup, cls, shapes, ats, mode, region, items, isf, integral,
                qps, orders, num=num, cplx=cplx, scale=scale)

def dispatch(case, name, acc):
    if name in BIL:
        judge_bil(case, BIL[name], acc)
    elif name in LIN:
        judge_lin(case, LIN[name], acc)
    elif name in NON:
        if '_ul_' in name and case.setup.dim == 1: raise Skip
        judge_non(case, NON[name], acc)
    elif name in ENERGY:
        if case.setup.dim == 1: raise Skip
        judge_energy(case, ENERGY[name], acc)
    elif name in EV:
        vals = EV[name](*case.fargs(), case.points.normal)
        judge_modes(case, vals, acc)
    else:
        raise KeyError(name)

NAMES = sorted(set(BIL) | set(LIN) | set(NON) | set(ENERGY) | set(EV))

def groups(tier):
    step = 6
    return [['values', ' '.join(NAMES[ii::len(NAMES) // step]), mname, tier]
            for mname in MESHES for ii in range(len(NAMES) // step)]

def run(group, acc):
    from sfepy.terms import term_table
    what, names, mname, tier = group
    for name in names.split():
        explore(term_table[name], mname, tier, acc)
