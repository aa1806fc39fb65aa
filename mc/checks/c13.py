"""
C13: polynomial bases of the reference elements.
"""
import itertools
import pickle
from math import factorial

import numpy as nm

from mc.core import require, Skip

PID = 'C13'
LEVEL = 'exploration'
RULE = ('a case = a basis, reference element and order, and a property of the'
        ' basis functions judged in all the points of a lattice; distinct by'
        ' the basis, element, order and property; non-trivial if the basis is'
        ' available for the element')
ASSUMPTIONS = ['the polynomial functions are identified by their values on a'
               ' unisolvent set of points', 'high orders limited by the'
               ' conditioning of equidistant nodes']
BOUNDS = {
    'quick': 'orders up to 10 on lines, 7 on triangles and quadrilaterals, 5'
             ' in tetrahedra and 4 in hexahedra, wedges of order 1',
    'thorough': 'orders up to 12 on lines, 9 on triangles and quadrilaterals,'
                ' 7 in tetrahedra and 6 in hexahedra',
}
LIMIT = 200
PRELOAD = ('sfepy.discrete.fem', 'sfepy.discrete.dg.poly_spaces', 'sympy',
           'scipy.special')

SIMPLEX = ('1_2', '2_3', '3_4')

def lattice(gname, num):
    """
    Points in the element: Chebyshev-Lobatto like, including vertices.
    """
    dim = int(gname[0])
    x1 = 0.5 - 0.5 * nm.cos(nm.pi * nm.arange(num + 1) / num)
    x1[0], x1[-1] = 0.0, 1.0
    if gname in ('2_4', '3_8', '1_2'):
        return nm.array(list(itertools.product(x1, repeat=dim)))
    if gname == '3_6':
        tri = lattice('2_3', num)
        return nm.array([list(xy) + [z] for z in x1 for xy in tri])
    out = []
    for idx in itertools.product(range(num + 1), repeat=dim):
        if sum(idx) > num: continue
        bb = (num - sum(idx),) + idx
        ww = nm.array([x1[ii] for ii in bb])
        out.append(ww[1:] / ww.sum())
    return nm.array(out)

def modes(gname, order):
    """
    The indices of Legendre polynomials products spanning the complete space.
    """
    dim = int(gname[0])
    out = []
    for idx in itertools.product(range(order + 1), repeat=dim):
        if gname in SIMPLEX and sum(idx) > order: continue
        if gname == '3_6' and (idx[0] + idx[1]) > order: continue
        out.append(idx)
    return nm.array(out)

def vander(coors, idx, der=()):
    """
    Values (or derivatives w.r.t. the given directions) of the products of
    shifted Legendre polynomials.
    """
    from numpy.polynomial import legendre as leg
    dim = coors.shape[1]
    omax = idx.max() if idx.size else 0
    out = nm.ones((len(coors), len(idx)))
    for ic in range(dim):
        nd = list(der).count(ic)
        tab = nm.zeros((len(coors), omax + 1))
        for io in range(omax + 1):
            cc = nm.zeros(io + 1)
            cc[io] = 1
            if nd:
                cc = leg.legder(cc, nd) if io >= nd else nm.zeros(1)
            tab[:, io] = leg.legval(2 * coors[:, ic] - 1, cc) * 2.0**nd
        out *= tab[:, idx[:, ic]]
    return out

def entities(gname):
    """
    All the (closed) entities as vertex sets from the bounding planes.
    """
    from sfepy.discrete.fem.geometry_element import GeometryElement
    return GeometryElement(gname)

def planes(gname):
    """
    The facets of the element as functions vanishing on them.
    """
    dim = int(gname[0])
    out = []
    if gname in ('2_4', '3_8'):
        for ic in range(dim):
            out.append(lambda xx, ic=ic: xx[:, ic])
            out.append(lambda xx, ic=ic: 1 - xx[:, ic])
    elif gname == '3_6':
        out = [lambda xx: xx[:, 0], lambda xx: xx[:, 1],
               lambda xx: 1 - xx[:, 0] - xx[:, 1],
               lambda xx: xx[:, 2], lambda xx: 1 - xx[:, 2]]
    else:
        for ic in range(dim):
            out.append(lambda xx, ic=ic: xx[:, ic])
        out.append(lambda xx: 1 - xx.sum(1))
    return out

def cond_tol(order):
    return 1e-11 * max(1.0, 4.0**(order - 3))

def lobatto1d(kk, ss):
    from numpy.polynomial import legendre as leg
    if kk == 0: return 0.5 * (1 - ss)
    if kk == 1: return 0.5 * (1 + ss)
    cc = nm.zeros(kk)
    cc[kk - 1] = 1
    return nm.sqrt((2 * kk - 1) / 2.0) * leg.legval(ss, leg.legint(cc, lbnd=-1))

def reference(basis, gname, order, ps, coors):
    """
    Independent values of the basis functions, if known.
    """
    dim = int(gname[0])
    if basis == 'bernstein':
        idx = nm.round(ps.node_coors * order).astype(int)
        if gname in SIMPLEX and gname != '1_2':
            bb = nm.c_[1 - coors.sum(1), coors]
            out = []
            for ii in idx:
                pows = (order - ii.sum(),) + tuple(ii)
                coef = factorial(order)
                for ip in pows: coef //= factorial(ip)
                out.append(coef * nm.prod(bb**nm.array(pows), axis=1))
            return nm.array(out).T
        out = nm.ones((len(coors), len(idx)))
        for ii, iidx in enumerate(idx):
            for ic, ip in enumerate(iidx):
                coef = factorial(order) // factorial(ip) // factorial(
                    order - ip)
                out[:, ii] *= coef * coors[:, ic]**ip * (
                    1 - coors[:, ic])**(order - ip)
        return out
    if basis == 'lobatto':
        out = nm.ones((len(coors), len(ps.nodes)))
        for ii, node in enumerate(ps.nodes):
            for ic, kk in enumerate(node):
                out[:, ii] *= lobatto1d(kk, 2 * coors[:, ic] - 1)
        return out

def make(basis, gname, order, bubble=False):
    from sfepy.discrete import PolySpace
    from sfepy.discrete.fem.geometry_element import GeometryElement
    geo = GeometryElement(gname)
    return PolySpace.any_from_args(None, geo, order, basis=basis,
                                   force_bubble=bubble)

def ev(ps, coors, diff=0, **kwargs):
    coors = nm.ascontiguousarray(coors)
    out = ps.eval_basis(coors, diff=diff, **kwargs)
    if ps.name_kind == 'legendre' and diff:
        require(out.shape[0] == 1, 'shape %s', out.shape)
        out = out[0]
    return out

def _basis(acc, basis, gname, order, bubble=False):
    dim = int(gname[0])
    ident = [basis + ('B' if bubble else ''), gname, order]
    ps = None
    with acc.case(ident + ['create']):
        try:
            ps = make(basis, gname, order, bubble)
        except (ValueError, KeyError):
            raise Skip
        ps.name_kind = basis
        acc.states += 1
    if ps is None: return

    tol = cond_tol(order)
    hom = order + (dim + 1 if bubble and (order < dim + 1) else 0)
    idx = modes(gname, max(order, dim + 1) if bubble else order)
    num = max(2, (max(order, dim + 1) if bubble else order) + 1)
    coors = lattice(gname, num)
    interior = lattice(gname, max(num + 1, dim + 2))
    interior = interior[nm.all([ff(interior) > 1e-12
                                for ff in planes(gname)], axis=0)]

    with acc.case(ident + ['values']):
        vals = ev(ps, coors)
        require(vals.shape == (len(coors), 1, ps.n_nod), 'shape %s',
                vals.shape)
        require(vals.flags['C_CONTIGUOUS'] and nm.isfinite(vals).all(),
                'values')
        vals = vals[:, 0]
        coefs, res, rank, _ = nm.linalg.lstsq(vander(coors, idx), vals,
                                              rcond=None)
        err = nm.abs(vander(coors, idx) @ coefs - vals).max()
        require(err < tol, 'not polynomials of the order, error %.2e', err)
        n_full = len(modes(gname, order))
        if not bubble and basis != 'serendipity':
            require(ps.n_nod == n_full, 'n_nod %d', ps.n_nod)
        rank = nm.linalg.matrix_rank(coefs, tol=1e-9)
        require(rank == ps.n_nod, 'dependent functions: rank %d of %d', rank,
                ps.n_nod)
        # All the polynomials of the order are in the space.
        if basis == 'serendipity' or bubble:
            pols = nm.array([ii for ii in itertools.product(
                range(order + 1), repeat=dim) if sum(ii) <= order])
            mtx = vander(coors, pols)
            sol = nm.linalg.lstsq(vals, mtx, rcond=None)[0]
            require(nm.abs(vals @ sol - mtx).max() < tol,
                    'missing polynomials')
        vals2 = ev(ps, interior)[:, 0]
        err = nm.abs(vander(interior, idx) @ coefs - vals2).max()
        require(err < tol, 'other values inside, error %.2e', err)
        acc.outcome([basis, gname, order, ps.n_nod])
        acc.transitions += len(coors) * ps.n_nod
    if acc.fails: return

    with acc.case(ident + ['gradients']):
        for xx in (coors, interior):
            grad = ev(ps, xx, diff=1)
            require(grad.shape == (len(xx), dim, ps.n_nod), 'shape %s',
                    grad.shape)
            for ic in range(dim):
                ref = vander(xx, idx, (ic,)) @ coefs
                err = nm.abs(grad[:, ic] - ref).max()
                require(err < 10 * order**2 * tol + tol, 'derivative w.r.t. '
                        ' x%d, error %.2e', ic, err)
                acc.transitions += len(xx)

    with acc.case(ident + ['hessians']):
        if basis != 'lagrange' or gname == '3_6': raise Skip
        for xx in (coors, interior):
            # The evaluation is slow in spaces with many functions.
            xx = xx[::max(1, len(xx) * ps.n_nod // 1200)]
            hess = ev(ps, xx, diff=2)
            require(hess.shape == (len(xx), dim, dim, ps.n_nod), 'shape %s',
                    hess.shape)
            for i1, i2 in itertools.product(range(dim), repeat=2):
                ref = vander(xx, idx, (i1, i2)) @ coefs
                err = nm.abs(hess[:, i1, i2] - ref).max()
                require(err < 100 * max(order, 1)**4 * tol,
                        'derivative w.r.t. x%d x%d, error %.2e', i1, i2, err)

    with acc.case(ident + ['unity']):
        if basis == 'legendre': raise Skip
        if basis == 'lobatto':
            vv = vals[:, ps.nts[:, 0] == 0]
        else:
            vv = vals
        require(nm.abs(vv.sum(1) - 1).max() < tol, 'partition of unity')

    with acc.case(ident + ['nodal']):
        if basis not in ('lagrange', 'sem', 'serendipity') or bubble:
            raise Skip
        if order == 0: raise Skip
        vv = ev(ps, ps.node_coors.astype(nm.float64))[:, 0]
        require(nm.abs(vv - nm.eye(ps.n_nod)).max() < tol,
                'values in nodes differ from the identity matrix')

    with acc.case(ident + ['reference']):
        ref = reference(basis, gname, order, ps, coors)
        if ref is None: raise Skip
        require(nm.abs(vals - ref).max() < tol, 'values, error %.2e',
                nm.abs(vals - ref).max())

    with acc.case(ident + ['entities']):
        if (basis == 'legendre') or (order == 0) or gname == '3_6':
            raise Skip
        _entities(ps, basis, gname, order, bubble, coors, vals, tol)

    with acc.case(ident + ['arguments']):
        v3 = ps.eval_basis(nm.ascontiguousarray(
            nm.array([coors, coors[::-1]])))
        if basis != 'legendre':
            require(v3.shape == (2, len(coors), 1, ps.n_nod), 'shape %s',
                    v3.shape)
            require(nm.array_equal(v3[0, :, 0], vals)
                    and nm.array_equal(v3[1, ::-1, 0], vals), 'point sets')
            g3 = ps.eval_basis(nm.ascontiguousarray(
                nm.array([coors, coors[::-1]])), diff=1)
            g0 = ps.eval_basis(coors, diff=1)
            require(nm.array_equal(g3[0], g0)
                    and nm.array_equal(g3[1, ::-1], g0), 'point sets')
            fa = ps.eval_basis(coors, force_axis=True)
            require(fa.shape == (1,) + ps.eval_basis(coors).shape
                    and nm.array_equal(fa[0, :, 0], vals), 'force_axis')
            trans = nm.arange(2 * ps.n_nod**2).reshape((2, ps.n_nod, -1)) % 5.0
            for diff in (0, 1):
                v0 = ps.eval_basis(coors, diff=diff)
                tv = ps.eval_basis(coors, diff=diff, transform=trans)
                ref = nm.stack([v0 @ tt.T for tt in trans])
                require(tv.shape == ref.shape and nm.abs(tv - ref).max()
                        < 1e-8, 'transform')
        for bad in (coors[:, 0], nm.zeros((3, dim + 1))):
            try:
                ps.eval_basis(bad)
            except ValueError:
                pass
            else:
                require(False, 'accepted wrong shape')
        # The evaluation is repeatable, also by a copy.
        require(nm.array_equal(ev(ps, coors)[:, 0], vals), 'repeated')
        if basis != 'legendre' or gname != '2_4':
            ps2 = pickle.loads(pickle.dumps(ps))
            require(nm.array_equal(ps2.eval_basis(coors)[:, 0], vals), 'copy')

    with acc.case(ident + ['outside']):
        if (basis != 'lagrange') or gname == '3_6': raise Skip
        for ip, fun in enumerate(planes(gname)):
            # Points of the facet moved by delta out of the element.
            on = coors[nm.abs(fun(coors)) < 1e-14]
            on = on[::max(1, len(on) // 6)]
            dirs = nm.array([fun(nm.eye(dim)[ic][None, :])
                             - fun(nm.zeros((1, dim)))
                             for ic in range(dim)])[:, 0]
            for delta, eps, bad in ((1e-4, 1e-3, False), (1e-3, 1e-4, True)):
                out = nm.ascontiguousarray(on - delta * dirs)
                for xx in out:
                    xx = xx[None, :].copy()
                    try:
                        vv = ps.eval_basis(xx, eps=eps)
                    except Exception:
                        require(bad, 'failed in %s, eps=%s', xx, eps)
                    else:
                        require(not bad, 'accepted %s, eps=%s', xx, eps)
                        # Snapped to the element.
                        require(nm.isfinite(vv).all(), 'values')
                v2 = ps.eval_basis(out, suppress_errors=True)
                require(v2.shape == (len(out), 1, ps.n_nod), 'suppress')
                ref = vander(out, idx) @ coefs
                # Extrapolated or snapped: near the value on the facet.
                require(nm.abs(v2[:, 0] - ref).max()
                        < 100 * (order + 1)**2 * delta * (
                            1 + nm.abs(coefs).max()), 'outside values')

def _entities(ps, basis, gname, order, bubble, coors, vals, tol):
    """
    Nodes belong to the entities they claim, the functions vanish on facets
    the entity is not a part of.
    """
    from sfepy.discrete.fem.geometry_element import GeometryElement
    geo = GeometryElement(gname)
    dim = geo.dim
    desc = ps.describe_nodes()
    pls = planes(gname)
    on_v = nm.array([nm.abs(ff(geo.coors)) < 1e-12 for ff in pls])
    def facets_of(verts):
        return on_v[:, list(verts)].all(axis=1)
    ents = []
    seen = []
    def add(nodes, verts):
        for ii in nm.atleast_1d(nodes):
            ents.append((int(ii), tuple(int(iv) for iv in verts)))
            seen.append(int(ii))
    if desc.vertex is not None:
        require(desc.vertex.tolist() == list(range(geo.n_vertex)), 'vertices')
        for ii in desc.vertex:
            add([ii], [ii])
    if desc.edge is not None:
        require(len(desc.edge) == len(geo.edges), 'edges')
        for ie, nodes in enumerate(desc.edge):
            require(len(nodes) == desc.n_edge_nod == order - 1, 'edge nodes')
            add(nodes, geo.edges[ie])
    if desc.face is not None:
        require(len(desc.face) == len(geo.faces), 'faces')
        for ifa, nodes in enumerate(desc.face):
            require(len(nodes) == desc.n_face_nod, 'face nodes')
            add(nodes, geo.faces[ifa])
    if desc.bubble is not None:
        require(len(desc.bubble) == desc.n_bubble_nod, 'bubble nodes')
        add(desc.bubble, range(geo.n_vertex))
    require(sorted(seen) == list(range(ps.n_nod)), 'nodes not partitioned: %s',
            sorted(seen))
    on_p = nm.array([nm.abs(ff(coors)) < 1e-12 for ff in pls])
    for node, verts in ents:
        fac = facets_of(verts)
        # The node is on the entity.
        on_n = nm.array([abs(ff(ps.node_coors[node][None, :])[0]) < 1e-12
                         for ff in pls])
        require((on_n == fac).all(), 'node %d at %s is not on the entity %s',
                node, ps.node_coors[node], verts)
        if bubble and node != ps.n_nod - 1 and order > dim:
            continue
        for ip in range(len(pls)):
            if not fac[ip]:
                mm = nm.abs(vals[on_p[ip], node]).max()
                require(mm < tol, 'function %d of the entity %s does not'
                        ' vanish on an opposite facet', node, verts)
    # Nodes on edges are ordered from the first vertex for nodal bases.
    if desc.edge is not None and basis in ('lagrange', 'sem', 'bernstein',
                                           'serendipity'):
        for ie, nodes in enumerate(desc.edge):
            x0 = geo.coors[geo.edges[ie][0]]
            dd = nm.linalg.norm(ps.node_coors[nodes] - x0, axis=1)
            require((nm.diff(dd) > 1e-8).all(), 'order of nodes in edge %d',
                    ie)

def _legendre(acc, gname, order):
    """
    Orthogonality and the Gmsh interpolation scheme of the DG basis.
    """
    from sfepy.discrete.integrals import Integral
    dim = int(gname[0])
    ident = ['legendre', gname, order]
    ps = make('legendre', gname, order)
    ps.name_kind = 'legendre'
    with acc.case(ident + ['orthogonal']):
        io = 2 * order + (2 if gname == '2_3' else 0)
        coors, weights = Integral('i', order=max(io, 1)).get_qp(gname)
        vals = ev(ps, coors)[:, 0]
        mtx = nm.einsum('qi,qj,q->ij', vals, vals, weights)
        off = mtx - nm.diag(nm.diag(mtx))
        require(nm.abs(off).max() < 1e-10, 'not orthogonal %.2e',
                nm.abs(off).max())
        require((nm.diag(mtx) > 0).all(), 'zero function')
        require(nm.allclose(vals[:, 0], 1.0), 'the first function')
    with acc.case(ident + ['hierarchic']):
        if order == 0: raise Skip
        low = make('legendre', gname, order - 1)
        low.name_kind = 'legendre'
        xx = lattice(gname, 5)
        v0, v1 = ev(low, xx)[:, 0], ev(ps, xx)[:, 0]
        for ii in range(v0.shape[1]):
            require(nm.abs(v1 - v0[:, [ii]]).max(0).min() < 1e-11,
                    'function %d missing', ii)
    with acc.case(ident + ['scheme']):
        sch = ps.get_interpol_scheme()
        if sch is None:
            require(dim == 1, 'no scheme')
            raise Skip
        require(sch.F.shape == (ps.n_nod, ps.n_nod)
                and sch.P.shape == (ps.n_nod, 3) and sch.desc == gname,
                'shapes')
        xx = lattice(gname, 4)
        uu = 2 * xx - 1 if gname == '2_4' else xx
        uu = nm.c_[uu, nm.zeros(len(uu))]
        pp = nm.prod(uu[:, None, :]**sch.P[None], axis=2)
        require(nm.abs(pp @ sch.F.T - ev(ps, xx)[:, 0]).max() < 1e-9,
                'values by the scheme')
    with acc.case(ident + ['1d']):
        if dim > 1: raise Skip
        xx = nm.linspace(0, 1, 7)
        vals = ev(ps, xx[:, None])[:, 0]
        for io in range(order + 1):
            require(nm.allclose(ps.get_nth_fun(io)(xx), vals[:, io],
                                atol=1e-8), 'get_nth_fun(%d)', io)
            der = ev(ps, xx[:, None], diff=1)[:, 0]
            require(nm.allclose(ps.get_nth_fun_der(io)(xx), der[:, io],
                                atol=1e-6), 'get_nth_fun_der(%d)', io)

def _lgl(acc):
    from sfepy.discrete.fem.poly_spaces import (get_lgl_nodes,
                                                eval_lagrange1d_basis)
    for num in range(1, 16):
        with acc.case(['lgl', num]):
            xs, ws = get_lgl_nodes(num)
            require(len(xs) == num + 1 and (nm.diff(xs) < 0).all()
                    and abs(xs[0] - 1) < 1e-15 and abs(xs[-1] + 1) < 1e-15,
                    'nodes %s', xs)
            for ip in range(2 * num):
                ref = 2.0 / (ip + 1) if ip % 2 == 0 else 0.0
                require(abs((xs**ip * ws).sum() - ref) < 1e-13,
                        'integral of x^%d', ip)

def groups(tier):
    deep = tier != 'quick'
    omax = ({'1_2' : 12, '2_3' : 9, '2_4' : 9, '3_4' : 7, '3_8' : 6} if deep
            else {'1_2' : 10, '2_3' : 7, '2_4' : 7, '3_4' : 5, '3_8' : 4})
    out = ['lgl']
    for gname, om in omax.items():
        for basis in ('lagrange', 'bernstein', 'lobatto', 'sem',
                      'serendipity'):
            for order in range(0, om + 1):
                if order == 0 and basis != 'lagrange': continue
                if basis == 'serendipity' and order > 3: continue
                out.append(['basis', basis, gname, order, False])
        if gname in ('2_3', '3_4'):
            # The complete polynomials of higher orders contain the bubble.
            for order in range(1, int(gname[0]) + 1):
                out.append(['basis', 'lagrange', gname, order, True])
        if gname in ('1_2', '2_3', '2_4'):
            for order in range(0, om + 1):
                # The data of higher orders are not a part of the repository.
                if gname == '2_3' and order > 5: continue
                out.append(['basis', 'legendre', gname, order, False])
                out.append(['legendre', gname, order])
    out.append(['basis', 'lagrange', '3_6', 1, False])
    return out

def run(group, acc):
    if group == 'lgl':
        _lgl(acc)
    elif group[0] == 'basis':
        _basis(acc, *group[1:])
    else:
        _legendre(acc, *group[1:])
