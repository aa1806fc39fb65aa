"""
C23: isogeometric analysis: bases, geometry, boundaries and solutions on NURBS
patches given by knots, control points and weights.

The oracle evaluates B-splines by the Cox-de Boor recurrence.
"""
import itertools

import numpy as nm

from mc.core import require, Mismatch

PID = 'C23'
LEVEL = 'exploration'
RULE = ('a case = a patch (degrees, knots, weights, control points) and an'
        ' operation on it; distinct by these, all are non-trivial')
ASSUMPTIONS = ['knot vectors are open, interior knots have multiplicities up'
               ' to the degree',
               'mappings are invertible, weights are positive',
               'igakit is not available: elevation of degrees uses a'
               ' replacement, block generators are not judged']
BOUNDS = {
    'quick': 'all open knot vectors of degrees 1 to 3 with up to 4 spans of'
             ' lengths 1, 2 and all multiplicities of interior knots in 1D;'
             ' 1D, 2D, 3D patches of all degrees up to 3 (3D: 2) and of knot'
             ' vectors with 1 to 3 spans, two sets of weights, straight'
             ' and curved',
    'thorough': 'up to 5 spans in 1D; more knot vectors of patches, degrees 3'
                ' in 3D',
}
LIMIT = 800

EPS = 1e-10

def basis(knots, deg, x, span, nder=0):
    """
    All B-splines of degree `deg` in x in the nonempty span
    [knots[span], knots[span + 1]], by Cox-de Boor, and their derivatives.
    """
    n_k = len(knots)
    N = nm.zeros(n_k - 1)
    N[span] = 1.0
    for p in range(1, deg + 1):
        prev = N
        N = nm.zeros(n_k - 1 - p)
        for i in range(n_k - 1 - p):
            v = 0.0
            d1 = knots[i + p] - knots[i]
            if d1 > 0: v += (x - knots[i]) / d1 * prev[i]
            d2 = knots[i + p + 1] - knots[i + 1]
            if d2 > 0: v += (knots[i + p + 1] - x) / d2 * prev[i + 1]
            N[i] = v
        if p == deg:
            D = nm.zeros_like(N)
            for i in range(len(N)):
                d1 = knots[i + p] - knots[i]
                if d1 > 0: D[i] += p / d1 * prev[i]
                d2 = knots[i + p + 1] - knots[i + 1]
                if d2 > 0: D[i] -= p / d2 * prev[i + 1]
    return N, D

def spans(knots):
    return [ii for ii in range(len(knots) - 1) if knots[ii + 1] > knots[ii]]

def make_knots(deg, lens, mults):
    ks = [0.0] * (deg + 1)
    x = 0.0
    for ii, ll in enumerate(lens):
        x += ll
        m = mults[ii] if ii < len(mults) else deg + 1
        ks += [x] * m
    return nm.array(ks) / x

def greville(knots, deg):
    n = len(knots) - deg - 1
    return nm.array([knots[ii + 1:ii + deg + 1].mean() for ii in range(n)])

class Patch:
    """
    The reference patch.
    """
    def __init__(self, degs, knots, wkind, geo):
        self.degs, self.knots = list(degs), [nm.asarray(k) for k in knots]
        self.dim = len(degs)
        gs = [greville(k, d) for k, d in zip(self.knots, degs)]
        self.shape = tuple(len(g) for g in gs)
        grid = nm.stack(nm.meshgrid(*gs, indexing='ij'), -1)
        grid = grid.reshape(-1, self.dim)
        # Not a unit and not an isotropic shape.
        scale = nm.array([1.0, 1.5, 0.75])[:self.dim]
        X = grid * scale
        if geo == 'skew':
            A = nm.eye(self.dim)
            if self.dim > 1: A[0, 1] = 0.3
            if self.dim > 1: A[1, 0] = -0.1
            if self.dim > 2: A[2, 1] = 0.2
            X = X @ A.T + 0.5
        elif geo == 'curved':
            ii = nm.arange(len(X))
            hs = nm.min([nm.diff(nm.unique(k)).min() for k in self.knots])
            X = X + 0.05 * hs * nm.sin(1.0 + 2.3 * ii[:, None]
                                       + 1.1 * nm.arange(self.dim)[None])
        self.cps = nm.ascontiguousarray(X)
        n = len(X)
        if wkind == 'one':
            self.w = nm.ones(n)
        else:
            self.w = 1.0 + 0.3 * nm.cos(0.7 + 1.7 * nm.arange(n))
        self.sps = [spans(k) for k in self.knots]
        self.n_els = [len(s) for s in self.sps]
        self.lens = [[k[s + 1] - k[s] for s in sp]
                     for k, sp in zip(self.knots, self.sps)]

    def cells(self):
        return list(itertools.product(*[range(n) for n in self.n_els]))

    def rational(self, cell, xi):
        """
        The basis, its derivatives w.r.t. the reference coordinates, the
        coordinates and the matrix dx/dxi in the reference coordinates of a
        cell. The derivatives have shape (n, dim).
        """
        Ns, Ds = [], []
        for ia in range(self.dim):
            k, sp = self.knots[ia], self.sps[ia][cell[ia]]
            h = k[sp + 1] - k[sp]
            N, D = basis(k, self.degs[ia], k[sp] + xi[ia] * h, sp)
            Ns.append(N)
            Ds.append(D * h)
        def prod(arrs):
            out = arrs[0]
            for a in arrs[1:]: out = nm.multiply.outer(out, a)
            return out.ravel()
        B = prod(Ns) * self.w
        dB = nm.stack([prod([Ds[ia] if ia == ib else Ns[ia]
                             for ia in range(self.dim)]) * self.w
                       for ib in range(self.dim)], -1)
        W, dW = B.sum(), dB.sum(0)
        R = B / W
        dR = dB / W - nm.outer(B, dW) / W**2
        return R, dR, R @ self.cps, self.cps.T @ dR

    def support(self, cell):
        axs = [nm.arange(sp[c] - d, sp[c] + 1) for sp, c, d
               in zip(self.sps, cell, self.degs)]
        g = nm.meshgrid(*axs, indexing='ij')
        return nm.ravel_multi_index([x.ravel() for x in g], self.shape)

def build(pp):
    """
    The sfepy domain of the patch.
    """
    import sfepy.discrete
    from sfepy.base.base import output
    output.set_output(quiet=True)
    from sfepy.discrete.iga import iga
    from sfepy.discrete.iga.domain import IGDomain, NurbsPatch

    cs = iga.compute_bezier_extraction(tuple(pp.knots), pp.degs)
    conn, bconn = iga.create_connectivity(pp.n_els, tuple(pp.knots), pp.degs)
    ccs = iga.combine_bezier_extraction(cs)
    bcps, bw = iga.compute_bezier_control(pp.cps, pp.w, ccs, conn, bconn)
    regions = iga.get_patch_box_regions(pp.n_els, pp.degs)
    dom = IGDomain.from_data(tuple(pp.knots), pp.degs, pp.cps, pp.w, cs, conn,
                             bcps, bw, bconn, regions)
    out = dict(cs=cs, conn=conn, bconn=bconn, ccs=ccs, bcps=bcps, bw=bw,
               regions=regions, dom=dom, nurbs=dom.nurbs, iga=iga)
    return type('Built', (), out)

class Igakit:
    """
    The part of igakit.cad.NURBS used for elevating degrees.
    """
    def __init__(self, knots, control, weights=None):
        self.knots = tuple(nm.array(k) for k in knots)
        w = weights[..., None]
        self.cw = nm.concatenate([control * w, w], -1)

    @property
    def degree(self):
        return tuple(len(k) - n - 1
                     for k, n in zip(self.knots, self.cw.shape))

    @property
    def shape(self): return self.cw.shape[:-1]

    @property
    def weights(self): return self.cw[..., -1].copy()

    @property
    def points(self):
        X = self.cw[..., :-1] / self.cw[..., -1:]
        pad = nm.zeros(X.shape[:-1] + (3 - X.shape[-1],))
        return nm.concatenate([X, pad], -1)

    def elevate(self, axis, times):
        old, deg = self.knots[axis], self.degree[axis]
        uk, cnt = nm.unique(old, return_counts=True)
        new = nm.repeat(uk, cnt + times)
        gs = greville(new, deg + times)
        def mtx(knots, d):
            sps = spans(knots)
            out = []
            for x in gs:
                s = [s for s in sps if knots[s] <= x + 1e-13][-1]
                out.append(basis(knots, d, x, s)[0])
            return nm.array(out)
        T = nm.linalg.solve(mtx(new, deg + times), mtx(old, deg))
        self.cw = nm.moveaxis(nm.tensordot(T, self.cw, (1, axis)), 0, axis)
        self.knots = tuple(new if ii == axis else k
                           for ii, k in enumerate(self.knots))
        return self

def set_igakit():
    import sys, types
    if 'igakit' not in sys.modules:
        m, c = types.ModuleType('igakit'), types.ModuleType('igakit.cad')
        c.NURBS, m.cad = Igakit, c
        sys.modules['igakit'], sys.modules['igakit.cad'] = m, c

def check_elevate(pp, b):
    """
    The elevated patch is the same patch, then everything holds for it.
    """
    set_igakit()
    from sfepy.discrete import Field

    require(b.nurbs.elevate(0) is b.nurbs, 'elevated zero times')
    for times in (1, 2):
        if times == 2 and pp.dim == 3: continue
        data = [k.copy() for k in pp.knots], pp.cps.copy(), pp.w.copy()
        nu = b.nurbs.elevate(times)
        for k, k0 in zip(b.nurbs.knots, data[0]):
            close(k, k0, 'knots after elevate()')
        close(b.nurbs.cps, data[1], 'control points after elevate()')
        close(b.nurbs.weights, data[2], 'weights after elevate()')
        require(list(nu.degrees) == [d + times for d in pp.degs],
                'elevated degrees')
        p2 = Patch.__new__(Patch)
        p2.degs, p2.dim = [d + times for d in pp.degs], pp.dim
        p2.knots = [nm.repeat(*(lambda u, c: (u, c + times))(
            *nm.unique(k, return_counts=True))) for k in pp.knots]
        p2.shape = tuple(len(k) - d - 1 for k, d in zip(p2.knots, p2.degs))
        p2.cps, p2.w = nu.cps, nu.weights
        p2.sps = [spans(k) for k in p2.knots]
        p2.n_els = pp.n_els
        require(nu.cps.shape == (nm.prod(p2.shape), pp.dim),
                'number of elevated control points')
        for c in pp.cells():
            for q in ref_points(pp.dim):
                close(p2.rational(c, q)[2], pp.rational(c, q)[2],
                      'the elevated geometry')
        b2 = type('Built', (), dict(vars(b)))
        b2.nurbs, b2.conn, b2.order = nu, nu.conn, 'iga+%d' % times
        check_eval(p2, b2)
        check_tp(p2, b2)
        check_field(p2, b2)
        check_points(p2, b2)
        if pp.dim == 2: check_problem(p2, b2, 'laplace')

def close(a, b, what, eps=EPS):
    a, b = nm.asarray(a), nm.asarray(b)
    require(a.shape == b.shape, '%s: shape %s, not %s', what, a.shape, b.shape)
    err = nm.abs(a - b).max() if a.size else 0.0
    require(err <= eps * (1.0 + nm.abs(b).max() if b.size else 1.0),
            '%s differ: %s', what, err)

# Groups.

def all_knots(deg, n_max):
    for n in range(1, n_max + 1):
        for lens in itertools.product((1, 2), repeat=n):
            if n > 1 and min(lens) == 2: continue
            for mults in itertools.product(range(1, deg + 1), repeat=n - 1):
                yield lens, mults

def run_1d(acc, deg, n_max):
    import sfepy.discrete
    from sfepy.discrete.iga import iga
    from sfepy.discrete.iga.extmods import igac
    from math import comb

    with acc.case(['tensor product', deg]):
        for sh in itertools.product((1, deg, deg + 1), repeat=4):
            a = nm.cos(nm.arange(sh[0] * sh[1])).reshape(sh[:2])
            c = nm.sin(nm.arange(sh[2] * sh[3]) + 1.0).reshape(sh[2:])
            close(iga.tensor_product(a, c), nm.kron(a, c), 'tensor product')

    xs = nm.linspace(0, 1, deg + 3)
    with acc.case(['bernstein', deg]):
        for x in nm.linspace(0, 1, 21):
            ref = [comb(deg, i) * x**i * (1 - x)**(deg - i)
                   for i in range(deg + 1)]
            low = [comb(deg - 1, i) * x**i * (1 - x)**(deg - 1 - i)
                   for i in range(deg)]
            der = deg * (nm.r_[0.0, low] - nm.r_[low, 0.0])
            f, d = iga.eval_bernstein_basis(x, deg)
            close(f, ref, 'Bernstein polynomials')
            close(d, der, 'derivatives of Bernstein polynomials')
            f, d = nm.zeros(deg + 1), nm.zeros(deg + 1)
            igac.eval_bernstein_basis(f, d, x, deg)
            close(f, ref, 'Bernstein polynomials (C)')
            close(d, der, 'derivatives of Bernstein polynomials (C)')

    for lens, mults in all_knots(deg, n_max):
        knots = make_knots(deg, lens, mults)
        with acc.case([deg, list(lens), list(mults)]):
            sps = spans(knots)
            C = iga.compute_bezier_extraction_1d(knots, deg)
            require(C.shape == (len(sps), deg + 1, deg + 1),
                    'shape of extraction operators %s', C.shape)
            conn, bconn = iga.create_connectivity_1d(len(sps), knots, deg)
            refc = nm.array([nm.arange(s - deg, s + 1) for s in sps])
            require(nm.array_equal(conn, refc), 'connectivity %s, not %s',
                    conn.tolist(), refc.tolist())
            refb = nm.array([nm.arange(deg + 1) + deg * e
                             for e in range(len(sps))])
            require(nm.array_equal(bconn, refb), 'Bezier connectivity')
            for e, s in enumerate(sps):
                for x in xs:
                    N, _ = basis(knots, deg,
                                 knots[s] + x * (knots[s + 1] - knots[s]), s)
                    B = [comb(deg, i) * x**i * (1 - x)**(deg - i)
                         for i in range(deg + 1)]
                    close(C[e] @ B, N[conn[e]], 'element B-splines', 1e-9)
            acc.outcome(len(sps))

def patches(dim, tier):
    """
    Degrees and knots of patches.
    """
    full = tier == 'thorough'
    def kvs(deg):
        out = [((1,), ()), ((1, 2), (1,))]
        if deg > 1: out.append(((2, 1), (deg,)))
        if dim < 3 or full:
            out.append(((1, 2, 1), (1, min(2, deg))))
        return out

    dmax = 3 if (dim < 3 or full) else 2
    for degs in itertools.product(range(1, dmax + 1), repeat=dim):
        if dim == 3 and not full and sum(degs) > 5: continue
        if dim == 3 and full and sum(degs) > 7: continue
        opts = [kvs(d) for d in degs]
        if dim == 3:
            # Pairs of axes take all combinations.
            combos = set()
            for ia in range(3):
                for o in opts[ia]:
                    for ib in range(3):
                        if ib == ia: continue
                        for oo in opts[ib]:
                            cc = [x[1] for x in opts]
                            cc[ia], cc[ib] = o, oo
                            combos.add(tuple(cc))
            combos = sorted(combos)
        else:
            combos = list(itertools.product(*opts))
        for combo in combos:
            yield degs, combo

def get_patch(degs, combo, wk, geo):
    knots = [make_knots(d, *c) for d, c in zip(degs, combo)]
    return Patch(degs, knots, wk, geo)

def ref_points(dim):
    ps = {1: [0.0, 0.3, 1.0], 2: [0.0, 0.4, 1.0], 3: [0.0, 0.6]}[dim]
    out = [p for p in itertools.product(ps, repeat=dim)]
    if dim == 3: out.append((1.0, 1.0, 1.0))
    return nm.array(out)

def check_eval(pp, b):
    """
    The bases in the quadrature points, Python and C.
    """
    from sfepy.discrete.iga import iga
    from sfepy.discrete.iga.extmods import igac

    nu = b.nurbs
    qps = ref_points(pp.dim)
    cells = pp.cells()
    ref = [[pp.rational(c, q) for q in qps] for c in cells]
    for c, ec in zip(cells, b.conn):
        require(sorted(ec) == sorted(pp.support(c)) and
                nm.array_equal(ec, pp.support(c)),
                'connectivity of cell %s', c)

    n_el = len(cells)
    var = nm.ascontiguousarray(
        nm.c_[nm.sin(nm.arange(len(pp.w)) + 1.0), nm.arange(len(pp.w))**2.0])
    sels = [None, [n_el - 1], list(range(n_el))[::-1]]
    if n_el > 2: sels.append([1, n_el - 1])
    for sel in sels:
        ics = list(range(n_el)) if sel is None else sel
        R = nm.array([[ref[i][j][0][b.conn[i]] for j in range(len(qps))]
                      for i in ics])[:, :, None]
        G = nm.array([[nm.linalg.solve(ref[i][j][3].T,
                                       ref[i][j][1][b.conn[i]].T)
                       for j in range(len(qps))] for i in ics])
        D = nm.array([[nm.linalg.det(ref[i][j][3])
                       for j in range(len(qps))] for i in ics])
        D = D[..., None, None]
        X = nm.array([ref[i][j][2] for i in ics for j in range(len(qps))])
        V = nm.array([ref[i][j][0] @ var for i in ics
                      for j in range(len(qps))])
        for name, mod in [('python', iga), ('C', igac)]:
            if name == 'python' and sel is None and n_el > 6: continue
            css = nu.cs if mod is igac else [c[:, 0] if nm.ndim(c) == 4 else c
                                             for c in nu.cs]
            cc = None if sel is None else nm.array(sel, dtype=nm.uint32)
            args = (nu.cps, nu.weights, nu.degrees, css, nu.conn, cc)
            bf, bfg, dets = mod.eval_mapping_data_in_qp(qps, *args)
            close(bf, R, 'bases (%s)' % name)
            close(bfg, G, 'gradients (%s)' % name, 1e-9)
            close(dets, D, 'Jacobians (%s)' % name)
            x, v, d = mod.eval_variable_in_qp(var, qps, *args)
            close(x, X, 'coordinates (%s)' % name)
            close(v, V, 'values (%s)' % name)
            close(d, D.reshape(-1, 1), 'Jacobians of values (%s)' % name)

    # One cell at a time.
    ctx = igac.CNURBSContext(nu.cps, nu.weights, nu.degrees, nu.cs, nu.conn)
    for i in range(n_el):
        ctx.iel = i
        o = ctx.evaluate(qps)
        close(o[:, 0], [ref[i][j][0][b.conn[i]] for j in range(len(qps))],
              'bases of the context')
        o = ctx.evaluate(qps, diff=True)
        close(o, [nm.linalg.solve(ref[i][j][3].T, ref[i][j][1][b.conn[i]].T)
                  for j in range(len(qps))], 'gradients of the context', 1e-9)

def check_bezier(pp, b):
    """
    The Bezier mesh: geometry, vertices, facets.
    """
    from math import comb
    iga = b.iga
    dim = pp.dim
    cells = pp.cells()
    degs = pp.degs

    def bern(d, x):
        return nm.array([comb(d, i) * x**i * (1 - x)**(d - i)
                         for i in range(d + 1)])
    def kron(ars):
        out = ars[0]
        for a in ars[1:]: out = nm.kron(out, a)
        return out

    nb = [n * d + 1 for n, d in zip(pp.n_els, degs)]
    require(b.bcps.shape == (nm.prod(nb), dim), 'number of Bezier points')
    for i, c in enumerate(cells):
        axs = [nm.arange(d + 1) + d * ci for d, ci in zip(degs, c)]
        ref = nm.ravel_multi_index(
            [x.ravel() for x in nm.meshgrid(*axs, indexing='ij')], nb)
        require(nm.array_equal(b.bconn[i], ref), 'Bezier connectivity')
        for q in ref_points(dim):
            B = kron([bern(d, x) for d, x in zip(degs, q)])
            R, _, X, _ = pp.rational(c, q)
            bw = b.bw[b.bconn[i]]
            x = (B * bw) @ b.bcps[b.bconn[i]] / (B @ bw)
            close(x, X, 'the geometry of the Bezier mesh')

    # Vertices of elements in the FE order.
    corner = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)]}
    corner[3] = [(x, y, z) for z in (0, 1) for x, y in corner[2]]
    tc = iga.get_bezier_topology(b.bconn, degs)
    for i, c in enumerate(cells):
        for j, q in enumerate(corner[dim]):
            X = pp.rational(c, nm.array(q, float))[2]
            close(b.bcps[tc[i, j]], X, 'vertices of elements')
            close(b.dom.mesh.coors[b.dom.mesh.get_conn('%d_%d' % (dim, 2**dim))
                                   [i, j]], X, 'vertices of the mesh')
    require(b.dom.mesh.n_nod == nm.prod(nm.array(pp.n_els) + 1),
            'number of mesh vertices')

    # Regions.
    names = sorted('xi%d%d' % (ia, s) for ia in range(dim) for s in (0, 1))
    require(sorted(b.regions) == names, 'names of regions')
    grid = nm.indices(nb).reshape(dim, -1).T
    isv = nm.all(grid % nm.array(degs) == 0, axis=1)
    for ia in range(dim):
        for s in (0, 1):
            ref = nm.nonzero(isv & (grid[:, ia] == (nb[ia] - 1) * s))[0]
            require(nm.array_equal(nm.sort(b.regions['xi%d%d' % (ia, s)]),
                                   ref), 'region xi%d%d', ia, s)

    # Facets of elements: exactly the functions not vanishing there.
    ents = iga.get_bezier_element_entities(degs)
    lgrid = nm.indices([d + 1 for d in degs]).reshape(dim, -1).T
    last = nm.array(degs)
    gel = b.dom.gel
    gc = nm.array(corner[dim])
    for kk, (td, conns) in enumerate([(2, gel.faces if dim == 3 else None),
                                      (1, gel.edges if dim > 1 else None),
                                      (0, nm.arange(2**dim)[:, None])]):
        if conns is None:
            require(ents[kk] is None, 'entities of dimension %d', td)
            continue
        require(len(ents[kk]) == len(conns), 'number of entities')
        for ent, cn in zip(ents[kk], conns):
            vs = gc[cn]
            fixed = nm.nonzero(nm.all(vs == vs[0], axis=0))[0]
            ref = nm.nonzero(nm.all(lgrid[:, fixed]
                                    == (vs[0] * last)[fixed], axis=1))[0]
            require(nm.array_equal(nm.sort(ent), ref),
                    'functions of an entity %s: %s', cn, ent)
    if dim > 1:
        nfac = {2: 4, 3: 6}[dim]
        fac = ents[3 - dim]
        sd = iga.get_surface_degrees(degs)
        fc = gel.faces if dim == 3 else gel.edges
        pts = ref_points(dim - 1)
        bq = iga.create_boundary_qp(pts, dim)
        require(bq.shape == (nfac, len(pts), dim), 'boundary points')
        for i in range(nfac):
            vs = gc[fc[i]]
            fixed = nm.nonzero(nm.all(vs == vs[0], axis=0))[0]
            require(len(fixed) == 1, 'facet')
            require((bq[i][:, fixed[0]] == vs[0][fixed[0]]).all(),
                    'boundary points of facet %d', i)
            free = [a for a in range(dim) if a != fixed[0]]
            got = sorted(map(tuple, bq[i][:, free].tolist()))
            ref1 = sorted(map(tuple, pts.tolist()))
            ref2 = sorted(map(tuple, pts[:, ::-1].tolist()))
            require(got in (ref1, ref2), 'boundary points of facet %d', i)
            require(nm.array_equal(nm.sort(nm.ravel(sd[i])),
                                   nm.sort(last[free])), 'surface degrees')

def check_tp(pp, b):
    """
    Evaluation on tensor-product grids of parameters.
    """
    nu = b.nurbs
    pars = []
    for k in pp.knots:
        uk = nm.unique(k)
        mid = 0.3 * uk[:-1] + 0.7 * uk[1:]
        pars.append(nm.sort(nm.r_[uk, mid]))
    if pp.dim == 3: pars = [p[::2] if ii == 1 else p
                            for ii, p in enumerate(pars)]
    # Also not sorted ones, of different lengths.
    pars[-1] = pars[-1][::-1].copy()
    X, V = [], []
    var = nm.ascontiguousarray(
        nm.c_[nm.cos(nm.arange(len(pp.w))), nm.arange(len(pp.w)) % 3.0])
    for u in itertools.product(*pars):
        cell, xi = [], []
        for ia, x in enumerate(u):
            uk = nm.unique(pp.knots[ia])
            c = min(int(nm.searchsorted(uk, x, side='right')) - 1,
                    len(uk) - 2)
            cell.append(c)
            xi.append((x - uk[c]) / (uk[c + 1] - uk[c]))
        R, _, x, _ = pp.rational(cell, xi)
        X.append(x)
        V.append(R @ var)
    close(nu(*pars), X, 'coordinates in parameters')
    close(nu.evaluate(var, *pars), V, 'values in parameters')

    # One more call must not depend on the previous one.
    close(nu(*pars), X, 'coordinates in parameters, again')

    from sfepy.discrete.iga.utils import create_mesh_and_output
    mesh, out = create_mesh_and_output(nu, pars, u=var)
    close(mesh.coors, X, 'coordinates of the linear mesh')
    close(out['u'].data, V, 'output data')
    conn = mesh.get_conn('%d_%d' % (pp.dim, 2**pp.dim))
    ns = [len(p) for p in pars]
    require(len(conn) == nm.prod([n - 1 for n in ns]), 'linear mesh cells')
    # Cells connect neighbours.
    mi = nm.array(nm.unravel_index(conn, ns))
    require((mi.max(2) - mi.min(2) == 1).all(), 'cells of the linear mesh')

def facet_dofs(pp, ia, s):
    g = nm.arange(nm.prod(pp.shape)).reshape(pp.shape)
    return nm.sort(nm.take(g, (pp.shape[ia] - 1) * s, axis=ia).ravel())

def make_field(b, ncomp=1, name='f'):
    from sfepy.discrete import Field
    dom = b.dom
    dom.reset_regions()
    omega = dom.create_region('Omega', 'all')
    return omega, Field.from_args(name, nm.float64, (ncomp,), omega,
                                  approx_order=getattr(b, 'order', 'iga'),
                                  poly_space_basis='iga')

def check_field(pp, b):
    """
    The field: DOFs, mappings, surface bases, evaluation in points.
    """
    from sfepy.discrete import Integral
    dim = pp.dim
    omega, field = make_field(b, 1)
    require(field.n_nod == len(pp.w), 'number of DOFs')
    require(nm.array_equal(field.get_econn('cell', omega), b.conn),
            'connectivity of the field')
    require(nm.array_equal(field.get_dofs_in_region(omega),
                           nm.arange(len(pp.w))), 'DOFs of the whole region')

    cells = pp.cells()
    dom = b.dom
    # Subregions of cells.
    n_el = len(cells)
    for ii, sel in enumerate([[0], [n_el - 1], list(range(0, n_el, 2))]):
        reg = dom.create_region('C%d' % ii,
                                'cell %s' % ', '.join(map(str, sel)))
        require(nm.array_equal(field.get_econn('cell', reg), b.conn[sel]),
                'connectivity in cells %s', sel)
        require(nm.array_equal(field.get_dofs_in_region(reg),
                               nm.unique(b.conn[sel])), 'DOFs in cells')
        integral = Integral('i', order=4)
        mp, mapping = field.create_mapping(reg, integral, 'cell')
        qp, w = integral.get_qp(dom.gel.name)
        R = [[pp.rational(cells[i], q) for q in qp] for i in sel]
        close(mp.bf, [[r[0][b.conn[i]][None] for r in rr]
                      for i, rr in zip(sel, R)], 'bases of the mapping')
        close(mp.bfg, [[nm.linalg.solve(r[3].T, r[1][b.conn[i]].T)
                        for r in rr] for i, rr in zip(sel, R)],
              'gradients of the mapping', 1e-9)
        dets = nm.array([[abs(nm.linalg.det(r[3])) * ww
                          for r, ww in zip(rr, w)] for rr in R])
        close(mp.det, dets[..., None, None], 'Jacobians of the mapping')
        close(mp.volume, dets.sum(1)[:, None, None, None], 'cell volumes')
        close(mapping.get_physical_qps(qp),
              nm.array([[r[2] for r in rr] for rr in R]), 'physical points')
        require(tuple(field.get_data_shape(integral, region_name='C%d' % ii))
                == (len(sel), len(qp), dim, b.conn.shape[1]), 'data shape')

    for ia in range(dim):
        for s in (0, 1):
            name = 'xi%d%d' % (ia, s)
            reg = dom.create_region(name, 'vertices of set %s' % name,
                                    'facet')
            ref = facet_dofs(pp, ia, s)
            got = field.get_dofs_in_region(reg)
            require(nm.array_equal(got, ref), 'DOFs of %s: %s, not %s', name,
                    got, ref)
            got = field.get_dofs_in_region(reg, merge=False)
            require(len(got) == 1 and nm.array_equal(got[0], ref),
                    'DOFs of %s, not merged', name)
            lconn = field.get_econn('facet', reg, local=True)
            conn = field.get_econn('facet', reg)
            require(nm.array_equal(ref[nm.concatenate(lconn)],
                                   nm.concatenate(conn)), 'local DOFs')
            fis = reg.get_facet_indices()
            ncs = [[c for i, c in enumerate(cells)
                    if c[ia] == (pp.n_els[ia] - 1) * s]]
            require(len(fis) == len(ncs[0]), 'facets of %s', name)
            for (ie, ifa), ec in zip(fis, conn):
                c = cells[ie]
                require(c[ia] == (pp.n_els[ia] - 1) * s, 'cell of a facet')
                require(nm.array_equal(nm.sort(ec), nm.sort(
                    nm.intersect1d(pp.support(c), ref))), 'DOFs of a facet')
            if dim == 1: continue
            qps, bfs, dts = field.get_surface_basis(reg)
            require(len(qps) == len(bfs) == len(dts) == len(fis),
                    'number of surface bases')
            for (ie, ifa), ec, q, bf, dt in zip(fis, conn, qps, bfs, dts):
                require(nm.abs(bf.sum(1) - 1.0).max() < EPS,
                        'a surface basis does not sum to one')
                require((dt > 0).all(), 'surface Jacobians')
                close(bf @ pp.cps[ec], q, 'surface quadrature points')
                # The points lie on the boundary: project.
                for qq, bb in zip(q[::3], bf[::3]):
                    full = nm.zeros(len(pp.w))
                    full[ec] = bb
                    u = find_param(pp, cells[ie], ia, s, qq)
                    close(full, pp.rational(cells[ie], u)[0],
                          'surface basis', 1e-7)

def find_param(pp, cell, ia, s, x):
    """
    Newton iterations for reference coordinates of a point on a facet.
    """
    free = [a for a in range(pp.dim) if a != ia]
    u = nm.full(pp.dim, 0.5)
    u[ia] = s
    for _ in range(40):
        _, _, X, J = pp.rational(cell, u)
        r = x - X
        if nm.abs(r).max() < 1e-13: break
        du = nm.linalg.lstsq(J[:, free], r, rcond=None)[0]
        u[free] += du
    require(nm.abs(r).max() < 1e-9, 'a point is not on its facet')
    return u

def check_points(pp, b):
    """
    Evaluation in given points.
    """
    omega, field = make_field(b, 2)
    var = nm.ascontiguousarray(
        nm.c_[nm.cos(nm.arange(len(pp.w))), nm.arange(len(pp.w)) % 3.0])
    inner = [p for p in itertools.product((0.15, 0.6), repeat=pp.dim)]
    X, V, G, C = [], [], [], []
    for ic, c in enumerate(pp.cells()):
        for q in inner:
            R, dR, x, J = pp.rational(c, q)
            X.append(x)
            V.append(R @ var)
            G.append(nm.linalg.solve(J.T, dR.T @ var).T)
            C.append(ic)
    X = nm.array(X)
    v, cells, st = field.evaluate_at(X, var, ret_status=True, ret_cells=True)
    require((st == 0).all(), 'points not found: %s', st)
    require(nm.array_equal(cells, C), 'cells of points')
    close(v, nm.array(V)[..., None] if v.ndim == 3 else V,
          'values in points', 1e-6)
    g = field.evaluate_at(X, var, mode='grad')
    close(g.reshape(nm.shape(G)), G, 'gradients in points', 1e-5)

def check_io(pp, b):
    """
    Files of IGA domains.
    """
    from sfepy.discrete.iga.domain import IGDomain
    from sfepy.discrete.iga import io
    nu, bm = b.nurbs, b.dom.bmesh
    io.write_iga_data('patch.iga', None, tuple(pp.knots), pp.degs, pp.cps,
                      pp.w, [c[:, 0] if nm.ndim(c) == 4 else c
                             for c in nu.cs],
                      b.conn, b.bcps, b.bw, b.bconn, b.regions)
    dom = IGDomain.from_file('patch.iga')
    b2 = type('Built', (), dict(vars(b)))
    b2.dom, b2.nurbs = dom, dom.nurbs
    n2 = dom.nurbs
    for x, y in zip(n2.knots, pp.knots): close(x, y, 'knots read')
    require(list(n2.degrees) == list(pp.degs), 'degrees read')
    close(n2.cps, pp.cps, 'control points read')
    close(n2.weights, pp.w, 'weights read')
    require(nm.array_equal(n2.conn, b.conn), 'connectivity read')
    for x, y in zip(n2.cs, nu.cs): close(x, y, 'extraction read')
    close(dom.bmesh.cps, b.bcps, 'Bezier points read')
    close(dom.bmesh.weights, b.bw, 'Bezier weights read')
    require(nm.array_equal(dom.bmesh.conn, b.bconn), 'Bezier conn. read')
    require(sorted(dom.vertex_set_bcs) == sorted(b.dom.vertex_set_bcs),
            'regions read')
    for k, v in b.dom.vertex_set_bcs.items():
        require(nm.array_equal(dom.vertex_set_bcs[k], v), 'region %s read', k)
    check_eval(pp, b2)

def check_problem(pp, b, kind):
    """
    A problem with a linear solution: its DOFs are in the control points.
    """
    from sfepy.discrete import (FieldVariable, Material, Function, Equation,
                                Equations, Problem, Integral, Conditions)
    from sfepy.discrete.conditions import EssentialBC
    from sfepy.terms import Term
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    from sfepy.mechanics.matcoefs import stiffness_from_lame

    dim = pp.dim
    nc = 1 if kind == 'laplace' else dim
    A = nm.array([[0.5, -1.0, 2.0], [1.5, 0.25, -0.5], [0.1, 1.0, 0.3]])
    A = A[:nc, :dim]
    c0 = nm.array([1.0, -0.5, 0.25])[:nc]
    sol = pp.cps @ A.T + c0

    omega, field = make_field(b, nc)
    dom = b.dom
    integral = Integral('i', order=2 * max(pp.degs) + 1)
    u = FieldVariable('u', 'unknown', field)
    v = FieldVariable('v', 'test', field, primary_var_name='u')
    if kind == 'laplace':
        m = Material('m', val=2.0)
        call = 'dw_laplace(m.val, v, %s)'
    else:
        m = Material('m', D=stiffness_from_lame(dim, 1.0, 0.7))
        call = 'dw_lin_elastic(m.D, v, %s)'
    t = Term.new(call % 'u', integral, omega, m=m, v=v, u=u)
    if (pp.w != 1.0).any():
        # Rational functions are not integrated exactly.
        w = FieldVariable('w', 'parameter', field,
                          primary_var_name='(set-to-None)')
        w.set_data(sol.ravel())
        t = t - Term.new(call % 'w', integral, omega, m=m, v=v, w=w)
    eqs = Equations([Equation('balance', t)])
    calls = []
    def fun(ts, coors, bc=None, problem=None, **kwargs):
        calls.append(len(coors))
        return (coors @ A.T + c0).ravel() if nc > 1 else (coors @ A.T
                                                          + c0)[:, 0]
    bcf = Function('lin', fun)
    ebcs = []
    for ia in range(dim):
        for s in (0, 1):
            name = 'xi%d%d' % (ia, s)
            reg = dom.create_region(name, 'vertices of set %s' % name,
                                    'facet')
            val = bcf
            if dim == 1:
                val = float((pp.cps[-s] @ A.T + c0)[0])
            ebcs.append(EssentialBC(name, reg, {'u.all': val}))
    ls = ScipyDirect({})
    nls = Newton({'eps_a': 1e-9, 'eps_r': 1.0}, lin_solver=ls)
    pb = Problem('p', equations=eqs)
    pb.set_bcs(ebcs=Conditions(ebcs))
    pb.set_solver(nls)
    state = pb.solve(save_results=False, verbose=False)
    vec = state.get_state_parts()['u']
    close(vec.reshape(-1, nc), sol, 'the solution', 1e-7)

    # Integrals of the solution.
    vol = pb.evaluate('ev_volume.%d.Omega(u)' % integral.order, verbose=False)
    ref = 0.0
    refu = nm.zeros(nc)
    qp, w = integral.get_qp(dom.gel.name)
    for c in pp.cells():
        for q, ww in zip(qp, w):
            _, _, X, J = pp.rational(c, q)
            dd = abs(nm.linalg.det(J)) * ww
            ref += dd
            refu += dd * (A @ X + c0)
    close(vol, ref, 'volume')
    val = pb.evaluate('ev_integrate.%d.Omega(u)' % integral.order,
                      verbose=False)
    close(nm.ravel(val), refu, 'integral of the solution', 1e-7)
    grad = pb.evaluate('ev_grad.%d.Omega(u)' % integral.order,
                           mode='el_avg', verbose=False)
    g = grad.reshape(len(b.conn), dim, nc)
    for gg in g:
        close(gg, A.T, 'gradient of the solution', 1e-6)

    # The output is sampled properly.
    out = state.create_output()
    mesh = out['__mesh__']
    close(out['u'].data, mesh.coors[:, :dim] @ A.T + c0, 'output', 1e-7)

CHECKS = {'eval': check_eval, 'bezier': check_bezier, 'tp': check_tp,
          'field': check_field, 'points': check_points, 'io': check_io,
          'elevate': check_elevate}

def groups(tier):
    n_max = 4 if tier == 'quick' else 5
    out = [['1d', deg, n_max] for deg in (1, 2, 3)]
    for dim in (1, 2, 3):
        n = len(list(patches(dim, tier)))
        parts = {1: 1, 2: 8, 3: 12}[dim]
        if tier != 'quick': parts *= 3
        for ip in range(parts):
            out.append(['nd', dim, ip, parts, tier])
    for ip in range(8):
        out.append(['problem', ip, 8, tier])
    return out

def run(group, acc):
    if group[0] == '1d':
        run_1d(acc, group[1], group[2])

    elif group[0] == 'nd':
        _, dim, ip, parts, tier = group
        for ii, (degs, combo) in enumerate(patches(dim, tier)):
            if ii % parts != ip: continue
            for wk, geo in [('one', 'skew'), ('var', 'curved')]:
                pp = get_patch(degs, combo, wk, geo)
                b = None
                for name, fun in CHECKS.items():
                    if name == 'io' and ii % 5 and tier == 'quick': continue
                    if (name == 'elevate' and tier == 'quick'
                        and ii % [0, 1, 4, 9][dim]): continue
                    with acc.case([name, list(degs),
                                   [list(map(list, c)) for c in combo],
                                   wk, geo]):
                        if b is None: b = build(pp)
                        fun(pp, b)
                        acc.outcome(len(pp.w))

    else:
        _, ip, parts, tier = group
        todo = []
        for dim in (1, 2, 3):
            for ii, (degs, combo) in enumerate(patches(dim, tier)):
                if dim == 3 and ii % 7 and tier == 'quick': continue
                if dim == 2 and ii % 2 and tier == 'quick': continue
                for wk, geo in [('one', 'curved'), ('var', 'skew')]:
                    for kind in ('laplace', 'elastic'):
                        if dim == 1 and kind == 'elastic': continue
                        todo.append((degs, combo, wk, geo, kind))
        for degs, combo, wk, geo, kind in todo[ip::parts]:
            with acc.case([kind, list(degs),
                           [list(map(list, c)) for c in combo], wk, geo]):
                pp = get_patch(degs, combo, wk, geo)
                check_problem(pp, build(pp), kind)
                acc.outcome(kind)
