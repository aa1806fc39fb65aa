"""
C19: traces of variables in mirror regions.
"""
import itertools

import numpy as nm

from mc.checks.c17 import perms_of
from mc.core import require

PID = 'C19'
LEVEL = 'exploration'
RULE = ('a case = cells on both sides of an interface with given orders of'
        ' their vertices, a numbering of the vertices of the mesh, a shift of'
        ' one side, an approximation order and a way the trace is denoted;'
        ' distinct by these; non-trivial if the vertex orders differ')
ASSUMPTIONS = ['the facets of the two sides match after a shift, as required'
               ' for mirror regions',
               'Lagrange fields; hierarchical fields of order above one are'
               ' refused']
BOUNDS = {
    'quick' : 'one cell on each side: pairs of rotations of the cells (all in'
              ' 2D, each fourth (tetrahedra), eighth (hexahedra) one by all'
              ' in 3D), 3 numberings, 3 shifts, two notations (all in 2D and'
              ' order 1, cyclically otherwise); several cells on each side:'
              ' two rotations, all orders of four cells in 2D, 5 (4) orders'
              ' in 3D, 2 numberings, 3 shifts, each third to twelfth'
              ' combination; three cells on each side in all orders of facets;'
              ' regions with two mirror regions; orders 1-3 (2'
              ' in 3D)',
    'thorough' : 'all pairs of rotations, 6 numberings, order 3 in 3D, pairs'
                 ' of different rotations for several cells',
}
LIMIT = 850

REF = {'2_3' : [[0, 0], [1, 0], [0, 1]],
       '2_4' : [[0, 0], [1, 0], [1, 1], [0, 1]],
       '3_4' : [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
       '3_8' : [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}
REF = {key : nm.array(val, dtype=float) for key, val in REF.items()}

def _numbering(name, num):
    ids = nm.arange(num)
    if name == 'id': return ids
    if name == 'rev': return ids[::-1]
    if name == 'odd': return nm.r_[ids[1::2], ids[::2]].argsort()
    step = {'m3' : 3, 'm5' : 5, 'm7' : 7}[name]
    while num % step == 0: step += 2
    while nm.gcd(num, step) > 1: step += 1
    return (ids * step + 1) % num

NUMBERINGS = ('id', 'rev', 'odd', 'm3', 'm5', 'm7')

def _sides(gname, n_cell):
    """
    Coordinates of cells on the left and on the right of x = 0, in pairs with
    a common facet.
    """
    ref = REF[gname]
    dim = ref.shape[1]
    right, left = [], []
    if n_cell == 1: shifts = [nm.zeros(dim)]
    elif n_cell == 3: shifts = [nm.r_[0.0, ii, nm.zeros(dim - 2)]
                                for ii in range(3)]
    else:
        shifts = [nm.r_[0.0, list(ii)] for ii in
                  itertools.product(range(2), repeat=dim - 1)][:n_cell]
    for shift in shifts:
        rr = ref + shift
        ll = ref.copy()
        if gname in ('2_4', '3_8'):
            ll[:, 0] -= 1
        else:
            ll[:, 0] *= -1
            # Keep the orientation.
            ll = ll[[0, 2, 1]] if gname == '2_3' else ll[[0, 2, 1, 3]]
        right.append(rr)
        left.append(ll + shift)
    return left, right

def build(gname, n_cell, lperms, rperms, order, numbering, shift):
    from sfepy.discrete.fem import Mesh
    left, right = _sides(gname, n_cell)
    # Not to be too symmetric.
    trans = lambda xx: xx @ nm.diag([1.0, 1.0, 1.5][:xx.shape[1]])
    cells = []
    for ii, cc in enumerate(left):
        cells.append((1, trans(cc)[list(lperms[ii % len(lperms)])]))
    for ii, cc in enumerate(right):
        cc = trans(cc)
        if shift is not None: cc = cc + nm.array(shift)[:cc.shape[1]]
        cells.append((2, cc[list(rperms[ii % len(rperms)])]))
    cells = [cells[ii] for ii in order]
    coors, conn, groups = [], [], []
    for gr, cc in cells:
        row = []
        for xx in cc:
            for iv, yy in enumerate(coors):
                if nm.allclose(xx, yy): break
            else:
                coors.append(xx)
                iv = len(coors) - 1
            row.append(iv)
        conn.append(row)
        groups.append(gr)
    coors = nm.array(coors)
    vp = _numbering(numbering, len(coors))
    out = nm.empty_like(coors)
    out[vp] = coors
    conn = vp[nm.array(conn)].astype(nm.int32)
    return Mesh.from_data('m', out, None, [conn], [nm.array(groups)], [gname])

def setting(mesh, shift, aorder, lazy=True):
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.fem import FEDomain, Field
    domain = FEDomain('d', mesh)
    y1 = domain.create_region('Y1', 'cells of group 1')
    y2 = domain.create_region('Y2', 'cells of group 2')
    x2 = 0.0 if shift is None else shift[0]
    sel = '(vertices in (x > %r) & (x < %r)) *v r.%s'
    g1 = domain.create_region('G1', sel % (-1e-6, 1e-6, 'Y1'), 'facet',
                              parent='Y1')
    g2 = domain.create_region('G2', sel % (x2 - 1e-6, x2 + 1e-6, 'Y2'),
                              'facet', parent='Y2')
    f1 = Field.from_args('f1', nm.float64, 1, y1, aorder)
    f2 = Field.from_args('f2', nm.float64, 1, y2, aorder)
    variables = {}
    for ii, field in ((1, f1), (2, f2)):
        variables['p%d' % ii] = FieldVariable('p%d' % ii, 'unknown', field)
        variables['q%d' % ii] = FieldVariable('q%d' % ii, 'test', field,
                                              primary_var_name='p%d' % ii)
    return domain, (g1, g2), (f1, f2), variables

def _poly(xx, aorder, num):
    yy = xx[:, 1:]
    out = 1.0 + num + yy @ nm.array([2.0, -3.0])[:yy.shape[1]]
    if aorder >= 2: out = out + yy[:, 0] ** 2 - yy[:, 0] * yy[:, -1] * 0.5
    if aorder >= 3: out = out + 0.25 * yy[:, 0] ** 3 - yy[:, -1] ** 3
    return out

def _combine(eqs, fields, vals):
    indx = eqs.variables.di.indx
    vec = nm.zeros(sum(ff.n_nod for ff in fields))
    for ii, val in enumerate(vals):
        vec[indx['p%d' % (ii + 1)]] = val
    return vec

def judge(gname, mesh, shift, aorder, how):
    from sfepy.discrete import (Equation, Equations, FieldVariable, Integral,
                                Material)
    from sfepy.terms import Term
    domain, gammas, fields, vs = setting(mesh, shift, aorder)
    s2 = nm.zeros(3) if shift is None else nm.array(shift)
    s2 = s2[:mesh.dim]
    arg = {'named' : ('tr(G2, p2)', 'tr(G1, p1)'),
           'auto' : ('tr(p2)', 'tr(p1)')}[how]
    integral = Integral('i', order=2 * aorder)
    mk = lambda name, *args, gg: Term.new(
        name, integral, gammas[gg],
        **{aa : vs[aa] for aa in args})
    coors = (fields[0].get_coor(), fields[1].get_coor() - s2)
    pols = [_poly(coors[ii], aorder, ii) for ii in range(2)]
    # Off the interface the values have to be of no importance.
    for ii in range(2):
        pols[ii] = nm.where(nm.abs(coors[ii][:, 0]) < 1e-8, pols[ii], 77.0)
    # The reference: the functions of the other side on the own side.
    refp = [_poly(coors[0], aorder, 1), _poly(coors[1], aorder, 0)]

    def solve_like(terms, vals):
        eqs = Equations([Equation('e%d' % ii, tt)
                         for ii, tt in enumerate(terms)])
        eqs.time_update(None)
        eqs.variables.init_state()
        mtx = eqs.create_matrix_graph()
        vec = _combine(eqs, fields, vals)
        res = eqs.eval_residuals(vec.copy())
        mtx = eqs.eval_tangent_matrices(vec.copy(), mtx)
        indx = eqs.variables.di.indx
        return res, mtx.toarray(), vec, indx

    res, mtx, vec, indx = solve_like(
        [mk('dw_dot(q1, %s)' % arg[0], 'q1', 'p2', gg=0),
         mk('dw_dot(q2, %s)' % arg[1], 'q2', 'p1', gg=1)], pols)
    own, omtx, ovec, oindx = solve_like(
        [mk('dw_dot(q1, p1)', 'q1', 'p1', gg=0),
         mk('dw_dot(q2, p2)', 'q2', 'p2', gg=1)], refp)
    for name in ('p1', 'p2'):
        require(nm.allclose(res[indx[name]], own[oindx[name]], rtol=1e-9,
                            atol=1e-9), 'dw_dot: the residual of %s is %s,'
                ' expected %s', name, res[indx[name]], own[oindx[name]])
    require(nm.allclose(mtx @ vec, res, rtol=1e-9, atol=1e-9),
            'dw_dot: the matrix does not correspond to the residual')
    # The matrix of the traces is that of the own side with DOFs matched.
    n1 = [nm.nonzero(nm.abs(cc[:, 0]) < 1e-8)[0] for cc in coors]
    pair = [[int(nm.abs(coors[1][n1[1]] - xx).sum(1).argmin())
             for xx in coors[0][n1[0]]]]
    j2 = n1[1][pair[0]]
    b1 = nm.arange(len(mtx))[indx['p1']]
    b2 = nm.arange(len(mtx))[indx['p2']]
    c1 = nm.arange(len(mtx))[oindx['p1']]
    out = mtx[nm.ix_(b1[n1[0]], b2[j2])]
    ref = omtx[nm.ix_(c1[n1[0]], c1[n1[0]])]
    require(nm.allclose(out, ref, rtol=1e-9, atol=1e-9),
            'dw_dot: wrong matrix entries')
    require(nm.isclose(nm.abs(mtx).sum(), 2 * nm.abs(ref).sum()),
            'dw_dot: entries out of the interface')

    if aorder <= 2:
        # The jump term.
        mat = Material('m', c=2.5)
        jarg = ('dw_jump(m.c, q1, p1, %s)' % arg[0],
                'dw_jump(m.c, q2, p2, %s)' % arg[1])
        terms = [Term.new(jarg[0], integral, gammas[0], m=mat, **{
            aa : vs[aa] for aa in ('q1', 'p1', 'p2')}),
                 Term.new(jarg[1], integral, gammas[1], m=mat, **{
            aa : vs[aa] for aa in ('q2', 'p1', 'p2')})]
        eqs = Equations([Equation('e%d' % ii, tt)
                         for ii, tt in enumerate(terms)])
        eqs.time_update_materials(None, mode='force', verbose=False)
        eqs.time_update(None)
        eqs.variables.init_state()
        eqs.create_matrix_graph()
        vec = _combine(eqs, fields, pols)
        res = eqs.eval_residuals(vec)
        indx = eqs.variables.di.indx
        own2 = solve_like([mk('dw_dot(q1, p1)', 'q1', 'p1', gg=0),
                           mk('dw_dot(q2, p2)', 'q2', 'p2', gg=1)],
                          [_poly(coors[0], aorder, 0),
                           _poly(coors[1], aorder, 1)])
        for name in ('p1', 'p2'):
            ref = 2.5 * (own2[0][own2[3][name]] - own[oindx[name]])
            require(nm.allclose(res[indx[name]], ref, rtol=1e-9, atol=1e-9),
                    'dw_jump: the residual of %s is %s, expected %s', name,
                    res[indx[name]], ref)

    # Values in quadrature points are those in the points of the own side.
    for ii in range(2):
        io = 1 - ii
        par = FieldVariable('p%d' % (io + 1), 'parameter', fields[io],
                            primary_var_name='(set-to-None)')
        par.set_data(pols[io])
        term = Term.new('ev_integrate(%s)' % arg[ii], integral, gammas[ii],
                        **{par.name : par})
        eqs = Equations([Equation('e', term)])
        out = eqs.evaluate(mode='qp')
        own_p = FieldVariable('w', 'parameter', fields[ii],
                              primary_var_name='(set-to-None)')
        own_p.set_data(refp[ii])
        ref = own_p.evaluate('val', region=gammas[ii], integral=integral,
                             integration='facet')
        require(nm.allclose(out, ref, rtol=1e-9, atol=1e-9),
                'ev_integrate: values in quadrature points %s, expected %s',
                out.ravel(), ref.ravel())

SHIFTS = [None, [0.5, 0.0, 0.0], [0.5, 0.25, 0.125]]

def run_pairs(acc, gname, aorder, part, tier):
    perms = perms_of(gname)
    num = 3 if tier == 'quick' else 6
    variants = [(nn, ss, hh) for nn in NUMBERINGS[:num]
                for ss, hh in zip(SHIFTS + [None], ['named'] * 3 + ['auto'])]
    # All variants in 2D; in 3D each pair of rotations in some of them.
    pas = perms
    if tier == 'quick':
        pas = perms[::{'2_3' : 1, '2_4' : 1, '3_4' : 4, '3_8' : 8}[gname]]
    for ic, (pa, pb) in enumerate(itertools.product(pas, perms)):
        if ic % 4 != part: continue
        vas = variants
        if gname[0] == '3' or (tier == 'quick' and aorder > 1):
            off = ic // 4
            vas = [variants[(off * 5 + ii) % len(variants)]
                   for ii in ((0,) if tier == 'quick' else (0, 1, 2))]
        for numbering, shift, how in vas:
            run_pair(acc, gname, aorder, pa, pb, numbering, shift, how)

def run_pair(acc, gname, aorder, pa, pb, numbering, shift, how):
    with acc.case([pa, pb, numbering, shift, how], nontrivial=pa != pb):
        mesh = build(gname, 1, [pa], [pb], [0, 1], numbering, shift)
        judge(gname, mesh, shift, aorder, how)
        acc.outcome((pa, pb))

def run_multi(acc, gname, aorder, tier):
    perms = perms_of(gname)
    n_cell = 2 if gname[0] == '2' else (4 if gname == '3_8' else 2)
    if n_cell == 4:
        orders = [range(8), [7, 6, 5, 4, 3, 2, 1, 0],
                  [4, 0, 6, 2, 5, 1, 7, 3], [1, 3, 0, 2, 6, 4, 7, 5]]
    else:
        orders = list(itertools.permutations(range(4)))
        if tier == 'quick' and gname[0] == '3': orders = orders[::5]
    orders = [list(oo) for oo in orders]
    for order, numbering, ip, shift in itertools.product(
            orders, NUMBERINGS[1:3], range(len(perms)), SHIFTS):
        if tier == 'quick' and gname[0] == '3' and (
                (ip + aorder + orders.index(order)) % 4): continue
        if tier == 'quick' and (
                orders.index(order) + ip + SHIFTS.index(shift)) % (
                    3 if aorder == 1 else 5): continue
        if tier == 'quick' and gname == '3_8' and aorder == 2 and (
                ip % 3): continue
        jps = range(len(perms)) if tier == 'thorough' else [ip // 2]
        for jp in jps:
            if tier == 'thorough' and gname[0] == '3' and (jp + ip) % 6:
                continue
            with acc.case([order, numbering, ip, jp, shift]):
                mesh = build(gname, n_cell, [perms[ip], perms[jp]],
                             [perms[0], perms[jp], perms[ip]], order,
                             numbering, shift)
                judge(gname, mesh, shift, aorder, 'named')
                acc.outcome((ip, jp))

def run_three(acc, gname, part, tier):
    """
    Three facets on each side in all orders.
    """
    perms = perms_of(gname)
    for ic, (left, right) in enumerate(itertools.product(
            itertools.permutations(range(3)), repeat=2)):
        if ic % 2 != part: continue
        order = []
        for ii, jj in zip(left, right):
            order += [[ii, 3 + jj], [3 + jj, ii]][(ic // 2) % 2]
        for aorder, shift in itertools.product(
                (1, 2) if tier == 'quick' else (1, 2, 3), SHIFTS):
            if tier == 'quick' and gname[0] == '3' and (
                    (aorder + ic // 2 + SHIFTS.index(shift)) % 3): continue
            ip, jp = ic % len(perms), (ic // 3) % len(perms)
            with acc.case([order, aorder, shift]):
                mesh = build(gname, 3, [perms[ip]], [perms[jp]], order, 'id',
                             shift)
                judge(gname, mesh, shift, aorder, 'named')
                acc.outcome((left, right))

def run_two(acc, part, tier):
    """
    A region with several mirror regions.
    """
    from sfepy.discrete import Equation, Equations, FieldVariable, Integral
    from sfepy.discrete.common.fields import setup_extra_data
    from sfepy.discrete.fem import FEDomain, Field, Mesh
    from sfepy.terms import Term
    # Three squares (cubes) apart from each other.
    ik = -1
    for gname, seq, numbering in itertools.product(
            ('2_4', '3_8'), itertools.permutations(range(3)), NUMBERINGS[:4]):
        for p1, p2 in itertools.product(perms_of(gname)[::2], repeat=2):
            ik += 1
            if ik % 4 != part: continue
            # A sample of coprime step in quick.
            if ((ik // 4) % {'2_4' : 3, '3_8' : 67}[gname]
                and tier == 'quick'): continue
            with acc.case([gname, seq, numbering, p1, p2]):
                ref = REF[gname]
                dim = ref.shape[1]
                coors = nm.r_[ref, ref[list(p1)] + 2.0,
                              ref[list(p2)] + [4.0, -1.0, 0.5][:dim]]
                nv = len(ref)
                conn = nm.arange(3 * nv).reshape(3, nv)
                vp = _numbering(numbering, 3 * nv)
                cc = nm.empty_like(coors)
                cc[vp] = coors
                mesh = Mesh.from_data('m', cc, None,
                                      [vp[conn].astype(nm.int32)],
                                      [nm.arange(3)], [gname])
                domain = FEDomain('d', mesh)
                omega = domain.create_region('Omega', 'all')
                x0s = [0.0, 2.0, 4.0]
                sh = nm.array([nm.zeros(dim), nm.full(dim, 2.0),
                               [4.0, -1.0, 0.5][:dim]])
                gs = [domain.create_region(
                    'G%d' % ii, 'vertices in (x > %r) & (x < %r)'
                    % (x0 - 1e-6, x0 + 1e-6), 'facet')
                      for ii, x0 in enumerate(x0s)]
                field = Field.from_args('f', nm.float64, 1, omega, 1)
                par = FieldVariable('u', 'parameter', field,
                                    primary_var_name='(set-to-None)')
                xx = field.get_coor()
                vals = nm.zeros(field.n_nod)
                ic = nm.array([nm.abs(xx[:, 0] - x0) < 1e-8
                               for x0 in x0s])
                for ii in range(3):
                    vals[ic[ii]] = _poly(xx[ic[ii]] - sh[ii], 1, ii)
                par.set_data(vals)
                integral = Integral('i', order=2)
                for gg in gs:
                    domain.create_surface_group(gg)
                    field.setup_surface_data(gg)
                for ii in range(3):
                    own = FieldVariable('w', 'parameter', field,
                                        primary_var_name='(set-to-None)')
                    for jj in seq:
                        if jj == ii: continue
                        term = Term.new('ev_integrate(tr(G%d, u))' % jj,
                                        integral, gs[ii], u=par)
                        eqs = Equations([Equation('e', term)])
                        setup_extra_data(eqs.conn_info)
                        out = eqs.evaluate(mode='qp')
                        # Values of the other region moved here.
                        wv = nm.zeros(field.n_nod)
                        wv[ic[ii]] = _poly(xx[ic[ii]] - sh[ii], 1, jj)
                        own.set_data(wv)
                        exp = own.evaluate('val', region=gs[ii],
                                           integral=integral,
                                           integration='facet')
                        require(nm.allclose(out, exp, rtol=1e-9, atol=1e-9),
                                'trace of G%d on G%d: %s, expected %s', jj,
                                ii, out.ravel(), exp.ravel())
                acc.outcome((seq, numbering))

    if part: return
    # Regions that do not match.
    for gname in ('2_4', '3_8'):
        with acc.case(['bad', gname]):
            mesh = build(gname, 1, [range(len(REF[gname]))],
                         [range(len(REF[gname]))], [0, 1], 'id',
                         [0.5, 0.0, 0.0])
            domain = setting(mesh, [0.5, 0.0, 0.0], 1)[0]
            bad = domain.create_region('B', 'vertices in (x > 1.4)', 'facet')
            half = domain.create_region('C', 'vertices in y < 0.1', 'facet')
            surf = domain.create_region('S', 'vertices of surface', 'facet')
            g1 = domain.regions['G1']
            for name in ('C', 'S'):
                try:
                    g1.setup_mirror_region(name)
                except ValueError: pass
                else: require(False, '%s accepted as a mirror region', name)
            g1.setup_mirror_region('B')
            require(g1.get_mirror_region('B') is bad, 'wrong region')

def groups(tier):
    out = []
    for gname in ('2_3', '2_4', '3_4', '3_8'):
        orders = (1, 2, 3) if gname[0] == '2' or tier == 'thorough' else (1, 2)
        for aorder in orders:
            parts = range(4) if gname[0] == '3' else [0, 1, 2, 3]
            out += [['pairs', gname, aorder, part, tier] for part in parts]
            out.append(['multi', gname, aorder, tier])
    out += [['three', gname, part, tier] for gname in ('2_4', '2_3', '3_8')
            for part in range(2)]
    out += [['two', part, tier] for part in range(4)]
    return out

def run(group, acc):
    if group[0] == 'pairs':
        run_pairs(acc, *group[1:])
    elif group[0] == 'multi':
        run_multi(acc, *group[1:])
    elif group[0] == 'three':
        run_three(acc, *group[1:])
    else:
        run_two(acc, *group[1:])
