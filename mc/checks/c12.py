"""
C12: quadratures and integrals.
"""
import itertools
from fractions import Fraction
from math import factorial

import numpy as nm

from mc.core import require, Skip

PID = 'C12'
LEVEL = 'exploration'
RULE = ('a case = a reference geometry, an integration order and a monomial,'
        ' the integral compared with the exact rational value; or a sequence'
        ' of requests for integrals, compared with fresh ones; non-trivial if'
        ' the monomial is in the space claimed to be integrated exactly;'
        ' distinct by the geometry, order, mode and monomial')
ASSUMPTIONS = ['orders above the highest available wedge rule and above the'
               ' 1D table in tensor products, reported by a warning, are not'
               ' judged', 'the weights of high order simplex rules alternate'
               ' in sign, the tolerance follows the sum of their magnitudes']
BOUNDS = {
    'quick': 'orders 0-55 on lines, 0-26 on triangles, 0-13 on tetrahedra,'
             ' 0-16 and 0-9 (times dimension) on quadrilaterals and hexahedra,'
             ' all wedge rules, all monomials, all sequences of 3 requests',
    'thorough': 'triangles to 34, tetrahedra to 21, hexahedra to 14,'
                ' sequences of 4 requests',
}
LIMIT = 120
PRELOAD = ('sfepy.discrete.integrals',)

def exact(geometry, pows):
    """
    The exact integral of the monomial over the reference element.
    """
    def simplex(pp):
        num = 1
        for ip in pp:
            num *= factorial(ip)
        return Fraction(num, factorial(sum(pp) + len(pp)))
    if geometry == '3_6':
        return simplex(pows[:2]) * Fraction(1, pows[2] + 1)
    if geometry in ('2_4', '3_8'):
        val = Fraction(1)
        for ip in pows:
            val *= Fraction(1, ip + 1)
        return val
    return simplex(pows)

def inside(geometry, coors):
    eps = 1e-12
    ok = (coors > -eps).all()
    if geometry == '3_6':
        ok = ok and (coors[:, :2].sum(1) < 1 + eps).all() and (
            coors[:, 2] < 1 + eps).all()
    elif geometry in ('2_4', '3_8'):
        ok = ok and (coors < 1 + eps).all()
    else:
        ok = ok and (coors.sum(1) < 1 + eps).all()
    return ok

def monomials(dim, total=None, each=None):
    if total is not None:
        for pp in itertools.product(range(total + 1), repeat=dim):
            if sum(pp) <= total:
                yield pp
    else:
        for pp in itertools.product(range(each + 1), repeat=dim):
            yield pp

def wedge_monomials(order):
    """
    The order is that of the triangle and of the line.
    """
    for pp in monomials(3, each=order):
        if pp[0] + pp[1] <= order:
            yield pp

def check_rule(acc, ident, geometry, coors, weights, pows):
    dim = int(geometry[0])
    require(coors.ndim == 2 and coors.shape[1] == dim
            and weights.shape == (len(coors),), 'shapes %s %s', coors.shape,
            weights.shape)
    require(nm.isfinite(coors).all() and nm.isfinite(weights).all(), 'nan')
    require(inside(geometry, coors), 'points outside the element')
    require(len(nm.unique(nm.round(coors, 10), axis=0)) == len(coors),
            'repeated points')
    tol = 2e-13 * nm.abs(weights).sum() / float(exact(geometry, (0,) * dim))
    pmax = max(max(pp) for pp in pows)
    table = [coors[:, [ic]] ** nm.arange(pmax + 1) for ic in range(dim)]
    for pp in pows:
        val = weights.copy()
        for ic, ip in enumerate(pp):
            val = val * table[ic][:, ip]
        val = val.sum()
        ref = float(exact(geometry, pp))
        require(abs(val - ref) <= tol + 2e-12 * ref,
                '%s: the integral of %s is %.16e instead of %.16e', ident, pp,
                val, ref)
        acc.transitions += 1

def _rules(acc, geometry, order, full):
    from sfepy.discrete.integrals import Integral
    from sfepy.discrete.quadratures import QuadraturePoints, quadrature_tables
    dim = int(geometry[0])
    tp = geometry in ('2_4', '3_8')
    if tp and not full:
        pows = list(monomials(dim, each=order))
    elif geometry == '3_6':
        pows = list(wedge_monomials(order))
    else:
        pows = list(monomials(dim, total=order))
    with acc.case([geometry, order, full]):
        integral = Integral('i', order=order, full_order=full)
        coors, weights = integral.get_qp(geometry)
        check_rule(acc, [geometry, order], geometry, coors, weights, pows)
        c2, w2 = integral.get_qp(geometry)
        require((c2 is coors) and (w2 is weights), 'not cached')
        qp = QuadraturePoints.from_table(geometry, order, full_order=full)
        require(nm.array_equal(qp.coors, coors)
                and nm.array_equal(qp.weights, weights), 'from_table')
        require((qp.n_point, qp.dim) == coors.shape, 'n_point, dim')
        require(qp.order >= order, 'order %s', qp.order)
        # integrate() uses the given order.
        itg = Integral('j', order=1, full_order=full)
        val = itg.integrate(lambda xx: xx[:, 0] ** min(order, 3), order=order,
                            geometry=geometry)
        ref = float(exact(geometry, (min(order, 3),) + (0,) * (dim - 1)))
        tol = 1e-12 * max(1, nm.abs(weights).sum())
        require(abs(val - ref) < tol, 'integrate: %s != %s', val, ref)
    acc.states += len(weights)
    acc.traces += 1

def _tables(acc):
    """
    All the rules in the tables have the volume and order they claim.
    """
    from sfepy.discrete.quadratures import quadrature_tables
    for geometry, table in sorted(quadrature_tables.items()):
        require(list(table) == sorted(table), 'unsorted orders')
        dim = int(geometry[0])
        for order, qp in table.items():
            if geometry == '0_1': continue
            with acc.case([geometry, order]):
                ref = float(exact(geometry, (0,) * dim))
                require(abs(qp.weights.sum() - ref) < 1e-12, 'volume')
                require(abs(qp.volume - ref) < 1e-14, 'stored volume %s',
                        qp.volume)
                check_rule(acc, [geometry, order], geometry, qp.coors,
                           qp.weights,
                           list(wedge_monomials(order // 3))
                           if geometry == '3_6' else
                           list(monomials(dim, total=order)))
            acc.states += 1

def _custom(acc):
    """
    Custom points: bounds, scaling, symmetric data.
    """
    from sfepy.base.base import Struct
    from sfepy.discrete.integrals import Integral, Integrals
    from sfepy.discrete.quadratures import QuadraturePoints
    for num, bounds, fix in itertools.product(
            range(1, 9), [None, (-1.0, 1.0), (0.0, 2.0), (-3.0, 1.5)],
            [1.0, 0.5, 3.0]):
        xs, ws = nm.polynomial.legendre.leggauss(num)
        a, b = bounds if bounds is not None else (0.0, 1.0)
        xx = 0.5 * (a + b) + 0.5 * (b - a) * xs
        ww = 0.5 * (b - a) * ws / fix
        for dim, mode in itertools.product((1, 2, 3), ('data', 'coors',
                                                       'integral', 'conf')):
            with acc.case([num, bounds, fix, dim, mode]):
                if num ** dim > 100: raise Skip
                coors = nm.array(list(itertools.product(xx, repeat=dim)))
                weights = nm.array([nm.prod(iw) for iw in itertools.product(
                    ww * fix, repeat=dim)]) / fix
                args = dict(bounds=bounds, weight_fix=fix)
                c0, w0 = coors.copy(), weights.copy()
                if mode == 'data':
                    qp = QuadraturePoints(nm.c_[coors, weights], **args)
                    rc, rw = qp.coors, qp.weights
                elif mode == 'coors':
                    qp = QuadraturePoints(None, coors=coors, weights=weights,
                                          **args)
                    rc, rw = qp.coors, qp.weights
                elif mode == 'integral':
                    ii = Integral('i', coors=coors, weights=weights,
                                  order='custom', **args)
                    rc, rw = ii.get_qp({1 : '1_2', 2 : '2_4', 3 : '3_8'}[dim])
                else:
                    if (bounds is not None) or (fix != 1.0): raise Skip
                    conf = {'a' : Struct(name='i', vals=coors.tolist(),
                                         weights=weights.tolist(),
                                         order='custom'),
                            'b' : Struct(name='i2', order=num)}
                    ints = Integrals.from_conf(conf)
                    require(ints.get('i2').order == num, 'order')
                    rc, rw = ints.get('i').get_qp('x')
                require(nm.array_equal(coors, c0)
                        and nm.array_equal(weights, w0), 'arguments changed')
                geometry = {1 : '1_2', 2 : '2_4', 3 : '3_8'}[dim]
                check_rule(acc, 'custom', geometry, rc, rw,
                           list(monomials(dim, each=2 * num - 1)))
        with acc.case([num, bounds, fix, 'symmetric']):
            if (bounds is None) or (bounds[0] != -bounds[1]): raise Skip
            half = xx >= -1e-14
            hx = nm.where(nm.abs(xx[half]) < 1e-14, 0.0, xx[half])
            data = nm.c_[hx, ww[half]]
            # Non-negative coordinates in the increasing order.
            data = data[nm.argsort(data[:, 0])]
            for how in ('data', 'coors'):
                if how == 'data':
                    qp = QuadraturePoints(data, bounds=bounds,
                                          weight_fix=fix, symmetric=True)
                else:
                    qp = QuadraturePoints(None, coors=data[:, :1],
                                          weights=data[:, 1], bounds=bounds,
                                          weight_fix=fix, symmetric=True)
                check_rule(acc, 'symmetric', '1_2', qp.coors, qp.weights,
                           list(monomials(1, each=2 * num - 1)))
        acc.states += 1

REQUESTS = [('1_2', 3, False), ('1_2', 60, False), ('2_3', 2, False),
            ('2_3', 21, False), ('2_4', 1, False), ('2_4', 1, True),
            ('2_4', 6, False), ('2_4', 8, True), ('3_4', 7, False),
            ('3_8', 1, False), ('3_8', 3, True)]

def _histories(acc, first, num):
    """
    Any sequence of requests gives the same rules as the fresh ones. The
    tables are shared by all the integrals.
    """
    from sfepy.discrete.integrals import Integrals, Integral
    from sfepy.discrete.quadratures import QuadraturePoints
    fresh = {}
    for geometry, order, full in REQUESTS:
        qp = QuadraturePoints.from_table(geometry, order, full_order=full)
        fresh[(geometry, order, full)] = (qp.coors.copy(), qp.weights.copy(),
                                          qp.order)
    for seq in itertools.product(REQUESTS, repeat=num - 1):
        seq = (REQUESTS[first],) + seq
        with acc.case([list(ii) for ii in seq]):
            ints = Integrals()
            objs = {}
            for geometry, order, full in seq:
                if full:
                    obj = objs.setdefault(order, Integral(
                        'f', order=order, full_order=True))
                else:
                    obj = ints.get(str(order) if order % 2 else order)
                    require(obj is ints.get(order), 'another integral')
                    require(obj.order == order, 'order %s', obj.order)
                coors, weights = obj.get_qp(geometry)
                rc, rw, ro = fresh[(geometry, order, full)]
                require(nm.array_equal(coors, rc)
                        and nm.array_equal(weights, rw), '%s differs',
                        (geometry, order))
            names = set(order for _, order, full in seq if not full)
            require(len(ints) == len(names), '%d integrals', len(ints))
            acc.outcome(sorted(names))
            acc.traces += 1
        acc.transitions += len(seq)

def _names(acc):
    from sfepy.discrete.integrals import Integrals, Integral
    for name, bad in [('i', False), ('i1', False), ('i2', True), ('a', True),
                      ('x', True), ('3', False), (3, False), ('1.5', True)]:
        with acc.case([name]):
            ints = Integrals([Integral('i', order=2), Integral('i1', order=4)])
            try:
                obj = ints.get(name)
            except (ValueError, NotImplementedError):
                require(bad, 'failed')
            else:
                require(not bad, 'accepted')
                require(obj.order == {'i' : 2, 'i1' : 4}.get(name, 3),
                        'order %s', obj.order)

def groups(tier):
    deep = tier != 'quick'
    out = ['tables', 'custom', 'names']
    omax = {'1_2' : 55, '2_3' : 34 if deep else 26, '3_4' : 21 if deep else 13,
            '2_4' : 20 if deep else 16, '3_8' : 14 if deep else 9}
    for geometry, num in omax.items():
        for order in range(num + 1):
            out.append(['rule', geometry, order, False])
    for order in range(41 if deep else 24):
        out.append(['rule', '2_4', order, True])
    for order in range(25 if deep else 12):
        out.append(['rule', '3_8', order, True])
    for order in range(0, 9):
        out.append(['rule', '3_6', order, False])
    for first in range(len(REQUESTS)):
        out.append(['history', first, 4 if deep else 3])
    return out

def run(group, acc):
    if group == 'tables':
        _tables(acc)
    elif group == 'custom':
        _custom(acc)
    elif group == 'names':
        _names(acc)
    elif group[0] == 'rule':
        _rules(acc, *group[1:])
    else:
        _histories(acc, *group[1:])
