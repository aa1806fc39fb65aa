"""
C18: definitions of equations, expressions of terms, integrals and materials.
"""
import itertools

import numpy as nm

from mc import meshes
from mc.core import require

PID = 'C18'
LEVEL = 'exploration'
RULE = ('a case = an equation string, an expression of terms built by a'
        ' sequence of operations, a sequence of operations with a material,'
        ' values of a material in the quadrature points of a region, or a set'
        ' of integrals used in one region in a given order; distinct by these;'
        ' non-trivial if there is a coefficient, an operation, more than one'
        ' region or more than one integral')
ASSUMPTIONS = ['coefficients are numbers and sums in parentheses; sums without'
               ' parentheses before a product are not judged',
               'material functions return an array for every point they are'
               ' given',
               'exact integrals are those of polynomials up to the order of'
               ' the integral']
BOUNDS = {
    'quick': 'strings of one term: all combinations of 20 coefficients, 6'
             ' integrals, 3 regions, 12 lists of arguments; two terms: all'
             ' pairs of coefficients on both sides; expressions: 3 operations;'
             ' materials: all sequences of 3 operations for 9 materials;'
             ' integrals: all ordered pairs of 8 integrals on 4 regions',
    'thorough': 'three terms in a string, 4 operations with terms and'
                ' materials, all ordered triples of integrals',
}
LIMIT = 850

##
# A. Strings.

COEFS = [('', 1.0), ('+ ', 1.0), ('- ', -1.0), ('-', -1.0), ('2 * ', 2.0),
         ('-2 * ', -2.0), ('- 2 * ', -2.0), ('+ 2*', 2.0), ('0.5 * ', 0.5),
         ('1e-3 * ', 1e-3), ('-2.5E+2*', -250.0), ('2. * ', 2.0),
         ('2j * ', 2j), ('-2j*', -2j), ('(1 + 2) * ', 3.0),
         ('(1-3) * ', -2.0), ('- (1 - 3) * ', 2.0), ('(1 + 2j)*', 1 + 2j),
         ('-(1.5 + (2 - 4)) * ', 0.5), ('0 * ', 0.0)]
NAMES = ['dw_laplace', 'd1', 'i_x']
PLACES = [('', ('a', '', '')), ('.Omega', ('a', 'Omega', '')),
          ('.i1', ('a', 'i1', '')), ('.i.Omega', ('i', 'Omega', '')),
          ('.i1.Omega', ('i1', 'Omega', '')), ('.ivol.a', ('ivol', 'a', '')),
          ('.2.Gamma_1', ('2', 'Gamma_1', '')),
          ('.12.i', ('12', 'i', '')), ('.a.i1', ('a', 'i1', '')),
          ('.i.i', ('i', 'i', '')), ('.a.a', ('a', 'a', '')),
          ('.a.Omega.a', ('a', 'Omega', 'a')), ('.2.a.a', ('2', 'a', 'a'))]
ARGS = ['', 'v', 'v, u', 'v,u', 'm.a, v, u', 'm.a_1, v, du/dt', 'v, u[-1]',
        'm.a, v, du[-1]/dt', 'v, tr(u)', 'tr(v), tr(u)', 'v, dd, d, dt, tr',
        'm.val, du, w[-2], a, i, ts', 'v, ddu']

# arguments -> list of (name, step, derivative, trace)
ARG_DESCS = {
    '' : [], 'v' : [('v', 0, None, False)],
    'v, u' : [('v', 0, None, False), ('u', 0, None, False)],
    'v,u' : [('v', 0, None, False), ('u', 0, None, False)],
    'm.a, v, u' : [(('m', 'a'), 0, None, False), ('v', 0, None, False),
                   ('u', 0, None, False)],
    'm.a_1, v, du/dt' : [(('m', 'a_1'), 0, None, False),
                         ('v', 0, None, False), ('u', 0, 'dt', False)],
    'v, u[-1]' : [('v', 0, None, False), ('u', -1, None, False)],
    'm.a, v, du[-1]/dt' : [(('m', 'a'), 0, None, False),
                           ('v', 0, None, False), ('u', -1, 'dt', False)],
    'v, tr(u)' : [('v', 0, None, False), ('u', 0, None, True)],
    'tr(v), tr(u)' : [('v', 0, None, True), ('u', 0, None, True)],
    'v, dd, d, dt, tr' : [(ii, 0, None, False)
                          for ii in ('v', 'dd', 'd', 'dt', 'tr')],
    'm.val, du, w[-2], a, i, ts' : [(('m', 'val'), 0, None, False),
                                    ('du', 0, None, False),
                                    ('w', -2, None, False)]
    + [(ii, 0, None, False) for ii in ('a', 'i', 'ts')],
    'v, ddu' : [('v', 0, None, False), ('ddu', 0, None, False)],
}

def parse(txt):
    from sfepy.discrete.equations import parse_definition
    return [(td.sign, td.name, td.integral, td.region, td.flag,
             td.args.replace(' ', '')) for td in parse_definition(txt)]

def _same_terms(out, ref, txt):
    require(len(out) == len(ref), '%r: %d terms, expected %d', txt, len(out),
            len(ref))
    for oo, rr in zip(out, ref):
        require(oo[0] == rr[0], '%r: multiplier %s, expected %s', txt, oo[0],
                rr[0])
        require(oo[1:] == rr[1:], '%r: parsed as %s, expected %s', txt,
                oo[1:], rr[1:])

def run_strings(acc, part, tier):
    for ii, ((pre, mul), name, (place, ref), args, tail) in enumerate(
            itertools.product(COEFS, NAMES, PLACES, ARGS,
                              ['', ' = 0', '=0'])):
        if (tail == '=0') and (args not in ('', 'v, u')): continue
        if (name != NAMES[0]) and tail: continue
        if (tier == 'quick'):
            # Coefficients, places and arguments in all pairs.
            ip = [cc[0] for cc in COEFS].index(pre)
            ia, ik = ARGS.index(args), [pp[0] for pp in PLACES].index(place)
            if (ip and ia and ik) and ((ip + ia + ik) % 4): continue
        if ii % 2 != part: continue
        txt = '%s%s%s(%s)%s' % (pre, name, place, args, tail)
        with acc.case(txt, nontrivial=pre != ''):
            out = parse(txt)
            _same_terms(out, [(mul, name) + ref + (args.replace(' ', ''),)],
                        txt)
            acc.outcome(str(mul))

    if part == 1: return run_strings_1(acc, tier)

    t1 = 'dw_x.i.Omega(m.a, v, u)'
    t2 = 'dw_y.2.Gamma(v, u[-1])'
    r1 = ('dw_x', 'i', 'Omega', '', 'm.a,v,u')
    r2 = ('dw_y', '2', 'Gamma', '', 'v,u[-1]')
    # Terms after the first one have to have signs.
    signed = []
    for pre, mul in COEFS:
        if pre[:1] in '+-' and pre: signed.append((pre, mul))
        else:
            signed.append((' + ' + pre, mul))
            if pre: signed.append(('\n - ' + pre, -mul))
    for (p1, m1), (p2, m2) in itertools.product(COEFS, signed):
        txt = p1 + t1 + ' ' + p2 + t2
        with acc.case(txt):
            _same_terms(parse(txt), [(m1,) + r1, (m2,) + r2], txt)
            acc.outcome((m1, m2))
        for rhs in ('', ' = 0'):
            if rhs and tier == 'quick' and len(p1) > 2 and len(p2) > 4:
                continue
            txt = p1 + t1 + p2 + t2 + rhs
            with acc.case(txt):
                _same_terms(parse(txt), [(m1,) + r1, (m2,) + r2], txt)
                acc.outcome((m1, m2))
    for (p1, m1), (p2, m2) in itertools.product(COEFS, COEFS):
        txt = p1 + t1 + ' = ' + p2 + t2
        with acc.case(txt):
            _same_terms(parse(txt), [(m1,) + r1, (-m2,) + r2], txt)
            acc.outcome((m1, -m2))
    some = signed if tier == 'thorough' else signed[::6]
    for (p1, m1), (p2, m2), (p3, m3), pos in itertools.product(
            COEFS[::3] if tier == 'thorough' else COEFS[::5], some, some, range(3)):
        # pos: number of the terms on the right-hand side.
        parts = [p1 + t1, p2 + t2, p3 + t1]
        if pos == 0:
            txt = ' '.join(parts)
        else:
            txt = (' '.join(parts[:3 - pos]) + ' = '
                   + ' '.join(parts[3 - pos:]))
        muls = [mm if ii < 3 - pos else -mm
                for ii, mm in enumerate((m1, m2, m3))]
        with acc.case(txt):
            _same_terms(parse(txt), [(muls[0],) + r1, (muls[1],) + r2,
                                     (muls[2],) + r1], txt)

    for txt in ('', 'x', 'dw_x.i.Omega(v, u', 'dw_x.i.Omega(v u)',
                '2 dw_x(v)', 'dw_x(v) = 1', 'dw_x(v) =',
                'dw_x(v) = dw_y(v) = 0', '(1 + 2 * dw_x(v)',
                '1 + 2) * dw_x(v)', '- - dw_x(v)', 'dw_x(v) - ',
                '2 * 3 * dw_x(v)', 'a * dw_x(v)', 'dw_x.1.2(v)'):
        with acc.case(['bad', txt]):
            try:
                out = parse(txt)
            except ValueError:
                pass
            else:
                require(False, '%r was accepted as %s', txt, out)

def run_strings_1(acc, tier):
    from sfepy.discrete.equations import get_expression_arg_names
    for a1, a2, sep in itertools.product(ARGS, ARGS, (' + ', ' = - 2 * ')):
        txt = 'dw_x.i.Omega(%s)%sdw_y.Gamma(%s)' % (a1, sep, a2)
        with acc.case(['names', txt]):
            ref = set()
            for arg in (a1 + ',' + a2).split(','):
                arg = arg.strip()
                ref.add(arg.split('.')[0])
            out = get_expression_arg_names(txt)
            if '' in ref: ref.discard(''); out.discard('')
            require(out == ref, 'argument names %s, expected %s', out, ref)

##
# B. Terms.

def _setting(name='tri4', order=1):
    from sfepy.discrete import FieldVariable
    from sfepy.discrete.fem import FEDomain, Field
    domain = FEDomain('d', meshes.mesh(name))
    omega = domain.create_region('Omega', 'all')
    xx = domain.mesh.coors[:, 0]
    domain.create_region('Gamma', 'vertices in x < %e'
                         % (xx.min() + 1e-8), 'facet')
    field = Field.from_args('f', nm.float64, 1, omega, approx_order=order)
    uu = FieldVariable('u', 'unknown', field, history=2)
    vv = FieldVariable('v', 'test', field, primary_var_name='u')
    return domain, omega, field, uu, vv

def run_args(acc, tier):
    """
    Formal arguments of terms.
    """
    from sfepy.discrete import Integral
    from sfepy.terms import Term
    domain, omega = _setting()[:2]
    integral = Integral('i', order=1)
    for args, descs in ARG_DESCS.items():
        if not args: continue
        with acc.case(['formal', args]):
            term = Term.new('dw_laplace(%s)' % args, integral, omega)
            term.setup()
            require(list(term.arg_names) == [dd[0] for dd in descs],
                    'names: %s', term.arg_names)
            for name, step, der, trace in descs:
                out = (term.arg_steps[name], term.arg_derivatives[name],
                       term.arg_traces[name])
                require(out == (step, der, trace), '%s: %s, expected %s', name,
                        out, (step, der, trace))

    names = ['u', 'u[-1]', 'u[-2]', 'du/dt', 'du[-1]/dt']
    vals = {}
    for ders in (False, True):
        domain, omega, field, uu, vv = _setting()
        dt = 0.5
        n_nod = field.n_nod
        data = [nm.arange(n_nod) ** 2 % 7 + 1.0,
                nm.arange(n_nod)[::-1] ** 2 % 11 - 3.0,
                (nm.arange(n_nod) * 3) % 5 + 0.5]
        ref = {'u' : data[0], 'u[-1]' : data[1], 'u[-2]' : data[2],
               'du/dt' : (data[0] - data[1]) / dt,
               'du[-1]/dt' : (data[1] - data[2]) / dt}
        vals[ders] = ref
        for arg in names:
            with acc.case(['value', ders, arg]):
                from sfepy.discrete import FieldVariable
                par = FieldVariable('u', 'parameter', field, history=2,
                                    primary_var_name='(set-to-None)')
                par.init_history()
                for step in (2, 1, 0):
                    par.set_data(data[step].copy())
                    if step: par.advance(_Ts(2 - step, dt))
                term = Term.new('ev_integrate(%s)' % arg, integral, omega,
                                u=par)
                term.setup(allow_derivatives=ders)
                # dt of the derivative is that of the variable.
                ts = _Ts(1, dt)
                term.time_update(ts)
                par.time_update(ts, None)
                out = term.evaluate(mode='qp')
                exp = FieldVariable('w', 'parameter', field,
                                    primary_var_name='(set-to-None)')
                exp.set_data(ref[arg])
                val = exp.evaluate('val', region=omega, integral=integral,
                                   integration='cell')
                require(nm.allclose(out, val, rtol=1e-12, atol=1e-12),
                        '%s: wrong values', arg)
                acc.outcome(val.round(6).tolist().__repr__())

    # One variable in two different forms in a term.
    forms = ['u', 'u[-1]', 'du/dt', 'tr(u)', 'tr(Gamma, u)']
    for f1, f2 in itertools.product(forms, forms):
        with acc.case(['twice', f1, f2], nontrivial=f1 != f2):
            term = Term.new('dw_convect(%s, %s)' % (f1, f2), integral, omega)
            try:
                term.setup()
            except ValueError:
                require(f1 != f2, 'the same argument twice is refused')
            else:
                require(f1 == f2, 'different forms of one variable accepted,'
                        ' only one of them is used')

class _Ts:
    def __init__(self, step, dt):
        self.step, self.dt = step, dt
        self.is_quasistatic = False
        self.time = step * dt
        self.nt = 0.5

TOPS = ('add', 'sub', 'neg', 'pos', 'mul2', 'rmul', 'mulj', 'iadd', 'isub')

def _apply_terms(op, xx, yy):
    if op == 'add': return xx + yy
    if op == 'sub': return xx - yy
    if op == 'neg': return -xx
    if op == 'pos': return +xx
    if op == 'mul2': return xx * 2
    if op == 'rmul': return -0.5 * xx
    if op == 'mulj': return 1j * xx
    if op == 'iadd':
        xx += yy
        return xx
    if op == 'isub':
        xx -= yy
        return xx

def _apply_ref(op, xx, yy):
    mul = lambda cc, tt: [(cc * ss, ii) for ss, ii in tt]
    if op in ('add', 'iadd'): return xx + yy
    if op in ('sub', 'isub'): return xx + mul(-1.0, yy)
    if op == 'neg': return mul(-1.0, xx)
    if op == 'pos': return xx
    if op == 'mul2': return mul(2, xx)
    if op == 'rmul': return mul(-0.5, xx)
    if op == 'mulj': return mul(1j, xx)

def _read_terms(expr):
    from sfepy.terms import Terms
    objs = list(expr) if isinstance(expr, Terms) else [expr]
    out = sorted(((complex(tt.sign), tt.arg_str) for tt in objs), key=repr)
    if isinstance(expr, Terms):
        require(len(expr.names) == len(objs), 'names: %s', expr.names)
        exp = sorted(((complex(ee[0]), ee[2]) for ee in expr.expression),
                     key=repr)
        require(exp == out, 'expression: %s, terms: %s', exp, out)
    return out

def _canon(ref):
    return sorted(((complex(ss) + 0.0, ii) for ss, ii in ref), key=repr)

def run_algebra(acc, tier):
    """
    All programs of a given length over registers with expressions.
    """
    from sfepy.discrete import Integral
    from sfepy.terms import Term
    omega = _setting()[1]
    integral = Integral('i', order=1)
    depth = 3
    tops = TOPS if tier == 'quick' else TOPS

    def steps(nreg):
        for op in tops:
            for ii in range(nreg):
                if op in ('add', 'sub', 'iadd', 'isub'):
                    for jj in range(nreg):
                        yield op, ii, jj
                else:
                    yield op, ii, None

    n_start = 2 if tier == 'quick' else 3

    def fresh():
        return [Term.new('dw_laplace(v, %s)' % name, integral, omega)
                for name in 'abc'[:n_start]]

    def replay(prog):
        regs = fresh()
        refs = [[(1.0, 'v, %s' % name)] for name in 'abc'[:n_start]]
        for op, ii, jj in prog:
            if op in ('iadd', 'isub'):
                # Rebinding of a name.
                regs.append(_apply_terms(op, regs[ii], regs[jj]))
                # The changed object may be the left operand itself.
                refs.append(_apply_ref(op, refs[ii], refs[jj]))
                regs[ii], refs[ii] = regs[-1], refs[-1]
            else:
                yy = regs[jj] if jj is not None else None
                ry = refs[jj] if jj is not None else None
                regs.append(_apply_terms(op, regs[ii], yy))
                refs.append(_apply_ref(op, refs[ii], ry))
        return regs, refs

    def rec(prog):
        if prog:
            with acc.case(prog):
                acc.traces += 1
                acc.transitions += len(prog)
                regs, refs = replay(prog)
                for ir, (reg, ref) in enumerate(zip(regs, refs)):
                    out = _read_terms(reg)
                    out = sorted(((ss + 0.0, aa) for ss, aa in out), key=repr)
                    require(_norm(out) == _norm(_canon(ref)),
                            'register %d: %s, expected %s', ir, out,
                            _canon(ref))
                acc.outcome(repr(_norm(_canon(refs[-1]))))
        if len(prog) < depth:
            # Only the last results matter more: use all registers.
            for step in steps(n_start + len(prog)):
                if tier == 'quick' and len(prog) == 2 and \
                   (step[1] != 4 - (5 - n_start - len(prog))
                    and step[2] != n_start + len(prog) - 1
                    and step[0] not in ('add', 'sub')):
                    continue
                rec(prog + [list(step)])

    rec([])

    # Things that are not terms.
    aa = fresh()[0]
    for bad in ('x', None, [1.0]):
        with acc.case(['bad', repr(bad)]):
            for fun in (lambda: aa * bad, lambda: (aa + aa) * bad,
                        lambda: aa + bad, lambda: (aa + aa) + bad,
                        lambda: aa - bad, lambda: (aa + aa) - bad):
                try:
                    out = fun()
                except (ValueError, TypeError):
                    pass
                else:
                    if isinstance(bad, list): continue
                    require(False, 'accepted: %s', out)

def _norm(lst):
    return sorted((round(ss.real, 10) + 0.0, round(ss.imag, 10) + 0.0, aa)
                  for ss, aa in lst)

def run_equations(acc, tier):
    """
    Residuals of equations are combinations of those of their terms.
    """
    from sfepy.discrete import (Equations, Equation, Integral, Integrals,
                                Material, Materials, Variables)
    from sfepy.terms import Term
    domain, omega, field, uu, vv = _setting()
    gamma = domain.regions['Gamma']
    mat = Material('m', a=2.5, b=-1.5)
    variables = Variables([uu, vv])
    materials = Materials([mat])
    integrals = Integrals([Integral('i', order=2), Integral('i1', order=3)])
    single = ['dw_laplace.i.Omega(m.a, v, u)', 'dw_dot.2.Omega(v, u)',
              'dw_dot.i1.Gamma(m.b, v, u)', 'dw_integrate.i.Gamma(v)']
    vec = (nm.arange(field.n_nod) * 5 % 7) + 0.25

    def residual(desc):
        eqs = Equations.from_conf({'eq' : desc}, variables, domain.regions,
                                  materials, integrals, verbose=False)
        eqs.time_update_materials(None, mode='force', verbose=False)
        eqs.time_update(None)
        eqs.variables.init_state()
        eqs.variables.set_state(vec)
        return eqs.eval_residuals(vec, by_blocks=False)

    base = [residual(ss) for ss in single]
    coefs = [cc for cc in COEFS if not isinstance(cc[1], complex)]
    for (p1, m1), (p2, m2) in itertools.product(coefs, coefs):
        for i1, i2 in ((0, 1), (2, 3), (1, 0)):
            if tier == 'quick' and (len(p1) + len(p2) + i1) % 3: continue
            txt = p1 + single[i1] + ' = ' + p2 + single[i2]
            with acc.case(['eq', txt]):
                out = residual(txt)
                ref = m1 * base[i1] - m2 * base[i2]
                require(nm.allclose(out, ref, rtol=1e-11, atol=1e-11),
                        '%r: wrong residual', txt)
                acc.outcome(nm.round(ref, 6).tolist().__repr__())

    # The same by expressions of terms.
    kw = dict(m=mat, v=vv, u=uu)
    t_args = [('dw_laplace(m.a, v, u)', integrals['i'], omega),
              ('dw_dot(v, u)', Integral('x', order=2), omega),
              ('dw_dot(m.b, v, u)', integrals['i1'], gamma),
              ('dw_integrate(v)', integrals['i'], gamma)]
    for muls in itertools.product((-2.0, 0.0, 3) if tier == 'quick' else
                                  (-2.0, 0.0, 1.0, 3), repeat=4):
        with acc.case(['terms', muls]):
            terms = []
            for (name, integral, region), mul in zip(t_args, muls):
                names = name[name.index('(') + 1:-1].replace('m.a', 'm') \
                    .replace('m.b', 'm').split(', ')
                term = Term.new(name, integral, region,
                                **{nn : kw[nn] for nn in names})
                terms.append(mul * term)
            expr = terms[0] - terms[1] + (terms[2] - terms[3])
            eqs = Equations([Equation('eq', expr)])
            eqs.time_update_materials(None, mode='force', verbose=False)
            eqs.time_update(None)
            eqs.variables.init_state()
            eqs.variables.set_state(vec)
            out = eqs.eval_residuals(vec, by_blocks=False)
            ref = (muls[0] * base[0] - muls[1] * base[1] + muls[2] * base[2]
                   - muls[3] * base[3])
            require(nm.allclose(out, ref, rtol=1e-11, atol=1e-11),
                    'wrong residual')

##
# C. Materials.

KINDS = [(kind, what) for kind in ('time-dependent', 'stationary')
         for what in ('function', 'constant', 'by region', 'special')]
KINDS.append(('time-dependent', 'nospecial'))

MOPS = [('tu', 'normal', 0), ('tu', 'normal', 1), ('tu', 'update', 1),
        ('tu', 'force', 1), ('tu', 'force', 0), ('tu2', 'normal', 1),
        ('tu2', 'update', 0), ('reset',), ('setf',), ('extra',), ('user',)]

class MatEnv:
    def __init__(self):
        from sfepy.base.base import Struct
        from sfepy.discrete import Integral, FieldVariable, Equation, Equations
        from sfepy.discrete.fem import FEDomain, Field
        domain = FEDomain('d', meshes.mesh('quad2'))
        self.omega = domain.create_region('Omega', 'all')
        self.o1 = domain.create_region('O1', 'cell 0')
        self.field = Field.from_args('f', nm.float64, 1, self.omega, 1)
        self.var = FieldVariable('u', 'parameter', self.field,
                                 primary_var_name='(set-to-None)')
        self.var.set_data(nm.ones(self.field.n_nod))
        self.i1, self.i2 = Integral('i1', order=1), Integral('i2', order=2)
        self.domain = domain
        self.problem = Struct(domain=domain)

    def qps(self, integral):
        from sfepy.discrete import Integral
        return Integral('q', order=integral.order).get_qp('2_4')[0]

    def n_qp(self, integral):
        return len(self.qps(integral))

    def equations(self, mat, num):
        from sfepy.discrete import Equation, Equations
        from sfepy.terms import Term
        where = [(self.i1, self.omega), (self.i2, self.omega),
                 (self.i1, self.o1)]
        eqs = []
        for ii in range(num):
            integral, region = where[ii]
            term = Term.new('ev_integrate_mat(m.p, u)', integral, region,
                            m=mat, u=self.var)
            eqs.append(Equation('e%d' % ii, term))
        return Equations(eqs), where[:num]

class MatSys:
    """
    The material and its model.
    """
    def __init__(self, env, kind, what):
        from sfepy.discrete import Material
        self.env, self.kind, self.what = env, kind, what
        self.calls = []
        if what == 'constant':
            mat = Material('m', kind=kind, p=3.0)
        elif what == 'by region':
            mat = Material('m', kind=kind, p={'Omega' : 3.0, 'O1' : 5.0})
        else:
            mat = Material('m', kind=kind, function=self.fun('f0'))
        self.mat = mat
        self.eqs = [env.equations(mat, 2), env.equations(mat, 3)]
        # The model.
        self.fname = {'constant' : 'c', 'by region' : 'r'}.get(what, 'f0')
        self.datas = {}
        self.special = None
        self.user = False
        self.extra = 0
        self.n_f = 0

    def fun(self, tag):
        code = float(tag[1:]) * 1000.0
        spec = self.what == 'special'
        def get(ts, coors, mode=None, equations=None, term=None, problem=None,
                extra=0, **kwargs):
            step = ts.step if ts is not None else -1
            val = code + 100.0 * extra + 10.0 * step
            if mode == 'qp':
                self.calls.append('qp')
                return {'p' : val + coors[:, :1, None]}
            elif mode == 'special' and spec:
                return {'flag' : val}
        return get

    def value(self, step):
        if self.fname == 'c': return ('c',)
        if self.fname == 'r': return ('r',)
        return float(self.fname[1:]) * 1000.0 + 100.0 * self.extra \
            + 10.0 * step

    def apply(self, op):
        mat = self.mat
        if op[0] in ('tu', 'tu2'):
            eqs, where = self.eqs[op[0] == 'tu2']
            mode, step = op[1:]
            mat.time_update(_Ts(step, 0.5), eqs, mode=mode,
                            problem=self.env.problem)
            if mode == 'force':
                self.datas, self.special = {}, None
            elif self.datas and (mode == 'normal'):
                if self.user or (self.kind == 'stationary'): return
                if self.fname[0] == 'f' and not self.const():
                    self.datas, self.special = {}, None
            for integral, region in where:
                key = (region.name, integral.order)
                if key in self.datas: continue
                self.datas[key] = self.value(step)
            if (self.special is None) and (self.what == 'special') \
               and (self.fname[0] == 'f'):
                self.special = self.value(step)

        elif op[0] == 'reset':
            mat.reset()
            self._reset()

        elif op[0] == 'setf':
            self.n_f += 1
            tag = 'f%d' % self.n_f
            mat.set_function(self.fun(tag))
            self._reset()
            self.fname = tag

        elif op[0] == 'extra':
            if self.what in ('constant', 'by region') \
               and self.fname[0] != 'f':
                return
            self.extra = 1 - self.extra
            mat.set_extra_args(extra=self.extra)

        elif op[0] == 'user':
            where = self.eqs[0][1]
            datas = {}
            for integral, region in where:
                nel = region.cells.shape[0]
                nqp = self.env.n_qp(integral)
                datas[(region.name, integral.order)] = {
                    'p' : nm.full((nel, nqp, 1, 1), -7.0)}
            mat.set_all_data(datas)
            self.datas = {key : ('u',) for key in datas}
            self.special = None
            self.user = True

    def const(self):
        # A constant material stays so when another function is set.
        return False

    def _reset(self):
        self.datas, self.special, self.user = {}, None, False
        # Extra arguments are forgotten too.
        self.extra = 0

    def judge(self):
        mat = self.mat
        keys = mat.get_keys()
        ref = set(self.datas)
        if not ref and not self.special:
            require(not keys, 'keys: %s', keys)
            return
        keys = set(kk for kk in (keys or []) if isinstance(kk, tuple))
        require(keys == ref, 'keys: %s, expected %s', keys, ref)
        for integral, region in self.eqs[1][1]:
            key = (region.name, integral.order)
            if key not in self.datas: continue
            data = mat.get_data(key, 'p')
            nel = region.cells.shape[0]
            qps = self.env.qps(integral)
            nqp = len(qps)
            val = self.datas[key]
            data = nm.broadcast_to(data, (nel, nqp, 1, 1))
            if val == ('c',): exp = nm.full(data.shape, 3.0)
            elif val == ('u',): exp = nm.full(data.shape, -7.0)
            elif val == ('r',):
                exp = nm.full(data.shape, 3.0)
                exp[nm.isin(region.cells, self.env.o1.cells)] = 5.0
            else:
                coors = self.env.domain.mesh.coors
                conn = self.env.domain.get_conn()
                xx = []
                for cell in region.cells:
                    cc = coors[conn[cell], 0]
                    # The cells are affine.
                    xx.append(sorted(cc[0] + qps @ nm.array([cc[1] - cc[0],
                                                             cc[3] - cc[0]])))
                exp = val + nm.array(xx)[..., None, None]
                data = nm.sort(data, axis=1)
            require(data.shape == exp.shape and
                    nm.allclose(data, exp, rtol=1e-12, atol=1e-12),
                    'data of %s: %s, expected %s', key, data.ravel(),
                    exp.ravel())
        if self.special is not None:
            out = mat.get_data(None, 'flag')
            require(out == self.special, 'special data: %s, expected %s', out,
                    self.special)

def run_materials(acc, kind, what, tier):
    env = MatEnv()
    depth = 3 if tier == 'quick' else 4
    for num in range(1, depth + 1):
        if tier == 'quick' and num == 2: continue
        for seq in itertools.product(MOPS, repeat=num):
            # Prefixes are judged too, so that shorter ones are included.
            # The last operation is an update, otherwise nothing is new.
            if seq[-1][0] not in ('tu', 'tu2', 'user'): continue
            if tier == 'quick' and len(seq) == 3 and \
               seq[0][0] in ('reset', 'setf') and seq[1][0] == 'reset':
                continue
            with acc.case(seq):
                acc.traces += 1
                sys_ = MatSys(env, kind, what)
                for op in seq:
                    acc.transitions += 1
                    sys_.apply(op)
                    sys_.judge()
                acc.outcome(repr(sorted(sys_.datas.items())))
                if what == 'function' and kind == 'stationary' \
                   and all(op[0] == 'tu' and op[1] == 'normal' for op in seq):
                    require(len(sys_.calls) == 2, 'stationary function called'
                            ' %d times', len(sys_.calls))

def _regions(domain, dim):
    lims = domain.mesh.coors.min(0), domain.mesh.coors.max(0)
    mid = 0.5 * (lims[0] + lims[1])
    out = [('Omega', 'all', 'cell'), ('O1', 'cell 0', 'cell'),
           ('O2', 'cell 1', 'cell'),
           ('G0', 'vertices in x < %e' % (lims[0][0] + 1e-8), 'facet'),
           ('G1', 'vertices of surface', 'facet'),
           ('E', 'r.Omega -c r.Omega', 'cell')]
    for name, sel, kind in out:
        domain.create_region(name, sel, kind, allow_empty=name == 'E')
    return [rr[0] for rr in out]

def run_values(acc, mesh, tier):
    """
    Values of materials in quadrature points.
    """
    from sfepy.base.base import Struct
    from sfepy.discrete import (Equation, Equations, FieldVariable, Integral,
                                Material)
    from sfepy.discrete.fem import FEDomain, Field
    from sfepy.terms import Term
    msh = meshes.mesh(mesh)
    dim = msh.dim
    domain = FEDomain('d', msh)
    _regions(domain, dim)
    omega = domain.regions['Omega']
    field = Field.from_args('f', nm.float64, 1, omega, approx_order=1)
    vfield = Field.from_args('g', nm.float64, dim, omega, approx_order=1)
    coor = FieldVariable('x', 'parameter', vfield,
                         primary_var_name='(set-to-None)')
    coor.set_data(vfield.get_coor().ravel())
    var = FieldVariable('u', 'parameter', field,
                        primary_var_name='(set-to-None)')
    var.set_data(nm.ones(field.n_nod))
    problem = Struct(domain=domain)

    def evaluate(mat, par, region, integral, mode='qp', step=0):
        term = Term.new('ev_integrate_mat(m.%s, u)' % par, integral, region,
                        m=mat, u=var)
        eqs = Equations([Equation('e', term)])
        eqs.time_update_materials(_Ts(step, 0.5), problem=problem,
                                  verbose=False)
        return eqs.evaluate(mode=mode)

    def fun(ts, coors, mode=None, term=None, problem=None, equations=None,
            **kwargs):
        if mode != 'qp': return
        nn = coors.shape[0]
        mtx = nm.zeros((nn, dim, 2))
        mtx[:, :, 0] = coors
        mtx[:, :, 1] = coors ** 2
        return {'s' : 1.0 + coors[:, :1, None] * (1 + ts.step),
                'x' : coors[..., None], 'mtx' : mtx,
                'c' : (coors[:, :1] + 1j * coors[:, -1:])[..., None]}

    regions = ['Omega', 'O1', 'O2', 'G0', 'G1']
    for rname, order, par in itertools.product(regions, (0, 1, 2, 3),
                                               ('s', 'x', 'mtx', 'c')):
        with acc.case(['fun', rname, order, par]):
            region = domain.regions[rname]
            integral = Integral('i', order=order)
            mat = Material('m', function=fun)
            val = evaluate(mat, par, region, integral, step=order % 2)
            kind = 'cell' if region.kind == 'cell' else 'facet'
            if kind == 'facet': vfield.get_econn('facet', region)
            xx = coor.evaluate('val', region=region, integral=integral,
                               integration=kind)
            if par == 's': ref = 1.0 + xx[..., :1, :] * (1 + order % 2)
            elif par == 'x': ref = xx
            elif par == 'mtx': ref = nm.concatenate([xx, xx ** 2], axis=-1)
            else: ref = xx[..., :1, :] + 1j * xx[..., -1:, :]
            require(val.shape == ref.shape, 'shape %s, expected %s', val.shape,
                    ref.shape)
            require(nm.allclose(val, ref, rtol=1e-11, atol=1e-11),
                    'values in points of %s differ from those of the'
                    ' function', rname)
            if order >= 1 and par == 'x':
                out = evaluate(mat, par, region, integral, mode='eval')
                # The integral of coordinates: area times centroid.
                exp = _moment(domain, region)
                require(nm.allclose(nm.asarray(out).ravel(), exp, rtol=1e-10,
                                    atol=1e-10), 'integral %s, expected %s',
                        out, exp)

    # Constants.
    consts = {'num' : 2.0, 'cnum' : 2.0 - 1j, 'vec' : nm.arange(1.0, dim + 1)
              [:, None], 'mtx' : nm.arange(4.0).reshape(2, 2), 'int' : 3}
    for rname, par in itertools.product(regions, consts):
        with acc.case(['const', rname, par]):
            region = domain.regions[rname]
            val = evaluate(Material('m', values={par : consts[par],
                                                 'other' : 8.0}),
                           par, region, Integral('i', order=2), mode='eval')
            vol = _measure(domain, region)
            ref = nm.array(consts[par], ndmin=2) * vol
            require(nm.size(val) == ref.size
                    and nm.allclose(nm.ravel(val), ref.ravel(), rtol=1e-10,
                                    atol=1e-10),
                    'integral %s, expected %s', val, ref)

    # Constants by regions.
    vals = {'Omega' : 1.0, 'O1' : 2.0, 'O2' : 4.0, 'G0' : 8.0, 'G1' : 16.0}
    num = 2 if tier == 'quick' else 3
    for nn in range(1, num + 1):
        for keys in itertools.permutations(list(vals), nn):
            for rname, cplx in itertools.product(regions, (0, 1, 2)):
                with acc.case(['by region', keys, rname, cplx]):
                    region = domain.regions[rname]
                    kinds = {domain.regions[kk].kind for kk in keys}
                    if len(kinds | {region.kind}) > 1:
                        # Values in regions of facets and cells.
                        if region.kind == 'facet' and kinds == {'cell'}:
                            pass
                        else: continue
                    rvals = {kk : vals[kk] for kk in keys}
                    if cplx == 1:
                        rvals = {kk : vv + 1j * vv
                                 for kk, vv in rvals.items()}
                    elif cplx == 2:
                        rvals[keys[-1]] = rvals[keys[-1]] * (1 + 1j)
                    mat = Material('m', values={'p' : rvals})
                    out = evaluate(mat, 'p', region, Integral('i', order=2))
                    rcells = region.get_cells(true_cells_only=False)
                    ref = nm.zeros(out.shape, dtype=out.dtype)
                    exp = {}
                    for kk in keys:
                        for cell in domain.regions[kk].get_cells(
                                true_cells_only=False):
                            exp[int(cell)] = rvals[kk]
                    ref = nm.array([exp.get(int(cc), 0.0) for cc in rcells])
                    require(out.shape[0] == len(rcells), 'shape %s', out.shape)
                    require(nm.allclose(out, ref[:, None, None, None]),
                            'values %s, expected %s', out[:, 0, 0, 0], ref)

def _facets(domain, region):
    """
    (vertices) of facets or cells of a region.
    """
    if region.kind == 'cell':
        conn = domain.get_conn()
        return [conn[ii] for ii in region.cells]
    cmesh = domain.cmesh
    cc = cmesh.get_conn(cmesh.tdim - 1, 0)
    return [cc.indices[cc.offsets[ii]:cc.offsets[ii + 1]]
            for ii in region.facets]

def _measures(domain, region):
    coors = domain.mesh.coors
    out = []
    for ent in _facets(domain, region):
        xx = coors[ent]
        dim = xx.shape[1]
        if region.kind == 'cell' and dim == 2 and len(ent) == 3:
            mm = 0.5 * abs(nm.linalg.det(xx[1:] - xx[0]))
        elif region.kind == 'cell' and dim == 3 and len(ent) == 4:
            mm = abs(nm.linalg.det(xx[1:] - xx[0])) / 6.0
        elif region.kind == 'cell' and len(ent) in (4, 8):
            # A parallelogram or a parallelepiped.
            ids = [1, 3] if dim == 2 else [1, 3, 4]
            mm = abs(nm.linalg.det(xx[ids] - xx[0]))
        elif dim == 2:
            mm = nm.linalg.norm(xx[1] - xx[0])
        elif len(ent) == 3:
            mm = 0.5 * nm.linalg.norm(nm.cross(xx[1] - xx[0], xx[2] - xx[0]))
        else:
            mm = nm.linalg.norm(nm.cross(xx[1] - xx[0], xx[3] - xx[0]))
        out.append((mm, xx.mean(0)))
    return out

def _measure(domain, region):
    return sum(mm for mm, _ in _measures(domain, region))

def _moment(domain, region):
    return sum(mm * cc for mm, cc in _measures(domain, region))

##
# D. Integrals.

def _integrals(dim, simplex):
    from sfepy.discrete import Integral
    zero = nm.zeros((1, dim))
    if simplex:
        c1, w1 = nm.eye(dim + 1)[:, 1:], nm.full(dim + 1, 1.0)
        w1 /= {1 : 2.0, 2 : 6.0, 3 : 24.0}[dim]
        zero = zero + 1.0 / (dim + 1)
        w0 = nm.array([{1 : 1.0, 2 : 0.5, 3 : 1.0 / 6.0}[dim]])
    else:
        c1 = nm.array(list(itertools.product((0.0, 1.0), repeat=dim)))
        w1 = nm.full(2 ** dim, 1.0 / 2 ** dim)
        zero = zero + 0.5
        w0 = nm.array([1.0])
    return {
        'o0' : lambda: Integral('i', order=0),
        'o1' : lambda: Integral('i', order=1),
        'o2' : lambda: Integral('i', order=2),
        'o3' : lambda: Integral('j', order=3),
        'o3f' : lambda: Integral('i', order=3, full_order=True),
        'vert' : lambda: Integral('i', coors=c1, weights=w1),
        'cent' : lambda: Integral('i', coors=zero, weights=w0),
        'vert1' : lambda: Integral('k', order=1, coors=c1, weights=w1),
    }

def run_integrals(acc, mesh, tier):
    from sfepy.discrete import (Equation, Equations, FieldVariable, Integral,
                                Material)
    from sfepy.discrete.fem import FEDomain, Field
    from sfepy.terms import Term
    msh = meshes.mesh(mesh)
    dim = msh.dim
    simplex = msh.descs[0] in ('2_3', '3_4')
    domain = FEDomain('d', msh)
    _regions(domain, dim)
    omega = domain.regions['Omega']
    cdefs = _integrals(dim, simplex)
    fdefs = _integrals(dim - 1, simplex or dim == 2)

    def fun(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            return {'p' : (1.0 + coors[:, 0] ** 2 + coors[:, -1])
                    [:, None, None]}

    def setting(order):
        field = Field.from_args('f', nm.float64, 1, omega, approx_order=order)
        var = FieldVariable('u', 'parameter', field,
                            primary_var_name='(set-to-None)')
        nod = nm.arange(field.n_nod)
        var.set_data((nod ** 2 % 7) + 0.5)
        mat = Material('m', function=fun)
        return field, var, mat

    def evaluate(var, mat, integral, region, what):
        if what == 'mat':
            term = Term.new('ev_integrate(m.p, u)', integral, region, m=mat,
                            u=var)
        elif what == 'val':
            term = Term.new('ev_integrate(u)', integral, region, u=var)
        else:
            term = Term.new('ev_grad(u)', integral, region, u=var)
        term.setup()
        return nm.array(term.evaluate(mode='eval')).ravel()

    num = 2 if tier == 'quick' else 3
    for rname, order in itertools.product(('Omega', 'O1', 'G0', 'G1'), (1, 2)):
        region = domain.regions[rname]
        defs = cdefs if region.kind == 'cell' else fdefs
        whats = ('mat', 'val', 'grad') if region.kind == 'cell' \
            else ('mat', 'val')
        # Isolated evaluations.
        ref = {}
        for key, what in itertools.product(defs, whats):
            field, var, mat = setting(order)
            ref[(key, what)] = evaluate(var, mat, defs[key](), region, what)
        for keys in itertools.permutations(list(defs), num):
            if tier == 'quick' and rname in ('O1', 'G1') and order == 2:
                continue
            with acc.case([rname, order, keys]):
                acc.traces += 1
                field, var, mat = setting(order)
                objs = [defs[key]() for key in keys]
                # In sequence and again.
                for it in range(2):
                    for key, integral in zip(keys, objs):
                        for what in whats:
                            out = evaluate(var, mat, integral, region, what)
                            require(nm.allclose(out, ref[(key, what)],
                                                rtol=1e-11, atol=1e-11),
                                    '%s of %s after %s: %s, isolated: %s',
                                    what, key, keys, out, ref[(key, what)])
                acc.outcome(repr(nm.round(ref[(keys[0], 'mat')], 8)))

    # Sums of vertex values and mid-points.
    for rname in ('Omega', 'O1', 'G0', 'G1'):
        region = domain.regions[rname]
        defs = cdefs if region.kind == 'cell' else fdefs
        for key in ('vert', 'cent', 'vert1', 'o2', 'o3', 'o3f'):
            with acc.case(['exact', rname, key]):
                field, var, mat = setting(1)
                # Linear function.
                xx = field.get_coor()
                var.set_data(2.0 - xx[:, 0] + 0.5 * xx[:, -1])
                out = evaluate(var, mat, defs[key](), region, 'val')
                exp = 0.0
                for mm, cc in _measures(domain, region):
                    exp += mm * (2.0 - cc[0] + 0.5 * cc[-1])
                require(nm.allclose(out, exp, rtol=1e-10, atol=1e-10),
                        'integral %s, expected %s', out, exp)

    # Integrals by references.
    from sfepy.discrete import Integrals
    with acc.case('container'):
        ints = Integrals([Integral('i', order=2), Integral('i3', order=3)])
        require(ints.get('i') is ints['i'] and ints.get('i3').order == 3,
                'wrong integral')
        for name in ('2', 2, '0', '3', 3, '11'):
            obj = ints.get(name)
            require(obj.order == int(name) and obj.mode == 'builtin',
                    'order %s', obj.order)
            require(ints.get(name) is obj, 'not kept')
        for bad in ('ix', 'x', 'b2'):
            try:
                ints.get(bad)
            except ValueError: pass
            else: require(False, '%s accepted', bad)

MESHES = ['tri4', 'quad2', 'tet6', 'hex2']

def groups(tier):
    out = [['strings', 0, tier], ['strings', 1, tier], ['args', tier], ['algebra', tier],
           ['equations', tier]]
    out += [['materials', kind, what, tier] for kind, what in KINDS]
    out += [['values', name, tier] for name in MESHES]
    out += [['integrals', name, tier] for name in MESHES]
    return out

def run(group, acc):
    tier = group[-1]
    if group[0] == 'strings': run_strings(acc, group[1], tier)
    elif group[0] == 'args': run_args(acc, tier)
    elif group[0] == 'algebra': run_algebra(acc, tier)
    elif group[0] == 'equations': run_equations(acc, tier)
    elif group[0] == 'materials': run_materials(acc, group[1], group[2], tier)
    elif group[0] == 'values': run_values(acc, group[1], tier)
    elif group[0] == 'integrals': run_integrals(acc, group[1], tier)
