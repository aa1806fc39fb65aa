"""
C08: assembling of residuals and tangent matrices.
"""
import itertools

import numpy as nm

from mc.core import require, Skip
from mc import meshes

PID = 'C08'
LEVEL = 'exploration'
RULE = ('a case = a mesh, a set of equations, boundary conditions and options'
        ' (or a sequence of time updates with various conditions); the'
        ' assembled vectors and matrices are compared with the dense sums of'
        ' the element contributions; non-trivial if an element contributed;'
        ' distinct by the configuration')
ASSUMPTIONS = ['the element contributions are those given to the assemble'
               ' hook of Equations (their values are the subject of C14)',
               'the mapping of DOFs to the active ones is that of the'
               ' variables (the subject of C04), the node connectivities are'
               ' those of the fields (the subject of C06)']
BOUNDS = {
    'quick': 'all subsets of nodes with essential conditions on meshes with'
             ' up to 6 nodes, all subsets of cells of terms, several systems'
             ' of equations, all pairs of conditions in two time updates',
    'thorough': 'the same with larger meshes and all triples of time updates',
}
LIMIT = 300
PRELOAD = ('sfepy.discrete.problem',)

class Env:
    """
    A domain with fields and regions, common to the cases.
    """
    def __init__(self, mname):
        from sfepy.discrete import Integral
        from sfepy.discrete.fem import FEDomain
        self.mname = mname
        self.domain = FEDomain('d', meshes.mesh(mname))
        self.dim = self.domain.shape.dim
        self.n_cell = self.domain.shape.n_el
        self.regions = {}
        self.fields = {}
        self.integral = Integral('i', order=2)
        self.region('Omega', 'all')

    def region(self, name, sel, kind='cell', **kwargs):
        if name not in self.regions:
            self.regions[name] = self.domain.create_region(name, sel, kind,
                                                           **kwargs)
        return self.regions[name]

    def cells(self, cells):
        return self.region('C' + '_'.join(map(str, cells)),
                           'cell ' + ', '.join(map(str, cells)))

    def parts(self, cells):
        """Names of regions of the cells."""
        return (['Omega'] if cells is None else
                [self.cells(cells).name] if len(cells) else [])

    def nodes(self, verts):
        return self.region('V' + '_'.join(map(str, verts)),
                           'vertex ' + ', '.join(map(str, verts)), 'vertex')

    def facets(self, which):
        xx = self.domain.mesh.coors
        ax = {'L' : 0, 'R' : 0, 'B' : 1, 'T' : 1}[which]
        lo, hi = xx[:, ax].min(), xx[:, ax].max()
        op = ('< %e' % (lo + 0.2)) if which in 'LB' else ('> %e' % (hi - 0.2))
        return self.region('F' + which, 'vertices in %s %s'
                           % ('xyz'[ax], op), 'facet')

    def field(self, name, ncomp, order, region='Omega', dtype=nm.float64):
        from sfepy.discrete.fem import Field
        if name not in self.fields:
            self.fields[name] = Field.from_args(
                name, dtype, (ncomp,), self.regions[region],
                approx_order=order)
        return self.fields[name]

def _material(name, **values):
    from sfepy.discrete import Material
    return Material(name, **values)

class System:
    """
    Equations made from (equation name, [(sign, term, region, integral)])
    descriptions.
    """
    def __init__(self, env, desc, varspec, load=0.0):
        from sfepy.discrete import FieldVariable, Equation, Equations
        from sfepy.terms import Term
        self.env = env
        self.vars = {}
        for name, kind, fname, opts in varspec:
            opts = dict(opts)
            self.vars[name] = FieldVariable(name, kind, env.fields[fname],
                                            **opts)
        mats = {'m' : _material('m', c=2.0, k=1.5,
                                D=nm.diag(nm.arange(1.0, 7.0))[:3, :3]),
                'load' : _material('load', **{'.val' : load,
                                             '.k' : 3.0})}
        eqs = []
        self.terms = []
        for ename, terms in desc:
            tlist = None
            for coef, tdesc, rname, integral in terms:
                names = tdesc[tdesc.index('(') + 1 : -1]
                names = names.replace('tr(', '').replace(')', '')
                names = names.replace('[-1]', '')
                names = names.replace('d%s/dt', '')
                args = {}
                for aux in names.split(','):
                    aux = aux.strip()
                    if aux.startswith('d') and aux.endswith('/dt'):
                        aux = aux[1:-3]
                    aux = aux.split('.')[0]
                    if aux in self.vars:
                        args[aux] = self.vars[aux]
                    elif aux in mats:
                        args[aux] = mats[aux]
                term = Term.new(tdesc, integral or env.integral,
                                env.regions[rname], **args)
                term = coef * term
                tlist = term if tlist is None else tlist + term
            eqs.append(Equation(ename, tlist))
        self.eqs = Equations(eqs)
        self.variables = self.eqs.variables

class Ts:
    def __init__(self, step=0, dt=0.5, quasi=False):
        self.step = step
        self.dt = dt
        self.time = step * dt
        self.is_quasistatic = quasi
        self.nt = 0.0
        self.n_step = 10

def make_bcs(env, ebcs, epbcs):
    from sfepy.discrete.conditions import Conditions, EssentialBC, PeriodicBC
    from sfepy.discrete import Functions, Function
    import sfepy.discrete.fem.periodic as per
    out = []
    for ii, (region, dofs, val) in enumerate(ebcs):
        out.append(EssentialBC('e%d' % ii, region,
                               {dof : val for dof in dofs}, key='e%d' % ii))
    pout = []
    for ii, (reg1, reg2, dofs, match) in enumerate(epbcs):
        pout.append(PeriodicBC('p%d' % ii, [reg1, reg2],
                               {dof : dof for dof in dofs}, match,
                               key='p%d' % ii))
    funs = Functions([Function('match_y_line', per.match_y_line),
                      Function('match_x_line', per.match_x_line)])
    return (Conditions(out) if out else None,
            Conditions(pout) if pout else None, funs)

def full_conn(env, term, var, trace, offset, integration):
    """
    The connectivity with all the DOFs.
    """
    field = var.field
    region = term.region
    dct = integration
    econn = field.get_econn(dct, region)
    nc = var.n_components
    return offset + (econn[:, None, :] * nc
                     + nm.arange(nc)[None, :, None]).reshape(
                         (econn.shape[0], -1))

def trace_conn(env, term, rvar, cvar, tregion, offset, rconn_nodes):
    """
    The column connectivity of a trace: the DOFs with the coordinates of the
    row ones, fields of order 1.
    """
    mreg = env.regions[tregion]
    xr = rvar.field.get_coor()
    nods = nm.unique(cvar.field.get_dofs_in_region(mreg, merge=True))
    xc = cvar.field.get_coor(nods)
    nc = cvar.n_components
    out = []
    for row in rconn_nodes:
        cols = []
        for ii in row:
            dd = nm.linalg.norm(xc - xr[ii], axis=1)
            require(dd.min() < 1e-10, 'no trace node')
            cols.append(int(nods[dd.argmin()]))
        out.append(cols)
    econn = nm.array(out)
    return offset + (econn[:, None, :] * nc
                     + nm.arange(nc)[None, :, None]).reshape(
                         (econn.shape[0], -1))

def _primary(system, var):
    return var if var.is_state() else system.vars[var.primary_var_name]

def dense(system, records, ts):
    """
    Dense sums of the element contributions.
    """
    vs = system.variables
    offs = vs.di.indx
    dtype = vs.dtype
    nn = vs.di.n_dof_total
    mtx = nm.zeros((nn, nn), dtype=dtype)
    vec = nm.zeros(nn, dtype=dtype)
    shared = {}
    n_rec = 0
    for term, vals, iels, mode, dvar in records:
        if not len(vals): continue
        n_rec += 1
        vvar = term.get_virtual_variable()
        pvar = _primary(system, vvar)
        it = term.geometry_types[vvar.name]
        it = ('cell', it[1]) if it[0] == 'facet_extra' else it
        rconn = full_conn(system.env, term, pvar, None,
                          offs[pvar.name].start, it)
        if mode == 'vector':
            for ie, iel in enumerate(iels):
                nm.add.at(vec, rconn[iel], vals[ie, 0, :, 0])
            continue
        trace = term.arg_trace_regions.get(dvar.name)
        ct = term.geometry_types[dvar.name]
        ct = ('cell', ct[1]) if ct[0] == 'facet_extra' else ct
        if trace is not None:
            rnodes = pvar.field.get_econn(it, term.region)
            cconn = trace_conn(system.env, term, pvar, dvar, trace,
                               offs[dvar.name].start, rnodes)
        else:
            cconn = full_conn(system.env, term, dvar, None,
                              offs[dvar.name].start, ct)
        fact = 1.0
        if term.arg_derivatives[dvar.name] == 'dt':
            fact = 1.0 / ts.dt
            if ts.is_quasistatic and (ts.step == 0):
                fact = 0.0
        for ie, iel in enumerate(iels):
            nm.add.at(mtx, nm.ix_(rconn[iel], cconn[iel]),
                      fact * vals[ie, 0])
    return mtx, vec, n_rec

def reduction(variables, active_only=True):
    """
    The matrix R of x = R x_active.
    """
    nn = variables.di.n_dof_total
    nr = 0
    rows, cols = [], []
    seen = {}
    for name in variables.di.indx:
        var = variables[name]
        off = variables.di.indx[name].start
        # The DOFs of variables of the same order are those of the first one.
        order = name if var._order is None else var._order
        if order in seen:
            continue
        seen[order] = name
        eq = var.eq_map.eq
        for ii in range(var.n_dof):
            if active_only:
                if eq[ii] >= 0:
                    rows.append(off + ii)
                    cols.append(nr + int(eq[ii]))
            else:
                if eq[ii] >= 0:
                    rows.append(off + ii)
                    master = nm.where(var.eq_map.master == ii)[0]
                    jj = (int(var.eq_map.slave[master[0]]) if len(master)
                          else ii)
                    cols.append(off + jj)
        nr += var.eq_map.n_eq if active_only else var.n_dof
    out = nm.zeros((nn, nr))
    out[rows, cols] = 1.0
    return out

def _state(num, seed, dtype):
    vec = ((nm.arange(num) * 5 + 3 * seed) % 11) * 0.25 - 1.0
    if dtype == nm.complex128:
        vec = vec + 1j * (((nm.arange(num) * 3) % 7) * 0.5)
    return vec.astype(dtype)

def _eq(aa, bb):
    scale = max(1.0, nm.abs(bb).max(initial=0.0))
    return (aa.shape == bb.shape) and bool((nm.abs(aa - bb)
                                            <= 1e-11 * scale).all())

def check_system(acc, system, bcs, ts, active_only=True, any_conn=True,
                 seed=0, update=True, blocks=None, terms=True, chunks=(),
                 parent=None):
    """
    Judge everything assembled by the equations.
    """
    eqs, vs = system.eqs, system.variables
    if update:
        ebcs, epbcs, funs = make_bcs(system.env, *bcs)
        eqs.time_update(ts, ebcs, epbcs, None, funs, active_only=active_only,
                        verbose=False)
    else:
        eqs.variables.time_update(ts, None, verbose=False)
    eqs.time_update_materials(ts, verbose=False)
    vs.init_state()

    state = _state(vs.di.n_dof_total, seed, vs.dtype)
    records = []

    def hook(equation, it, term, asm_obj, vals, iels, mode='vector',
             diff_var=None):
        records.append((term, vals.copy(), iels, mode, diff_var))
        return term.assemble_to(asm_obj, vals, iels, mode=mode,
                                diff_var=diff_var)

    red = reduction(vs, active_only)
    res = eqs.eval_residuals(state.copy())
    del records[:]
    res1 = eqs.eval_residuals(state.copy(), assemble=hook)
    require(_eq(res, res1), 'the residual is not repeatable')
    vrecords = list(records)

    mtx = eqs.create_matrix_graph(any_dof_conn=any_conn, verbose=False,
                                  active_only=active_only)
    del records[:]
    if mtx is not None:
        require(mtx.shape == (red.shape[1], red.shape[1]), 'shape %s',
                mtx.shape)
        require((mtx.data == 0).all(), 'nonzero initial matrix')
        pattern = (mtx.indptr.copy(), mtx.indices.copy())
        for row in range(mtx.shape[0]):
            ii = mtx.indices[mtx.indptr[row]:mtx.indptr[row+1]]
            require(len(set(ii.tolist())) == len(ii), 'repeated entries')
        out = eqs.eval_tangent_matrices(state.copy(), mtx, assemble=hook)
        require(out is mtx, 'not assembled in place')
        vals = mtx.toarray()
        eqs.eval_tangent_matrices(state.copy(), mtx)
        require(_eq(mtx.toarray(), vals), 'the matrix is not repeatable')
        require(nm.array_equal(pattern[0], mtx.indptr)
                and nm.array_equal(pattern[1], mtx.indices),
                'the structure changed')
    mrecords = list(records)

    ref_m, ref_v, n_rec = dense(system, vrecords + mrecords, ts)
    require(_eq(res, red.T @ ref_v), 'residual %s != %s', res, red.T @ ref_v)
    if mtx is not None:
        ref = red.T @ ref_m @ red
        require(_eq(vals, ref), 'matrix: %s != %s', vals.tolist(),
                ref.tolist())

    for chunk in chunks if mtx is not None else ():
        mtx1 = eqs.create_matrix_graph(any_dof_conn=any_conn, verbose=False,
                                       active_only=active_only,
                                       chunk_size=chunk)
        require(nm.array_equal(pattern[0], mtx1.indptr)
                and all(sorted(mtx1.indices[aa:bb]) == sorted(
                    pattern[1][aa:bb]) for aa, bb in zip(pattern[0],
                                                         pattern[0][1:])),
                'another structure with chunk_size %d', chunk)

    if terms:
        by = eqs.eval_residuals(state.copy(), by_terms=True)
        tot = nm.zeros_like(res)
        for (ename, it), val in by.items():
            term = eqs[ename].terms[it]
            _, rv, _ = dense(system, [rec for rec in vrecords
                                      if rec[0] is term], ts)
            ir = vs.get_indx(term.get_virtual_name(), reduced=True,
                             allow_dual=True)
            require(_eq(val, (red.T @ rv)[ir]), 'residual of term %s %d',
                    ename, it)
            tot[ir] += val
        require(_eq(tot, res), 'sum of the term residuals')
        if mtx is not None:
            by = eqs.eval_tangent_matrices(state.copy(), mtx, by_terms=True)
            for (ename, it), val in by.items():
                term = eqs[ename].terms[it]
                rm, _, _ = dense(system, [rec for rec in mrecords
                                          if rec[0] is term], ts)
                ir = vs.get_indx(term.get_virtual_name(), reduced=True,
                                 allow_dual=True)
                require(_eq(val.toarray(), (red.T @ rm @ red)[ir]),
                        'matrix of term %s %d', ename, it)
        for eq in eqs:
            for it, chosen in enumerate(eq.terms):
                fun = lambda term: term is chosen
                val = eqs.eval_residuals(state.copy(), select_term=fun)
                _, rv, _ = dense(system, [rec for rec in vrecords
                                          if rec[0] is chosen], ts)
                require(_eq(val, red.T @ rv), 'residual of selected term %d',
                        it)
    if blocks:
        by = eqs.eval_residuals(state.copy(), by_blocks=True)
        for name in eqs.names:
            key, rname, cname = [aux.strip() for aux in name.split(',')]
            _, rv, _ = dense(system, [rec for rec in vrecords
                                      if rec[0] in list(eqs[name].terms)], ts)
            ir = vs.get_indx(rname, reduced=True, allow_dual=True)
            require(_eq(by[key], (red.T @ rv)[ir]), 'residual block %s', key)
        if mtx is not None:
            by = eqs.eval_tangent_matrices(state.copy(), mtx, by_blocks=True)
            for name in eqs.names:
                key, rname, cname = [aux.strip() for aux in name.split(',')]
                rm, _, _ = dense(system, [rec for rec in mrecords
                                          if rec[0] in list(eqs[name].terms)],
                                 ts)
                ir = vs.get_indx(rname, reduced=True, allow_dual=True)
                ic = vs.get_indx(cname, reduced=True, allow_dual=True)
                require(_eq(by[key].toarray(), (red.T @ rm @ red)[ir, ic]),
                        'matrix block %s', key)
    if n_rec == 0:
        raise Skip
    acc.outcome((None if mtx is None else nm.round(vals, 6).tolist()))
    return res, (None if mtx is None else mtx)

##
# The systems of equations.

def scalar(env, cells=None, order=1, dtype=nm.float64):
    env.field('f%d%s' % (order, dtype.__name__), 1, order, dtype=dtype)
    fname = 'f%d%s' % (order, dtype.__name__)
    terms = [(1.0, 'dw_laplace(m.c, v, u)', rname, None)
             for rname in env.parts(cells)]
    terms += [(-0.5, 'dw_dot(v, u)', rname, None)
              for rname in env.parts(None)]
    return System(env, [('eq', terms)],
                  [('u', 'unknown', fname, {}),
                   ('v', 'test', fname, {'primary_var_name' : 'u'})])

def repeated(env, cells):
    """The same terms in several regions."""
    env.field('f', 1, 1)
    rest = [ii for ii in range(env.n_cell) if ii not in cells]
    terms = [(1.0, 'dw_laplace(m.c, v, u)', rname, None)
             for rname in env.parts(cells)]
    terms += [(2.0, 'dw_laplace(m.k, v, u)', rname, None)
              for rname in env.parts(rest)]
    return System(env, [('eq', terms)],
                  [('u', 'unknown', 'f', {}),
                   ('v', 'test', 'f', {'primary_var_name' : 'u'})])

def stokes(env, order=(2, 1), swap=False):
    dim = env.dim
    env.field('fu%d' % order[0], dim, order[0])
    env.field('fp%d' % order[1], 1, order[1])
    fu, fp = 'fu%d' % order[0], 'fp%d' % order[1]
    oo = (1, 0) if swap else (0, 1)
    return System(env, [
        ('A, v, u', [(1.0, 'dw_div_grad(m.c, v, u)', 'Omega', None)]),
        ('B, v, p', [(-1.0, 'dw_stokes(v, p)', 'Omega', None)]),
        ('C, q, u', [(1.0, 'dw_stokes(u, q)', 'Omega', None)])],
        [('u', 'unknown', fu, {'order' : oo[0]}),
         ('v', 'test', fu, {'primary_var_name' : 'u'}),
         ('p', 'unknown', fp, {'order' : oo[1]}),
         ('q', 'test', fp, {'primary_var_name' : 'p'})])

def coupled(env, swap=False, order=2, dtype=nm.float64, dt=False):
    """Two scalars of various orders in the same regions."""
    extra = [(1.5, 'dw_dot(s, da/dt)', 'Omega', None)] if dt else []
    env.field('f1', 1, 1, dtype=dtype)
    env.field('f2', 1, order, dtype=dtype)
    oo = (1, 0) if swap else (0, 1)
    return System(env, [
        ('eqa', [(1.0, 'dw_laplace(m.c, s, a)', 'Omega', None),
                 (0.5, 'dw_dot(s, b)', 'Omega', None)] + extra),
        ('eqb', [(2.0, 'dw_dot(t, a)', 'Omega', None),
                 (1.0, 'dw_laplace(m.k, t, b)', 'Omega', None)]
                 + ([(0.5, 'dw_dot(t, db/dt)', 'Omega', None)]
                    if dt else []))],
        [('a', 'unknown', 'f1', {'order' : oo[0], 'history' : int(dt)}),
         ('s', 'test', 'f1', {'primary_var_name' : 'a'}),
         ('b', 'unknown', 'f2', {'order' : oo[1], 'history' : int(dt)}),
         ('t', 'test', 'f2', {'primary_var_name' : 'b'})])

def partial(env, cells_a, cells_b):
    """Two fields in subregions, coupled in their common cells."""
    ra, rb = env.cells(cells_a).name, env.cells(cells_b).name
    env.field('f' + ra, 1, 1, region=ra)
    env.field('g' + rb, 1, 1, region=rb)
    common = [ii for ii in cells_a if ii in cells_b]
    eqa = [(1.0, 'dw_laplace(m.c, s, a)', rc, None)
           for rc in env.parts(cells_a)]
    eqb = [(1.0, 'dw_laplace(m.k, t, b)', rc, None)
           for rc in env.parts(cells_b)]
    for rc in env.parts(common):
        eqa.append((0.5, 'dw_dot(s, b)', rc, None))
        eqb.append((-0.5, 'dw_dot(t, a)', rc, None))
    return System(env, [('eqa', eqa), ('eqb', eqb)],
                  [('a', 'unknown', 'f' + ra, {'order' : 0}),
                   ('s', 'test', 'f' + ra, {'primary_var_name' : 'a'}),
                   ('b', 'unknown', 'g' + rb, {'order' : 1}),
                   ('t', 'test', 'g' + rb, {'primary_var_name' : 'b'})])

def shared(env, order):
    """Variables sharing DOFs."""
    env.field('f1', 1, 1)
    spec = []
    for ii, (name, test) in enumerate(zip('abc', 'stq')):
        spec.append((name, 'unknown', 'f1', {'order' : order[ii]}))
        spec.append((test, 'test', 'f1', {'primary_var_name' : name}))
    terms = {}
    for ii, (name, test) in enumerate(zip('abc', 'stq')):
        other = 'abc'[(ii + 1) % 3]
        terms['eq' + name] = [
            (1.0 + ii, 'dw_laplace(m.c, %s, %s)' % (test, name), 'Omega',
             None),
            (0.5, 'dw_dot(%s, %s)' % (test, other), 'Omega', None)]
    return System(env, list(terms.items()), spec)

def rectangular(env, which):
    """Some variables have no equation or no own block."""
    env.field('f1', 1, 1)
    env.field('f2', 1, 2)
    terms = {'aa' : 'dw_laplace(m.c, s, a)', 'ab' : 'dw_dot(s, b)',
             'ba' : 'dw_dot(t, a)', 'bb' : 'dw_laplace(m.c, t, b)'}
    eqs = []
    for row in 'ab':
        tt = [(1.0, terms[key], 'Omega', None) for key in which
              if key[0] == row]
        if tt:
            eqs.append(('eq' + row, tt))
    spec = [('a', 'unknown', 'f1', {'order' : 0}),
            ('s', 'test', 'f1', {'primary_var_name' : 'a'}),
            ('b', 'unknown', 'f2', {'order' : 1}),
            ('t', 'test', 'f2', {'primary_var_name' : 'b'})]
    return System(env, eqs, spec)

def surface(env, order=1):
    env.field('fs%d' % order, 1, order)
    fname = 'fs%d' % order
    for ww in 'LRBT':
        env.facets(ww)
    return System(env, [('eq', [
        (1.0, 'dw_laplace(m.c, v, u)', 'Omega', None),
        (3.0, 'dw_dot(m.k, v, u)', 'FL', None),
        (0.5, 'dw_dot(v, u)', 'FB', None),
        (-2.0, 'dw_integrate(m.c, v)', 'FR', None)])],
        [('u', 'unknown', fname, {}),
         ('v', 'test', fname, {'primary_var_name' : 'u'})])

def transient(env):
    env.field('ft', 1, 1)
    return System(env, [('eq', [
        (1.0, 'dw_dot(v, du/dt)', 'Omega', None),
        (1.0, 'dw_laplace(m.c, v, u)', 'Omega', None),
        (0.5, 'dw_dot(v, u[-1])', 'Omega', None)])],
        [('u', 'unknown', 'ft', {'history' : 1}),
         ('v', 'test', 'ft', {'primary_var_name' : 'u'})])

def trace(env):
    """Fields in two subdomains coupled over their interface."""
    env.region('Omega1', 'cell 0')
    env.region('Omega2', 'cell ' + ', '.join(map(str, range(1, env.n_cell))))
    env.region('Gamma1', 'r.Omega1 *v r.Omega2', 'facet', parent='Omega1')
    env.region('Gamma2', 'r.Omega2 *v r.Omega1', 'facet', parent='Omega2')
    env.field('f1t', 1, 1, region='Omega1')
    env.field('f2t', 1, 1, region='Omega2')
    return System(env, [
        ('eqa', [(1.0, 'dw_laplace(m.c, s, a)', 'Omega1', None),
                 (2.0, 'dw_dot(s, a)', 'Gamma1', None),
                 (-2.0, 'dw_dot(s, tr(Gamma2, b))', 'Gamma1', None)]),
        ('eqb', [(1.0, 'dw_laplace(m.k, t, b)', 'Omega2', None),
                 (-3.0, 'dw_dot(t, tr(Gamma1, a))', 'Gamma2', None)])],
        [('a', 'unknown', 'f1t', {'order' : 0}),
         ('s', 'test', 'f1t', {'primary_var_name' : 'a'}),
         ('b', 'unknown', 'f2t', {'order' : 1}),
         ('t', 'test', 'f2t', {'primary_var_name' : 'b'})])

def points(env, verts):
    dim = env.dim
    env.field('fv', dim, 1)
    rname = env.nodes(verts).name
    return System(env, [('eq', [
        (1.0, 'dw_div_grad(m.c, v, u)', 'Omega', None),
        (1.0, 'dw_point_load(load.val, v)', rname, None),
        (2.0, 'dw_point_lspring(load.k, v, u)', rname, None)])],
        [('u', 'unknown', 'fv', {}),
         ('v', 'test', 'fv', {'primary_var_name' : 'u'})])

##
# Work units.

def subsets(items, lo=0, hi=None):
    hi = len(items) if hi is None else hi
    for num in range(lo, hi + 1):
        yield from itertools.combinations(items, num)

def epbc_of(env, kind, dof):
    if kind is None:
        return []
    if kind == 'x':
        return [(env.facets('L'), env.facets('R'), [dof], 'match_y_line')]
    return [(env.facets('B'), env.facets('T'), [dof], 'match_x_line')]

def _scalar(acc, mname, order, pbc, active_only, dtype):
    env = Env(mname)
    dtype = {'r' : nm.float64, 'c' : nm.complex128}[dtype]
    n_nod = env.domain.shape.n_nod
    for sub in subsets(range(n_nod), 0, n_nod):
        ident = [list(sub)]
        with acc.case(ident):
            system = scalar(env, order=order, dtype=dtype)
            ebcs = []
            for ii in range(2):
                part = sub[ii::2]
                if part:
                    ebcs.append((env.nodes(part), ['u.0'], 0.5 + ii))
            if len(sub) == n_nod: raise Skip
            check_system(acc, system, (ebcs, epbc_of(env, pbc, 'u.0')), Ts(),
                         active_only=active_only, seed=len(sub),
                         chunks=((2, 3, 1) if order == 1 else ()),
                         terms=order == 1)
        acc.transitions += 1

def _cells(acc, mname, kind):
    env = Env(mname)
    for sub in subsets(range(env.n_cell), 1):
        for ebc in ((), (0,), (1, 2)):
            for active_only in (True, False):
                with acc.case([list(sub), list(ebc), active_only]):
                    system = (scalar(env, cells=sub) if kind == 'cells'
                              else repeated(env, sub))
                    ebcs = [(env.nodes(ebc), ['u.0'], 2.0)] if ebc else []
                    check_system(acc, system, (ebcs, []), Ts(),
                                 active_only=active_only)
                acc.transitions += 1

def _partial(acc, mname):
    env = Env(mname)
    for ca in subsets(range(env.n_cell), 1):
        for cb in subsets(range(env.n_cell), 1):
            for active_only in (True, False):
                with acc.case([list(ca), list(cb), active_only]):
                    system = partial(env, ca, cb)
                    ebcs = [(env.nodes((0, 1)), ['a.0'], 2.0),
                            (env.nodes((1,)), ['b.0'], 2.0)]
                    check_system(acc, system, (ebcs, []), Ts(),
                                 active_only=active_only, terms=True)
                acc.transitions += 1

def _stokes(acc, mname, order, swap, active_only):
    env = Env(mname)
    n_nod = env.domain.shape.n_nod
    env.facets('L'), env.facets('R')
    allu = ['u.all', 'u.0', 'u.1']
    for su in (None, 'L', 'all', 'some'):
        for sp in (None, 'one', 'all', 'R'):
            for pbc in ((None,) if mname == 'tri2' else (None, 'x')):
                for dofs in allu:
                    with acc.case([su, sp, pbc, dofs]):
                        system = stokes(env, order, swap)
                        ebcs = []
                        reg = {'L' : env.facets('L'), 'R' : env.facets('R'),
                               'all' : env.regions['Omega'],
                               'some' : env.nodes((0, 2)),
                               'one' : env.nodes((1,))}
                        if su:
                            ebcs.append((reg[su], [dofs], 0.5))
                        if sp:
                            ebcs.append((reg[sp], ['p.0'], -1.0))
                        if (su == 'all') and (sp == 'all'):
                            raise Skip
                        check_system(acc, system,
                                     (ebcs, epbc_of(env, pbc, 'u.1')), Ts(),
                                     active_only=active_only, blocks=True,
                                     terms=True)
                    acc.transitions += 1

def _coupled(acc, mname, swap, active_only):
    env = Env(mname)
    verts = list(range(env.domain.shape.n_nod))[:4]
    allreg = env.regions['Omega']
    for sa in list(subsets(verts, 0, 2)) + ['all']:
        for sb in list(subsets(verts, 0, 2)) + ['all']:
            with acc.case([sa, sb]):
                if sa == sb == 'all': raise Skip
                system = coupled(env, swap)
                ebcs = []
                for name, sub in (('a.0', sa), ('b.0', sb)):
                    if sub == 'all':
                        ebcs.append((allreg, [name], 1.0))
                    elif sub:
                        ebcs.append((env.nodes(sub), [name], 1.0))
                check_system(acc, system, (ebcs, []), Ts(),
                             active_only=active_only, terms=False)
            acc.transitions += 1

def _wide(acc, mname, dtype, active_only):
    """
    Matrices with more than a hundred of entries in a row.
    """
    env = Env(mname)
    dtype = {'r' : nm.float64, 'c' : nm.complex128}[dtype]
    verts = list(range(env.domain.shape.n_nod))
    for order in (8, 9):
        for swap in (False, True):
            for sub in subsets(verts, 0, order - 7):
                for which in ('a.0', 'b.0'):
                    with acc.case([order, swap, sub, which]):
                        system = coupled(env, swap, order, dtype,
                                         order > 8)
                        ebcs = ([(env.nodes(sub), [which], 1.0)]
                                if sub else [])
                        check_system(acc, system, (ebcs, []), Ts(1),
                                     active_only=active_only, terms=False)
                    acc.transitions += 1
        env.fields.clear()

def _shared(acc, mname, active_only):
    env = Env(mname)
    verts = list(range(env.domain.shape.n_nod))[:4]
    for order in itertools.product((0, 1, 2), repeat=3):
        if set(order) != set(range(len(set(order)))): continue
        for sub in subsets(verts, 0, 2):
            for names in ('a', 'b', 'c'):
                with acc.case([order, sub, names]):
                    try:
                        system = shared(env, order)
                    except ValueError:
                        raise Skip
                    ebcs = ([(env.nodes(sub), [names + '.0'], 1.0)]
                            if sub else [])
                    # Conditions of the first variable of each order only.
                    if order.index(order['abc'.index(names)]) != \
                       'abc'.index(names):
                        raise Skip
                    check_system(acc, system, (ebcs, []), Ts(),
                                 active_only=active_only)
                acc.transitions += 1

def _rectangular(acc, mname, active_only):
    env = Env(mname)
    verts = list(range(env.domain.shape.n_nod))[:3]
    for which in subsets(['aa', 'ab', 'ba', 'bb'], 1):
        rows = {key[0] for key in which}
        cols = {key[1] for key in which}
        # A test variable needs its primary variable.
        if (rows | cols != {'a', 'b'}) or not (rows <= cols): continue
        for sa in subsets(verts, 0, 1):
            for sb in subsets(verts, 0, 1):
                with acc.case([which, sa, sb]):
                    system = rectangular(env, which)
                    ebcs = []
                    for name, sub in (('a.0', sa), ('b.0', sb)):
                        if sub:
                            ebcs.append((env.nodes(sub), [name], 1.0))
                    check_system(acc, system, (ebcs, []), Ts(),
                                 active_only=active_only)
                acc.transitions += 1

def _surface(acc, mname, order, active_only):
    env = Env(mname)
    for ww in subsets('LRBT'):
        for pbc in (None, 'x', 'y'):
            with acc.case([list(ww), pbc]):
                if mname.startswith('tri') and pbc and (order > 1): raise Skip
                system = surface(env, order)
                ebcs = [(env.facets(w1), ['u.0'], 1.0 + ii)
                        for ii, w1 in enumerate(ww)]
                check_system(acc, system, (ebcs, epbc_of(env, pbc, 'u.0')),
                             Ts(), active_only=active_only)
            acc.transitions += 1

def _transient(acc, mname):
    env = Env(mname)
    verts = list(range(env.domain.shape.n_nod))[:4]
    for sub in subsets(verts, 0, 3):
        for step, quasi, dt, active_only in itertools.product(
                (0, 1, 2), (True, False), (0.5, 0.125), (True, False)):
            with acc.case([list(sub), step, quasi, dt, active_only]):
                system = transient(env)
                ebcs = [(env.nodes(sub), ['u.0'], 1.0)] if sub else []
                check_system(acc, system, (ebcs, []), Ts(step, dt, quasi),
                             active_only=active_only)
            acc.transitions += 1

def _trace(acc, mname):
    env = Env(mname)
    verts = list(range(env.domain.shape.n_nod))[:4]
    for sa in subsets(verts, 0, 2):
        for sb in subsets(verts, 0, 2):
            for active_only in (True, False):
                with acc.case([list(sa), list(sb), active_only]):
                    system = trace(env)
                    ebcs = []
                    for name, sub in (('a.0', sa), ('b.0', sb)):
                        if sub:
                            ebcs.append((env.nodes(sub), [name], 1.0))
                    check_system(acc, system, (ebcs, []), Ts(),
                                 active_only=active_only)
                acc.transitions += 1

def _points(acc, mname):
    env = Env(mname)
    verts = list(range(env.domain.shape.n_nod))[:4]
    for sub in subsets(verts, 1, 4):
        for ebc in subsets(verts, 0, 2):
            with acc.case([list(sub), list(ebc)]):
                system = points(env, sub)
                ebcs = [(env.nodes(ebc), ['u.1'], 1.0)] if ebc else []
                check_system(acc, system, (ebcs, []), Ts())
            acc.transitions += 1

def _updates(acc, mname, depth, first):
    """
    Time updates of the same equations with changing conditions.
    """
    env = Env(mname)
    n0, n1 = env.nodes((0,)), env.nodes((1, 2))
    configs = [([], []), ([(n0, ['u.0'], 1.0)], []),
               ([(n1, ['u.0'], 1.0)], []),
               ([(n0, ['u.0'], 1.0), (n1, ['u.0'], 2.0)], []),
               ([], epbc_of(env, 'x', 'u.0')),
               ([(n0, ['u.0'], 1.0)], epbc_of(env, 'x', 'u.0')),
               ([(n0, ['u.0'], 3.0)], epbc_of(env, 'y', 'u.0'))]
    options = [(ii, active) for ii in range(len(configs))
               for active in (True, False)]
    for rest in itertools.product(options, repeat=depth - 1):
        seq = [options[first]] + list(rest)
        with acc.case(seq):
            system = scalar(env)
            for step, (ii, active) in enumerate(seq):
                out = check_system(acc, system, configs[ii], Ts(step),
                                   active_only=active, terms=False)
        acc.transitions += depth
        acc.states += 1

def _solve(acc, mname, pbc):
    """
    Solutions with the reduced and with the full numbering.
    """
    from sfepy.discrete import Problem
    from sfepy.solvers.ls import ScipyDirect
    from sfepy.solvers.nls import Newton
    env = Env(mname)
    n_nod = env.domain.shape.n_nod
    for sub in subsets(range(n_nod), 1, n_nod - 1):
        with acc.case([list(sub)]):
            # Of the nodes tied together, one can be prescribed only.
            epbc = epbc_of(env, pbc, 'u.0')
            if epbc:
                lr = [set(env.facets(w1).vertices.tolist())
                      for w1 in ('LR' if pbc == 'x' else 'BT')]
                if (len(set(sub) & lr[0]) + len(set(sub) & lr[1])) > 1:
                    raise Skip
            sols = []
            for active_only in (True, False):
                system = scalar(env)
                # Positive definite.
                system.eqs[0].terms[1].sign = 1.0
                vals = [0.5 * (ii + 1) for ii in range(len(sub))]
                ebcs = [(env.nodes((iv,)), ['u.0'], val)
                        for iv, val in zip(sub, vals)]
                eb, ep, funs = make_bcs(env, ebcs, epbc)
                pb = Problem('p', equations=system.eqs,
                             active_only=active_only)
                pb.functions = funs
                nls = Newton({'eps_a' : 1e-10, 'i_max' : 2},
                             lin_solver=ScipyDirect({}), status={})
                pb.set_solver(nls)
                pb.set_bcs(ebcs=eb, epbcs=ep)
                pb.time_update()
                variables = pb.solve(save_results=False, verbose=False)
                sols.append(variables().copy())
                for iv, val in zip(sub, vals):
                    require(abs(sols[-1][iv] - val) < 1e-8,
                            'prescribed value %d: %s (active_only=%s)', iv,
                            sols[-1], active_only)
                # The residual is zero in the free directions.
                records = []
                def hook(equation, it, term, asm_obj, vals, iels,
                         mode='vector', diff_var=None):
                    records.append((term, vals.copy(), iels, mode, diff_var))
                    return term.assemble_to(asm_obj, vals, iels, mode=mode,
                                            diff_var=diff_var)
                system.eqs.eval_residuals(sols[-1].copy(), assemble=hook)
                _, rv, _ = dense(system, records, Ts())
                red = reduction(system.variables, True)
                require(nm.abs(red.T @ rv).max(initial=0.0) < 1e-8,
                        'nonzero residual %s (active_only=%s)', red.T @ rv,
                        active_only)
            require(nm.allclose(sols[0], sols[1], atol=1e-8),
                    'active_only=False gives %s instead of %s', sols[1],
                    sols[0])
            acc.outcome(nm.round(sols[0], 6).tolist())
        acc.transitions += 1

UNITS = {'scalar' : _scalar, 'cells' : _cells, 'partial' : _partial,
         'stokes' : _stokes, 'coupled' : _coupled, 'wide' : _wide, 'surface' : _surface,
         'transient' : _transient, 'trace' : _trace, 'points' : _points,
         'shared' : _shared, 'rectangular' : _rectangular,
         'updates' : _updates, 'solve' : _solve}

def groups(tier):
    deep = tier != 'quick'
    out = []
    for mname in ['quad2', 'tri4'] + (['quad3'] if deep else []):
        for active_only in (True, False):
            for pbc in (None, 'x', 'y'):
                out.append(['scalar', mname, 1, pbc, active_only, 'r'])
            out.append(['scalar', mname, 2, None, active_only, 'r'])
            out.append(['scalar', mname, 1, None, active_only, 'c'])
    for active_only in (True, False):
        out.append(['scalar', 'line3', 1, None, active_only, 'r'])
        if deep:
            out.append(['scalar', 'hex1', 1, None, active_only, 'r'])
    for mname in ['tri4', 'quad4'] + (['hex2', 'tet6']
                                               if deep else []):
        out.append(['cells', mname, 'cells'])
        out.append(['cells', mname, 'repeated'])
    for mname in ['quad3'] + (['quad4', 'tri4'] if deep else []):
        out.append(['partial', mname])
    for mname in ('tri2', 'quad2'):
        for order in ((2, 1), (1, 1), (1, 2)):
            for swap in (False, True):
                for active_only in (True, False):
                    if (order == (1, 2)) and (swap or not deep): continue
                    out.append(['stokes', mname, order, swap, active_only])
    for mname in ['quad2', 'tri2'] + (['tri4'] if deep else []):
        for swap in (False, True):
            for active_only in (True, False):
                out.append(['coupled', mname, swap, active_only])
    for mname in ('quad2', 'quad4', 'tri4'):
        for order in (1, 2):
            for active_only in (True, False):
                out.append(['surface', mname, order, active_only])
    out.append(['transient', 'quad2'])
    for mname in ('quad2', 'quad4', 'tri2') + (('tri4',) if deep else ()):
        out.append(['trace', mname])
    out.append(['points', 'quad2'])
    for active_only in (True, False):
        out.append(['shared', 'tri2', active_only])
        out.append(['rectangular', 'tri2', active_only])
        for dtype in 'rc':
            out.append(['wide', 'quad1', dtype, active_only])
    for mname in ['quad2'] + (['quad4', 'tri4'] if deep else []):
        for first in range(14):
            out.append(['updates', mname, 3 if deep else 2, first])
    for mname in ('quad2', 'tri4', 'quad4') if deep else ('quad2', 'tri4'):
        for pbc in (None, 'x', 'y'):
            out.append(['solve', mname, pbc])
    return out

def run(group, acc):
    UNITS[group[0]](acc, *group[1:])
