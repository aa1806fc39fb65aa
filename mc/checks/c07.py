"""
C07: variables - state vectors, time history and evaluation caches.
"""
import itertools

import numpy as nm

from mc.core import require, Skip
from mc import meshes

PID = 'C07'
LEVEL = 'exploration'
RULE = ('a case = a sequence of operations on a variable (or on the state of'
        ' all variables) followed by the judgement of everything that can be'
        ' read; all sequences over the given operation alphabets up to the'
        ' stated length are run; non-trivial if an operation changed the'
        ' values; distinct by the sequence')
ASSUMPTIONS = ['the reference keeps plain copies of the DOF vectors; values in'
               ' quadrature points are linear maps of the DOFs, obtained from'
               ' a fresh variable for every unit vector',
               'values of step -1 read while the variable is in step 0 are'
               ' not judged except the plain DOF vector',
               'DOFs not accessible through the API are not changed behind'
               ' the variable\'s back']
BOUNDS = {
    'quick': 'histories None, 0, 1, 2: all sequences of up to 3 or 4'
             ' operations; state of two variables with E(P)BCs: 4 operations;'
             ' with linear combination BCs: 4 operations',
    'thorough': 'one operation more everywhere',
}
LIMIT = 850

##
# A. Parameter variable with history.

MODES = {1 : ('val', 'grad'), 2 : ('val', 'grad', 'div', 'cauchy_strain')}

class Env:
    """
    A field with linear maps of its evaluation modes.
    """
    def __init__(self, mesh='tri2', ncomp=1, order=1, dtype=nm.float64):
        from sfepy.discrete import Integral, FieldVariable
        from sfepy.discrete.fem import FEDomain, Field
        self.domain = FEDomain('d', meshes.mesh(mesh))
        self.omega = self.domain.create_region('Omega', 'all')
        xx = self.domain.mesh.coors[:, 0]
        self.gamma = self.domain.create_region(
            'Gamma', 'vertices in x < %e' % (xx.min() + 0.2), 'facet')
        self.field = Field.from_args('f', dtype, (ncomp,), self.omega,
                                     approx_order=order)
        self.field.get_econn('facet', self.gamma)
        self.ncomp = ncomp
        self.n_dof = self.field.n_nod * ncomp
        self.modes = MODES[ncomp]
        self.integral = Integral('i', order=2)
        self.where = [(self.omega, 'cell'), (self.gamma, 'facet')]
        self.maps = {}
        for mode, iw in self.evals():
            cols = []
            for ii in range(self.n_dof):
                var = FieldVariable('v', 'parameter', self.field,
                                    primary_var_name='(set-to-None)')
                vec = nm.zeros(self.n_dof, dtype=dtype)
                vec[ii] = 1.0
                var.set_data(vec)
                val = self.evaluate(var, mode, iw)
                cols.append(val.copy())
            self.maps[(mode, iw)] = nm.array(cols)

    def evals(self):
        for mode in self.modes:
            yield mode, 0
        yield 'val', 1

    def evaluate(self, var, mode, iw, **kwargs):
        region, integration = self.where[iw]
        return var.evaluate(mode, region=region, integral=self.integral,
                            integration=integration, **kwargs)

    def expected(self, mode, iw, vec):
        return nm.tensordot(vec, self.maps[(mode, iw)], axes=(0, 0))

def _close(val, ref):
    return (val.shape == ref.shape) and nm.allclose(val, ref, rtol=1e-10,
                                                    atol=1e-10)

class RefVar:
    def __init__(self, history):
        self.history = history
        self.data = [None] * (1 + (history or 0))
        self.step = 0
        self.dt = 1.0

    def get(self, step):
        if (self.step == 0) and (step == -1):
            return self.data[0]
        return self.data[-step]

    def advance(self, step):
        if self.history is None:
            return
        self.step = step + 1
        if self.history > 0:
            for ii in range(1, self.history + 1):
                if self.data[ii] is None:
                    self.data[ii] = self.data[ii-1].copy()
            for ii in range(self.history, 0, -1):
                self.data[ii] = self.data[ii-1].copy()

class Ts:
    def __init__(self, step, dt):
        self.step = step
        self.dt = dt

def _vals(num, seed):
    """Distinct values."""
    return ((nm.arange(num) * 7 + seed * 13) % 31 + 0.25 * seed).astype(float)

class VarSystem:
    def __init__(self, env, history):
        from sfepy.discrete import FieldVariable
        self.env = env
        self.var = FieldVariable('p', 'parameter', env.field, history=history,
                                 primary_var_name='(set-to-None)')
        self.var.init_history()
        self.ref = RefVar(history)
        self.n_op = 0
        self.n_adv = 0

    def ops(history, env):
        hist = history or 0
        out = [('set', -ii) for ii in range(hist + 1)]
        out += [('part', -ii) for ii in range(min(hist, 1) + 1)]
        out += [('const', -hist), ('fun', -hist), ('vert',)]
        out += [('qp', -ii) for ii in range(hist + 1)]
        out += [('adv',), ('dt',), ('basis',)]
        if history is not None:
            out += [('forget',)]
        out += [('eval', env.modes[-1], -ii) for ii in range(hist + 1)]
        if history:
            out += [('deriv', env.modes[-1], 0)]
            out += [('derivdt', env.modes[0], 0)]
        if hist > 1:
            out += [('deriv', env.modes[0], -1)]
        return out
    ops = staticmethod(ops)

    def apply(self, op):
        env, var, ref = self.env, self.var, self.ref
        self.n_op += 1
        seed = self.n_op
        kind = op[0]
        if kind == 'set':
            vec = _vals(env.n_dof, seed)
            var.set_data(vec.copy(), step=op[1])
            ref.data[-op[1]] = vec
        elif kind == 'part':
            vec = _vals(env.n_dof + 5, seed)
            indx = slice(2 + seed % 2, 2 + seed % 2 + env.n_dof)
            var.set_data(vec.copy(), indx, step=op[1])
            ref.data[-op[1]] = vec[indx]
        elif kind == 'const':
            var.set_constant(1.5 + seed, step=op[1])
            ref.data[-op[1]] = nm.full(env.n_dof, 1.5 + seed)
        elif kind == 'fun':
            cc = env.field.get_coor()
            def fun(coors):
                return nm.stack([coors[:, 0] * (ic + 1) + seed * coors[:, 1]
                                 for ic in range(env.ncomp)], axis=1)
            var.set_from_function(fun, step=op[1])
            ref.data[-op[1]] = fun(cc).ravel()
        elif kind == 'vert':
            # A linear function is interpolated exactly.
            cc = env.domain.mesh.coors
            def fun(coors):
                return nm.stack([coors[:, 1] * (ic + 2) + seed * coors[:, 0]
                                 for ic in range(env.ncomp)], axis=1)
            var.set_from_mesh_vertices(fun(cc))
            ref.data[0] = fun(env.field.get_coor()).ravel()
        elif kind == 'qp':
            # Cell-wise constant data equal in all cells.
            shape = env.expected('val', 0, nm.zeros(env.n_dof)).shape
            data = nm.empty(shape)
            data[...] = (seed + nm.arange(env.ncomp))[:, None]
            var.set_from_qp(data, env.integral, step=op[1])
            ref.data[-op[1]] = nm.tile(seed + nm.arange(env.ncomp) * 1.0,
                                       env.field.n_nod)
        elif kind == 'adv':
            if (ref.data[0] is None) and ref.history:
                raise Skip
            var.advance(Ts(self.n_adv, 1.0))
            ref.advance(self.n_adv)
            self.n_adv += 1
        elif kind == 'forget':
            var.init_history()
            self.ref = RefVar(ref.history)
            self.ref.dt = ref.dt
        elif kind == 'basis':
            # A basis given explicitly.
            if ref.data[0] is None:
                raise Skip
            geo = env.field.get_mapping(env.omega, env.integral, 'cell')[0]
            val = var.evaluate('val', region=env.omega, integral=env.integral,
                               integration='cell', bf=3.0 * geo.bf)
            require(_close(val, 3 * env.expected('val', 0, ref.data[0])),
                    'values with a given basis')
        elif kind == 'dt':
            ref.dt = 0.5 * ref.dt
            var.time_update(Ts(self.n_adv, ref.dt), None)
        elif kind == 'eval':
            self.check_eval(op[1], op[2])
        elif kind == 'deriv':
            self.check_eval(op[1], op[2], 'dt')
        elif kind == 'derivdt':
            self.check_eval(op[1], op[2], 'dt', 0.125)

    def check_eval(self, mode, step, deriv=None, dt=None, iws=(0,)):
        env, var, ref = self.env, self.var, self.ref
        judged = not ((ref.step == 0) and ((step == -1)
                                           or (deriv and step == 0)))
        for iw in iws:
            if (mode, iw) not in env.maps: continue
            vec = ref.get(step)
            if deriv:
                if (-step + 1) >= len(ref.data):
                    continue
                vec1 = ref.get(step - 1)
                if (vec is None) or (vec1 is None):
                    vec = None
                else:
                    vec = (vec - vec1) / (dt or ref.dt)
            try:
                val = env.evaluate(var, mode, iw, step=step,
                                   time_derivative=deriv, dt=dt)
            except ValueError as exc:
                require(vec is None, 'evaluate(%s, step=%d, %s): %s', mode,
                        step, deriv, exc)
                continue
            if not judged:
                continue
            require(vec is not None,
                    'evaluate(%s, step=%d, %s) of a variable that is not set',
                    mode, step, deriv)
            require(_close(val, env.expected(mode, iw, vec)),
                    'evaluate(%s, step=%d, derivative=%s, dt=%s) in %s differs'
                    ' from the current DOFs: %s != %s', mode, step, deriv, dt,
                    env.where[iw][0].name, val.ravel()[:4],
                    env.expected(mode, iw, vec).ravel()[:4])

    def judge(self, acc):
        env, var, ref = self.env, self.var, self.ref
        hist = ref.history or 0
        for step in range(0, -hist - 1, -1):
            vec = ref.get(step)
            try:
                val = var(step=step)
            except ValueError:
                require(vec is None, 'step %d data are not set', step)
                continue
            require(vec is not None, 'step %d data are set', step)
            require(_close(val, vec), 'DOFs of step %d: %s != %s', step, val,
                    vec)
            if (ref.data[-step] is not None) and ((step != -1) or ref.step):
                for reg in (env.omega, env.gamma):
                    nods = env.field.get_dofs_in_region(reg, merge=True)
                    val = var.get_state_in_region(reg, step=step)
                    rval = vec.reshape((-1, env.ncomp))[nods]
                    require(_close(val, rval),
                            'DOFs in %s, step %d: %s != %s', reg.name, step,
                            val, rval)
            if step == 0:
                require(var.is_finite(), 'not finite')
        if ref.history:
            for step in range(0, -hist, -1):
                v0, v1 = ref.get(step), ref.get(step - 1)
                if (v0 is None) or (v1 is None): continue
                for dt in (None, 0.25):
                    val = var(step=step, derivative='dt', dt=dt)
                    require(_close(val, (v0 - v1) / (dt or ref.dt)),
                            'derivative of DOFs, step %d', step)
        for mode in env.modes:
            for step in range(0, -hist - 1, -1):
                self.check_eval(mode, step, iws=(0, 1))
                if ref.history and (mode in (env.modes[0], env.modes[-1])):
                    self.check_eval(mode, step, 'dt')
                    self.check_eval(mode, step, 'dt', 0.125)
        acc.outcome((ref.step, ref.dt, [None if vec is None else vec.tolist()
                                        for vec in ref.data]))

def _variable(acc, history, ncomp, order, depth, first):
    env = Env('tri2' if order == 1 else 'quad2', ncomp, order)
    ops = VarSystem.ops(history, env)
    for num in range(0 if first == 0 else 1, depth + 1):
        heads = [[]] if num == 0 else [[ops[first]]]
        for head in heads:
            for rest in itertools.product(ops, repeat=max(num - 1, 0)):
                seq = head + list(rest)
                # Consecutive evaluations of the same thing add nothing.
                if any(o0 == o1 and o0[0] in ('eval', 'deriv', 'derivdt')
                       for o0, o1 in zip(seq, seq[1:])):
                    continue
                with acc.case(seq, nontrivial=num > 0):
                    system = VarSystem(env, history)
                    for op in seq:
                        system.apply(op)
                    system.judge(acc)
                acc.transitions += num
                acc.states += 1

##
# B., C. The state of all variables.

class StateEnv:
    """
    Two variables with E(P)BCs, or with a linear combination BC.
    """
    def __init__(self, lcbc):
        from sfepy.discrete import Integral, Function, Functions
        from sfepy.discrete.fem import FEDomain, Field
        import sfepy.discrete.fem.periodic as per
        self.lcbc = lcbc
        self.domain = FEDomain('d', meshes.mesh('quad4'))
        self.omega = self.domain.create_region('Omega', 'all')
        xx = self.domain.mesh.coors
        x0, x1 = xx[:, 0].min(), xx[:, 0].max()
        y0, y1 = xx[:, 1].min(), xx[:, 1].max()
        create = self.domain.create_region
        self.left = create('Left', 'vertices in x < %e' % (x0 + 0.2), 'facet')
        self.right = create('Right', 'vertices in x > %e' % (x1 - 0.2),
                            'facet')
        self.bot = create('Bot', 'vertices in y < %e' % (y0 + 0.2), 'facet')
        self.fu = Field.from_args('fu', nm.float64, (2,), self.omega,
                                  approx_order=1)
        self.fp = Field.from_args('fp', nm.float64, (1,), self.omega,
                                  approx_order=1)
        self.functions = Functions([Function('match_y_line',
                                             per.match_y_line)])
        self.integral = Integral('i', order=2)
        self.maps = {}
        self.reset()
        for name in ('u', 'p'):
            mode = {'u' : 'cauchy_strain', 'p' : 'grad'}[name]
            cols = []
            n_dof = self.n_dofs[name]
            from sfepy.discrete import FieldVariable
            for ii in range(n_dof):
                var = FieldVariable('v', 'parameter',
                                    self.fu if name == 'u' else self.fp,
                                    primary_var_name='(set-to-None)')
                vec = nm.zeros(n_dof)
                vec[ii] = 1.0
                var.set_data(vec)
                cols.append(var.evaluate(mode, integral=self.integral).copy())
            self.maps[name] = (mode, nm.array(cols))

    def reset(self):
        from sfepy.discrete import FieldVariable, Variables
        from sfepy.discrete.conditions import (
            Conditions, EssentialBC, PeriodicBC, InitialCondition,
            LinearCombinationBC)
        u = FieldVariable('u', 'unknown', self.fu, order=0, history=1)
        p = FieldVariable('p', 'unknown', self.fp, order=1)
        par = FieldVariable('par', 'parameter', self.fp, history=1,
                            primary_var_name='p')
        self.variables = vs = Variables([u, p, par])
        vs.setup_dof_info()
        if self.lcbc:
            ebcs = Conditions([EssentialBC('e1', self.left, {'u.all' : 0.5})])
            epbcs = None
        else:
            ebcs = Conditions([EssentialBC('e1', self.bot,
                                           {'u.1' : 0.5, 'p.0' : -1.0})])
            epbcs = Conditions([PeriodicBC('pbc', [self.left, self.right],
                                           {'u.0' : 'u.0'}, 'match_y_line')])
        vs.equation_mapping(ebcs, epbcs, None, self.functions)
        if self.lcbc:
            lcbcs = Conditions([LinearCombinationBC(
                'lc', [self.right, None], {'u.all' : None}, None,
                self.lcbc, arguments=((None,) if self.lcbc == 'no_penetration'
                                     else None))])
            vs.setup_lcbc_operators(lcbcs)
        else:
            vs.setup_lcbc_operators(None)
        ics = Conditions([InitialCondition('ic', self.omega, {'u.0' : 3.0})])
        vs.setup_initial_conditions(ics, self.functions)
        vs.init_state()
        self.indx = {'u' : slice(0, u.n_dof), 'p' : slice(u.n_dof,
                                                         u.n_dof + p.n_dof)}
        self.n_dofs = {'u' : u.n_dof, 'p' : p.n_dof}
        self.n_full = u.n_dof + p.n_dof
        self.tables()

    def tables(self):
        """The fixed, tied and free DOFs found from the geometry."""
        n_nod = self.fu.n_nod
        nods = {}
        for reg in (self.left, self.right, self.bot):
            nods[reg.name] = [int(ii) for ii in reg.vertices]
        xx = self.domain.mesh.coors
        ebc, tied = {}, {}
        if self.lcbc:
            for ii in nods['Left']:
                ebc[2*ii] = ebc[2*ii+1] = 0.5
        else:
            for ii in nods['Bot']:
                ebc[2*ii + 1] = 0.5
                ebc[2*n_nod + ii] = -1.0
            for ii in nods['Left']:
                jj = [jj for jj in nods['Right']
                      if abs(xx[ii, 1] - xx[jj, 1]) < 1e-8]
                tied[2*ii] = 2*jj[0]
        self.ebc = ebc
        self.tied = tied
        ic = nm.zeros(self.n_full)
        ic[:2*n_nod:2] = 3.0
        self.ic = ic

    def apply_ebc(self, vec):
        vec = vec.copy()
        for ii, val in self.ebc.items():
            vec[ii] = val
        # The values of the second region's DOFs are the ones kept, the way of
        # the copying is read from the code.
        em = self.variables['u'].eq_map
        for im, isl in zip(em.master, em.slave):
            require((int(im) in self.tied and self.tied[int(im)] == isl)
                    or (int(isl) in self.tied and self.tied[int(isl)] == im),
                    'wrong tied DOFs')
            vec[im] = vec[isl]
        require(len(em.master) == len(self.tied), 'wrong number of tied DOFs')
        return vec

    def expand(self, r_vec):
        """The full vector of a reduced one."""
        vs = self.variables
        if self.lcbc:
            r_vec = vs.mtx_lcbc @ r_vec
            if vs.vec_lcbc is not None:
                r_vec = r_vec + vs.vec_lcbc
        em = self.variables['u'].eq_map
        fixed = set(self.ebc) | {int(ii) for ii in em.master}
        vec = nm.zeros(self.n_full)
        free = [ii for ii in range(self.n_full) if ii not in fixed]
        vec[free] = r_vec
        return self.apply_ebc(vec)

    def reduce(self, vec):
        em = self.variables['u'].eq_map
        fixed = set(self.ebc) | {int(ii) for ii in em.master}
        free = [ii for ii in range(self.n_full) if ii not in fixed]
        return vec[free]

    def has_ebc(self, vec):
        ok = all(abs(vec[ii] - val) < 1e-9 for ii, val in self.ebc.items())
        return ok and all(abs(vec[ii] - vec[jj]) < 1e-9
                          for ii, jj in self.tied.items())

class StateSystem:
    def __init__(self, env):
        self.env = env
        env.reset()
        self.vs = env.variables
        self.vec = nm.zeros(env.n_full)
        self.hist = None
        self.step = 0
        self.r_vec = None
        # None: not judged.
        self.r_known = True
        self.n_adv = 0
        self.n_op = 0

    OPS = [('full',), ('fullbc',), ('red',), ('redbc',), ('fill',), ('bc',),
           ('bcforce',), ('ic',), ('parts',), ('adv',), ('init',),
           ('eval', 'u', 0), ('eval', 'u', -1), ('deriv', 'u', 0),
           ('eval', 'p', 0), ('other',)]

    def _set(self, vec):
        self.vec = vec

    def apply(self, op):
        env, vs = self.env, self.vs
        self.n_op += 1
        seed = self.n_op
        kind = op[0]
        force = bool(env.lcbc)
        if kind in ('full', 'fullbc'):
            vec = _vals(env.n_full, seed)
            if env.lcbc:
                try:
                    vs.set_state(vec.copy(), apply_ebc=False)
                except ValueError:
                    pass
                else:
                    require(False, 'full state with LCBCs set')
            vs.set_state(vec.copy(), force=force, apply_ebc=kind == 'fullbc')
            self.vec = env.apply_ebc(vec) if kind == 'fullbc' else vec
            self.r_vec = None
            self.r_known = True
        elif kind in ('red', 'redbc'):
            n_red = vs.lcdi.n_dof_total
            r_vec = _vals(n_red, seed)
            arg = r_vec.copy()
            vs.set_state(arg, reduced=True, apply_ebc=kind == 'redbc')
            require(nm.array_equal(arg, r_vec), 'argument changed')
            self.vec = env.expand(r_vec)
            if kind == 'redbc':
                self.vec = env.apply_ebc(self.vec)
            self.r_vec = r_vec
            self.r_known = True
            # The caller may reuse its array.
            arg[:] = 1e3
        elif kind == 'fill':
            vs.fill_state(1.0 * seed)
            self.vec = nm.full(env.n_full, 1.0 * seed)
            self.r_known = False
        elif kind == 'bc':
            vs.apply_ebc()
            self.vec = env.apply_ebc(self.vec)
        elif kind == 'bcforce':
            vs.apply_ebc(force_values=0.25)
            old = dict(env.ebc)
            env.ebc = {ii : 0.25 for ii in old}
            self.vec = env.apply_ebc(self.vec)
            env.ebc = old
        elif kind == 'ic':
            vs.apply_ic()
            self.vec = env.ic.copy()
            self.r_vec = None
            self.r_known = True
        elif kind == 'parts':
            vec = _vals(env.n_full, seed)
            vs.set_state_parts({'p' : vec[env.indx['p']].copy()}, force=force)
            self.vec = self.vec.copy()
            self.vec[env.indx['p']] = vec[env.indx['p']]
            self.r_vec = None
            self.r_known = True
        elif kind == 'other':
            # Vectors given explicitly, the state has to stay the same.
            vec = _vals(env.n_full, seed)
            val = vec.copy()
            vs.apply_ebc(val)
            require(nm.array_equal(val, env.apply_ebc(vec)),
                    'E(P)BCs of a given vector')
            val = vec.copy()
            vs.apply_ic(val)
            require(nm.array_equal(val, env.ic), 'ICs of a given vector')
            parts = vs.get_state_parts(vec)
            val = vs.create_vec()
            vs.set_state_parts(parts, vec=val, force=force)
            require(nm.array_equal(val, vec), 'parts of a given vector')
            require(nm.array_equal(vs.reduce_vec(vec), env.reduce(vec)),
                    'reduced given vector')
            out = vs.create_output(vec)
            require(nm.array_equal(out['u'].data.ravel(),
                                   vec[env.indx['u']]), 'output')
        elif kind == 'adv':
            vs.advance(Ts(self.n_adv, 1.0))
            self.hist = self.vec[env.indx['u']].copy()
            self.n_adv += 1
            self.step = self.n_adv
        elif kind == 'init':
            vec = _vals(env.n_full, seed)
            vs.init_state(vec.copy())
            self.vec = vec
            self.hist = None
            self.step = 0
            self.r_vec = None
            self.r_known = True
        elif kind == 'eval':
            self.check_eval(op[1], op[2])
        elif kind == 'deriv':
            self.check_eval(op[1], op[2], 'dt')

    def check_eval(self, name, step, deriv=None):
        env = self.env
        var = self.vs[name]
        mode, mtx = env.maps[name]
        vec = self.vec[env.indx[name]]
        judged = True
        if step == -1:
            if self.step == 0:
                judged = False
            else:
                vec = self.hist
        elif deriv:
            if self.step == 0:
                judged = False
            else:
                vec = (vec - self.hist) / 1.0
        val = var.evaluate(mode, integral=env.integral, step=step,
                           time_derivative=deriv)
        if judged:
            ref = nm.tensordot(vec, mtx, axes=(0, 0))
            require(_close(val, ref), 'evaluate(%s, %d, %s) differs from the'
                    ' current DOFs: %s != %s', name, step, deriv,
                    val.ravel()[:4], ref.ravel()[:4])

    def judge(self, acc):
        env, vs = self.env, self.vs
        require(_close(vs(), self.vec), 'state %s != %s', vs(), self.vec)
        require(_close(vs.get_state(), self.vec), 'get_state()')
        parts = vs.get_state_parts()
        for name, indx in env.indx.items():
            require(_close(vs(name), self.vec[indx]), 'state of %s', name)
            require(_close(vs[name](), self.vec[indx]), 'DOFs of %s', name)
            require(_close(parts[name], self.vec[indx]), 'part of %s', name)
            self.check_eval(name, 0)
        if self.hist is not None:
            require(_close(vs['u'](step=-1), self.hist), 'previous DOFs of u:'
                    ' %s != %s', vs['u'](step=-1), self.hist)
        elif self.step == 0:
            require(_close(vs['u'](step=-1), self.vec[env.indx['u']]),
                    'previous DOFs of u in step 0')
        self.check_eval('u', -1)
        self.check_eval('u', 0, 'dt')
        require(vs.has_ebc() == env.has_ebc(self.vec), 'has_ebc()')
        out = vs.create_output()
        for name, indx in env.indx.items():
            require(_close(out[name].data.ravel(), self.vec[indx]),
                    'output of %s', name)

        if not env.lcbc:
            val = vs.get_state(reduced=True)
            require(_close(val, env.reduce(self.vec)), 'reduced state')
        elif self.r_known:
            if self.r_vec is None:
                try:
                    val = vs.get_state(reduced=True)
                except ValueError:
                    pass
                else:
                    require(False, 'stale reduced state: %s', val)
                val = vs.get_state(reduced=True, force=True)
                require(len(val) == vs.lcdi.n_dof_total, 'forced reduced'
                        ' state')
            else:
                val = vs.get_state(reduced=True)
                require(_close(val, self.r_vec), 'reduced state %s != %s',
                        val, self.r_vec)
        acc.outcome((self.step, self.vec.tolist(),
                     None if self.hist is None else self.hist.tolist()))

def _state(acc, lcbc, depth, first):
    env = StateEnv(lcbc)
    ops = StateSystem.OPS
    for num in range(0 if first == 0 else 1, depth + 1):
        head = [] if num == 0 else [ops[first]]
        for rest in itertools.product(ops, repeat=max(num - 1, 0)):
            seq = head + list(rest)
            if any(o0 == o1 and o0[0] in ('eval', 'deriv', 'other')
                   for o0, o1 in zip(seq, seq[1:])):
                continue
            with acc.case(seq, nontrivial=num > 0):
                system = StateSystem(env)
                for op in seq:
                    system.apply(op)
                system.judge(acc)
            acc.transitions += num
            acc.states += 1

##
VARS = [(None, 1, 1), (None, 2, 2), (0, 1, 1), (1, 1, 1), (1, 2, 2), (2, 1, 1)]

def _n_ops(history):
    class Fake:
        modes = ('a', 'b')
    return len(VarSystem.ops(history, Fake))

def groups(tier):
    plus = 0 if tier == 'quick' else 1
    out = []
    for history, ncomp, order in VARS:
        depth = {None : 4, 0 : 4, 1 : 3, 2 : 3}[history] + plus
        if ncomp == 2:
            depth -= 1
        for first in range(_n_ops(history)):
            out.append(['var', history, ncomp, order, depth, first])
    for lcbc in (None, 'no_penetration', 'rigid'):
        depth = (3 if lcbc else 3) + plus
        for first in range(len(StateSystem.OPS)):
            out.append(['state', lcbc, depth, first])
    return out

def run(group, acc):
    if group[0] == 'var':
        _variable(acc, *group[1:])
    else:
        _state(acc, *group[1:])
