"""
C05: time steppers, time stepping solvers and step controllers.
"""
import copy
import itertools

import numpy as nm

from mc.core import require, Mismatch

PID = 'C05'
LEVEL = 'exploration'
RULE = ('a case = a sequence of time stepper operations, or a solver with its'
        ' parameters and a script of nonlinear solver / step controller'
        ' answers; non-trivial if at least one step or operation is made')
ASSUMPTIONS = ['the reference recurrences of the integrators are evaluated'
               ' densely in double precision, compared with rtol 1e-8',
               'the nonlinear solver is replaced by a scripted one in the'
               ' call protocol part, the rest runs the real one']
BOUNDS = {
    'quick': 'operation sequences up to 4, scripts up to 5 answers, 2 DOFs',
    'thorough': 'operation sequences up to 6, scripts up to 8 answers',
}
LIMIT = 800

# ---------------------------------------------------------------- steppers

class RefTS:
    def __init__(self, t0, t1, dt=None, n_step=None):
        if n_step is None:
            dt = (t1 - t0) if dt is None else dt
            n_step = int(nm.floor((t1 - t0) / dt + 0.5)) + 1
        self.t0, self.t1, self.n = t0, t1, n_step
        if n_step > 1:
            self.dt = (t1 - t0) / (n_step - 1)
        else:
            self.dt = t1 - t0
        self.step = 0
        self.sub = 0.0

    def time_of(self, step):
        return self.t0 + (self.dt * step if self.n > 1 else 0.0)

def same_ts(ts, ref):
    require(ts.step == ref.step, 'step %s instead of %s', ts.step, ref.step)
    tt = ref.time_of(ref.step) + ref.sub
    require(abs(ts.time - tt) <= 1e-12 * max(1, abs(tt)),
            'time %r instead of %r', ts.time, tt)
    if not ref.sub:
        nt = (tt - ref.t0) / (ref.t1 - ref.t0)
        require(abs(ts.nt - nt) <= 1e-12, 'normalized time %r, not %r',
                ts.nt, nt)
    require(ts.n_step == ref.n, 'n_step')
    require(abs(ts.dt - ref.dt) <= 1e-12 * abs(ref.dt), 'dt %r, not %r',
            ts.dt, ref.dt)
    if ref.step == ref.n - 1 and ref.n > 1 and not ref.sub:
        require(ts.time == ref.t1, 'the final time is %r', ts.time)

TS_CONFS = [(0.0, 1.0, None, 5), (0.0, 1.0, 0.25, None), (-1.0, 2.0, 1.0, 3),
            (0.0, 0.3, 0.1, None), (2.0, 3.0, None, None),
            (0.0, 1.0, None, 1), (1.0, 2.0, 0.4, None)]

def ts_ops(ref, nn):
    ops = ['advance', 'state', 'copy', 'iter', 'sub', 'bad']
    ops += [('set', kk) for kk in (0, 1, nn - 1, -1, -nn)
            if -nn <= kk < nn]
    return ops

def _apply_ts(ts, ref, op):
    from sfepy.solvers.ts import TimeStepper
    if op == 'advance':
        ts.advance()
        ref.step = min(ref.step + 1, ref.n - 1)
    elif op == 'state':
        state = copy.deepcopy(ts.get_state())
        new = TimeStepper(ref.t0, ref.t1, n_step=ref.n)
        new.set_state(**state)
        ts = new
    elif op == 'copy':
        new = TimeStepper(ref.t0 - 3, ref.t1 + 7, n_step=ref.n + 3)
        new.set_from_ts(ts)
        ts = new
    elif op == 'iter':
        got = []
        for step, time in ts.iter_from(ref.step):
            require(ts.step == step and ts.time == time,
                    'the stepper is not at the step it yields')
            got.append((step, time))
        exp = [(ii, ref.time_of(ii)) for ii in range(ref.step, ref.n)]
        require([g[0] for g in got] == [e[0] for e in exp],
                'iteration over steps %s, not %s', got, exp)
        require(all(abs(g[1] - e[1]) < 1e-12 for g, e in zip(got, exp)),
                'iteration over times %s, not %s', got, exp)
        ref.step = ref.n - 1
    elif op == 'sub':
        ts.set_substep_time(-0.3 * ref.dt)
        ref.sub = -0.3 * ref.dt
        same_ts(ts, ref)
        ts.restore_step_time()
        ref.sub = 0.0
        ts.restore_step_time()
    elif op == 'bad':
        for kk in (ref.n, ref.n + 3, -ref.n - 1):
            try:
                ts.set_step(kk)
            except ValueError:
                pass
            else:
                raise Mismatch('step %d of %d accepted' % (kk, ref.n))
    else:
        ts.set_step(op[1])
        ref.step = op[1] % ref.n
    return ts

def run_steppers(group, acc):
    from sfepy.solvers.ts import TimeStepper
    _, depth, ic = group
    t0, t1, dt, n_step = TS_CONFS[ic]
    ref = RefTS(t0, t1, dt, n_step)
    states = set()
    for num in range(depth + 1):
        for seq in itertools.product(ts_ops(ref, ref.n), repeat=num):
            with acc.case(list(seq), nontrivial=num > 0):
                rr = RefTS(t0, t1, dt, n_step)
                ts = TimeStepper(t0, t1, dt=dt, n_step=n_step)
                same_ts(ts, rr)
                for op in seq:
                    ts = _apply_ts(ts, rr, op)
                    same_ts(ts, rr)
                    acc.transitions += 1
                states.add(rr.step)
                acc.outcome([ic, rr.step])
    acc.states += len(states)

    for ii, conf in enumerate(TS_CONFS):
        with acc.case(['eq', ii]):
            ts = TimeStepper(t0, t1, dt=dt, n_step=n_step)
            other = TimeStepper(conf[0], conf[1], dt=conf[2], n_step=conf[3])
            r2 = RefTS(*conf)
            exp = (ref.t0, ref.t1, ref.n) == (r2.t0, r2.t1, r2.n)
            require(bool(ts == other) == exp, 'steppers %s and %s compare %s',
                    TS_CONFS[ic], conf, ts == other)
            other.set_step(-1)
            require(bool(ts == other) == exp, 'comparison depends on step')

class RefVTS:
    def __init__(self, t0, t1, dt=None, n_step=None):
        rr = RefTS(t0, t1, dt, n_step)
        self.t0, self.t1, self.dt = t0, t1, rr.dt
        self.dt0 = rr.dt
        self.times = [t0]

def same_vts(ts, ref):
    require(ts.step == len(ref.times) - 1, 'step %s instead of %s', ts.step,
            len(ref.times) - 1)
    require(len(ts.times) == len(ref.times)
            and nm.allclose(ts.times, ref.times, rtol=0, atol=1e-12),
            'times %s instead of %s', ts.times, ref.times)
    require(abs(ts.time - ref.times[-1]) < 1e-12, 'time %r instead of %r',
            ts.time, ref.times[-1])
    require(abs(ts.dt - ref.dt) < 1e-12, 'dt %r instead of %r', ts.dt, ref.dt)
    nt = (ref.times[-1] - ref.t0) / (ref.t1 - ref.t0)
    require(abs(ts.nt - nt) < 1e-12, 'normalized time %r, not %r', ts.nt, nt)
    require(abs(ts.get_default_time_step() - ref.dt0) < 1e-14, 'default dt')

def _apply_vts(ts, ref, op):
    from sfepy.solvers.ts import VariableTimeStepper
    if op == 'advance':
        ts.advance()
        ref.times.append(ref.times[-1] + ref.dt)
        require(ts.n_step == len(ref.times), 'n_step after advance()')
    elif op in ('half', 'double'):
        ref.dt *= 0.5 if op == 'half' else 2.0
        ts.set_time_step(ref.dt)
    elif op in ('rehalf', 'redouble'):
        ref.dt *= 0.5 if op == 'rehalf' else 2.0
        if len(ref.times) > 1:
            ref.times[-1] = ref.times[-2] + ref.dt
            ts.set_time_step(ref.dt, update_time=True)
        else:
            ts.set_time_step(ref.dt)
    elif op == 'state':
        state = copy.deepcopy(ts.get_state())
        new = VariableTimeStepper(ref.t0, ref.t1, dt=ref.dt0)
        new.set_state(**state)
        ts = new
    elif op == 'same':
        ts.set_step(ts.step)
        if len(ref.times) == 1:
            ref.times = [ref.t0]
    elif op == 'bad':
        for kk in (len(ref.times), len(ref.times) + 1):
            try:
                ts.set_step(kk)
            except ValueError:
                pass
            else:
                raise Mismatch('step %d accepted' % kk)
    elif op == 'reset':
        ts.set_step(0)
        ref.times = [ref.t0]
    return ts

VOPS = ['advance', 'half', 'double', 'rehalf', 'redouble', 'state', 'same',
        'bad', 'reset']

def run_vsteppers(group, acc):
    from sfepy.solvers.ts import VariableTimeStepper
    _, depth, first = group
    for num in range(depth):
        for seq in itertools.product(VOPS, repeat=num):
            seq = (first,) + seq
            with acc.case(list(seq)):
                ref = RefVTS(1.0, 3.0, 0.25)
                ts = VariableTimeStepper(1.0, 3.0, dt=0.25)
                same_vts(ts, ref)
                for op in seq:
                    ts = _apply_vts(ts, ref, op)
                    same_vts(ts, ref)
                    acc.transitions += 1
                # The rest of the time interval.
                num0, t_0 = len(ref.times), ref.times[-1]
                got = [tt for _, tt in ts.iter_from_current()]
                exp = [t_0]
                while exp[-1] < 3.0:
                    exp.append(exp[-1] + ref.dt)
                require(len(got) == len(exp)
                        and nm.allclose(got, exp, rtol=0, atol=1e-12),
                        'remaining times %s, not %s', got, exp)
                require(len(ts.times) == num0 + len(got) - 1, 'times')
                acc.outcome([num0, len(got)])

def run_vuniform(group, acc):
    from sfepy.solvers.ts import VariableTimeStepper
    _, top = group
    for t0, t1 in ((0.0, 1.0), (0.0, 0.3), (1.0, 2.0), (-0.1, 0.6),
                   (0.0, 1e-5), (0.0, 7.0)):
        for num in range(1, top):
            for by in ('dt', 'n_step'):
                with acc.case([t0, t1, num, by]):
                    if by == 'dt':
                        ts = VariableTimeStepper(t0, t1, dt=(t1 - t0) / num)
                    else:
                        ts = VariableTimeStepper(t0, t1, n_step=num + 1)
                    got = [tt for _, tt in ts]
                    require(len(got) == num + 1, '%d time steps instead of'
                            ' %d, the last times %s', len(got), num + 1,
                            got[-2:])
                    require(nm.allclose(got, nm.linspace(t0, t1, num + 1),
                                        rtol=0, atol=1e-10 * (t1 - t0)),
                            'times')

# --------------------------------------------------------- scripted solver

def scripted_nls(script, log):
    from sfepy.base.base import IndexedStruct
    from sfepy.solvers.solvers import NonlinearSolver

    class Scripted(NonlinearSolver):
        """
        Pops the answers (condition, n_iter); the solution = a number of the
        call.
        """
        def __call__(self, vec_x0, conf=None, fun=None, fun_grad=None,
                     lin_solver=None, iter_hook=None, status=None):
            status = self.status if status is None else status
            cond, nit = script[self.calls] if self.calls < len(script) \
                else (0, 99)
            self.calls += 1
            status.condition = cond
            status.n_iter = nit
            log.append(('nls', float(vec_x0[0]), self.context.ts.time))
            return nm.array([self.calls * 1000.0])

    nls = object.__new__(Scripted)
    nls.calls = 0
    nls.status = IndexedStruct(n_iter=0, condition=0)
    nls.fun = lambda vec: (log.append(('fun', float(vec[0]))), vec)[1]
    nls.conf = None
    nls.name = 'scripted'
    return nls

def make_tss(kind, nls, **kwargs):
    from sfepy.base.base import Struct
    from sfepy.solvers import Solver
    conf = Struct(name='tss', kind=kind, verbose=False, **kwargs)
    tss = Solver.any_from_conf(conf, nls=nls)
    nls.context = tss
    return tss

def hooks(log, start=None):
    def init_fun(ts, vec):
        log.append(('init', ts.step, ts.time))
        if start is not None:
            ts.set_step(start)
        return vec

    def prestep_fun(ts, vec):
        log.append(('pre', ts.step, ts.time, float(vec[0])))
        return vec + 0.25

    def poststep_fun(ts, vec):
        log.append(('post', ts.step, ts.time, float(vec[0])))
        return vec + 0.5
    return init_fun, prestep_fun, poststep_fun

def same_log(log, exp):
    require([ll[0] for ll in log] == [ee[0] for ee in exp],
            'sequence of calls %s, not %s', [ll[0] for ll in log],
            [ee[0] for ee in exp])
    for ii, (ll, ee) in enumerate(zip(log, exp)):
        require(len(ll) == len(ee)
                and nm.allclose(ll[1:], ee[1:], rtol=0, atol=1e-10),
                'call %d: %s, expected %s', ii, ll, ee)

def run_protocol(group, acc):
    for quasi in (False, True):
        for nn in (1, 2, 3, 5):
            for start in [None] + list(range(1, nn)):
                with acc.case(['simple', quasi, nn, start]):
                    log = []
                    nls = scripted_nls([], log)
                    tss = make_tss('ts.simple', nls, t0=1.0, t1=2.0,
                                   n_step=nn, quasistatic=quasi)
                    out = tss(nm.array([5.0]),
                              **dict(zip(('init_fun', 'prestep_fun',
                                          'poststep_fun'),
                                         hooks(log, start))))
                    times = nm.linspace(1.0, 2.0, nn)
                    if nn == 1:
                        times = [1.0]
                    exp = [('init', 0, 1.0)]
                    val, calls = 5.0, 0
                    steps = list(range(start or 0, nn))
                    if nn == 1:
                        # A single step: nothing but the initial conditions.
                        steps = [0]
                    for step in steps:
                        exp.append(('pre', step, times[step], val))
                        val += 0.25
                        if step == 0 and not quasi:
                            exp.append(('fun', val))
                        else:
                            exp.append(('nls', val, times[step]))
                            calls += 1
                            val = calls * 1000.0
                        exp.append(('post', step, times[step], val))
                        val += 0.5
                    if nn > 1:
                        same_log(log, exp)
                        require(abs(out[0] - val) < 1e-12,
                                'returned %s, not %s', out, val)
                        acc.outcome(exp)
                    else:
                        same_log(log[:len(exp)], exp)
    with acc.case(['stationary']):
        log = []
        nls = scripted_nls([], log)
        tss = make_tss('ts.stationary', nls)
        out = tss(nm.array([5.0]), **dict(zip(('init_fun', 'prestep_fun',
                                               'poststep_fun'), hooks(log))))
        same_log(log, [('init', 0, 0.0), ('pre', 0, 0.0, 5.0),
                       ('nls', 5.25, 0.0), ('post', 0, 0.0, 1000.0)])
        require(out[0] == 1000.5, 'returned %s', out)

def run_adaptive(group, acc):
    """
    All scripts of nonlinear solver answers.
    """
    _, length, ifirst = group
    answers = [(0, 1), (0, 50), (1, 3)]
    pars = [
        dict(dt_red_factor=0.5, dt_red_max=0.2, dt_inc_factor=2.0,
             dt_inc_on_iter=4, dt_inc_wait=1),
        dict(dt_red_factor=0.2, dt_red_max=1e-3, dt_inc_factor=1.25,
             dt_inc_on_iter=4, dt_inc_wait=0),
        dict(dt_red_factor=0.5, dt_red_max=0.3, dt_inc_factor=1.5,
             dt_inc_on_iter=4, dt_inc_wait=2),
    ]
    for ip, par in enumerate(pars):
        for rest in itertools.product(range(3), repeat=length - 1):
            idx = (ifirst,) + rest
            script = [answers[ii] for ii in idx]
            for quasi in (False, True):
                with acc.case([ip, list(idx), quasi]):
                    _one_adaptive(acc, script, par, quasi)

def _one_adaptive(acc, script, par, quasi):
    log = []
    nls = scripted_nls(script, log)
    tss = make_tss('ts.adaptive', nls, t0=1.0, t1=2.0, n_step=4,
                   quasistatic=quasi, **par)
    out = tss(nm.array([5.0]), **dict(zip(('init_fun', 'prestep_fun',
                                           'poststep_fun'), hooks(log))))
    # The reference.
    dt0 = dt = 1.0 / 3.0
    red, wait, calls = 1.0, 0, 0
    exp = [('init', 0, 1.0), ('pre', 0, 1.0, 5.0)]
    val = 5.25
    if quasi:
        exp.append(('nls', val, 1.0))
        calls, val = 1, 1000.0
    else:
        exp.append(('fun', val))
    exp.append(('post', 0, 1.0, val))
    val += 0.5
    times = [1.0]
    while times[-1] < 2.0 - 1e-10:
        prev = times[-1]
        time = prev + dt
        step = len(times)
        exp.append(('pre', step, time, val))
        val += 0.25
        while 1:
            exp.append(('nls', val, time))
            cond, nit = script[calls] if calls < len(script) else (0, 99)
            calls += 1
            if cond == 0:
                if nit < par['dt_inc_on_iter']:
                    wait += 1
                    if wait > par['dt_inc_wait']:
                        if red < 1.0:
                            red *= par['dt_inc_factor']
                            dt = dt0 * red
                        wait = 0
                else:
                    wait = 0
                break
            red *= par['dt_red_factor']
            if red < par['dt_red_max']:
                break
            dt = dt0 * red
            time = prev + dt
            wait = 0
            exp.append(('pre', step, time, val))
            val += 0.25
        val = calls * 1000.0
        times.append(time)
        exp.append(('post', step, time, val))
        val += 0.5
    same_log(log, exp)
    require(abs(out[0] - val) < 1e-12, 'returned %s, not %s', out, val)
    require(nm.allclose(tss.ts.times, times, rtol=0, atol=1e-10), 'times')
    acc.outcome([nm.round(times, 9).tolist()])

# ---------------------------------------------------------- elastodynamics

MM = nm.array([[2.0, 0.3], [0.3, 1.5]])
CC = nm.array([[0.4, -0.1], [-0.1, 0.3]])
KK = nm.array([[30.0, -8.0], [-8.0, 20.0]])
KE = nm.array([[1.0, 0.5, -2.0], [0.5, 3.0, 4.0]])
FF = nm.array([3.0, -2.0])

class System:
    """
    M a + C v + K u + nl * u^3 = f(t), optionally with a coupled scalar.
    """
    def __init__(self, damped=True, nl=0.0, extra=False, load=True):
        self.cc = CC if damped else 0.0 * CC
        self.nl, self.extra, self.is_load = nl, extra, load
        self.ts = None
        self.ne = 1 if extra else 0

    def load(self, time):
        return FF * nm.cos(3.0 * time) if self.is_load else 0.0 * FF

    def split(self, vec):
        ne = self.ne
        return vec[:2], vec[2:2+ne], vec[2+ne:4+ne], vec[4+ne:6+ne]

    def fun(self, vec):
        uu, ee, vv, aa = self.split(vec)
        ru = KK @ uu + self.nl * uu**3 - self.load(self.ts.time)
        re = nm.zeros(0)
        if self.extra:
            ru = ru + 0.7 * ee[0] * nm.array([1.0, -1.0])
            re = nm.array([2.0 * ee[0] - 0.6 * uu[0] + 0.2 * uu[1]])
        return nm.r_[ru, re, self.cc @ vv, MM @ aa]

    def fun_grad(self, vec):
        import scipy.sparse as sp
        ne = self.ne
        nn = 6 + ne
        out = nm.zeros((nn, nn))
        out[:2, :2] = KK
        if vec is not None and self.nl:
            out[:2, :2] += nm.diag(3 * self.nl * vec[:2]**2)
        if self.extra:
            out[:2, 2] = 0.7 * nm.array([1.0, -1.0])
            out[2, 2] = 2.0
            out[2, :2] = [-0.6, 0.2]
        out[2+ne:4+ne, 2+ne:4+ne] = self.cc
        out[4+ne:, 4+ne:] = MM
        return sp.csr_array(out)

    def accel(self, time, coefs):
        """
        Solve M am + C vm + K um + nl um^3 + ... = f(time) for a, with um, vm,
        am = p + q * a. coefs = (pu, qu, pv, qv, pa, qa).
        """
        pu, qu, pv, qv, pa, qa = coefs
        aa = nm.zeros(2)
        for _ in range(60):
            um, vm, am = pu + qu * aa, pv + qv * aa, pa + qa * aa
            res = (MM @ am + self.cc @ vm + KK @ um + self.nl * um**3
                   - self.load(time))
            kk = KK + nm.diag(3 * self.nl * um**2)
            if self.extra:
                dd = nm.array([1.0, -1.0])
                ww = nm.array([0.6, -0.2]) / 2.0
                res = res + 0.7 * dd * (ww @ um)
                kk = kk + 0.7 * nm.outer(dd, ww)
            jac = qa * MM + qv * self.cc + qu * kk
            da = nm.linalg.solve(jac, res)
            aa = aa - da
            if nm.abs(da).max() < 1e-14 * max(1, nm.abs(aa).max()):
                break
        return aa

    def e_of(self, uu):
        if not self.extra:
            return nm.zeros(0)
        return nm.array([(0.6 * uu[0] - 0.2 * uu[1]) / 2.0])

def ref_step(kind, pars, ss, time, dt, q0):
    """
    A step from time - dt to time.
    """
    u0, v0, a0 = q0
    dt2 = dt * dt
    if kind == 'ts.velocity_verlet':
        vm = v0 + 0.5 * dt * a0
        u1 = u0 + dt * vm
        a1 = ss.accel(time, (u1, 0.0, vm, 0.0, nm.zeros(2), 1.0))
        return u1, vm + 0.5 * dt * a1, a1
    if kind == 'ts.central_difference':
        kind, pars = 'ts.newmark', {'beta': 0.0, 'gamma': 0.5}
    if kind == 'ts.newmark':
        be, ga = pars['beta'], pars['gamma']
        pu = u0 + dt * v0 + (0.5 - be) * dt2 * a0
        pv = v0 + (1 - ga) * dt * a0
        a1 = ss.accel(time, (pu, be * dt2, pv, ga * dt, nm.zeros(2), 1.0))
        return pu + be * dt2 * a1, pv + ga * dt * a1, a1
    if kind == 'ts.generalized_alpha':
        rho = pars['rho_inf']
        am = pars.get('alpha_m')
        af = pars.get('alpha_f')
        am = (2 * rho - 1) / (rho + 1) if am is None else am
        af = rho / (rho + 1) if af is None else af
        be = 0.25 * (1 - am + af)**2
        ga = 0.5 - am + af
        pu = u0 + dt * v0 + (0.5 - be) * dt2 * a0
        pv = v0 + (1 - ga) * dt * a0
        a1 = ss.accel(time - af * dt,
                      ((1 - af) * pu + af * u0, (1 - af) * be * dt2,
                       (1 - af) * pv + af * v0, (1 - af) * ga * dt,
                       am * a0, 1 - am))
        return pu + be * dt2 * a1, pv + ga * dt * a1, a1
    if kind == 'ts.bathe':
        hh = 0.5 * dt
        # Trapezoidal rule to t + dt/2.
        pu = u0 + hh * v0 + 0.25 * hh**2 * a0
        pv = v0 + 0.5 * hh * a0
        am = ss.accel(time - hh, (pu, 0.25 * hh**2, pv, 0.5 * hh,
                                  nm.zeros(2), 1.0))
        um, vm = pu + 0.25 * hh**2 * am, pv + 0.5 * hh * am
        # v1 = (u0 - 4 um + 3 u1) / dt etc. -> in terms of a1.
        # u1 = (dt v1 - u0 + 4 um) / 3, v1 = (dt a1 - v0 + 4 vm) / 3.
        pv = (4 * vm - v0) / 3.0
        pu = (dt * pv + 4 * um - u0) / 3.0
        a1 = ss.accel(time, (pu, dt2 / 9.0, pv, dt / 3.0, nm.zeros(2), 1.0))
        return pu + dt2 / 9.0 * a1, pv + dt / 3.0 * a1, a1
    raise KeyError(kind)

def make_ed(kind, ss, tsc=None, is_linear=True, presolve=False, **kwargs):
    from sfepy.base.base import Struct, IndexedStruct
    from sfepy.discrete.common.dof_info import DofInfo
    from sfepy.solvers import Solver
    ls = Solver.any_from_conf(Struct(name='ls', kind='ls.scipy_direct',
                                     verbose=False, use_presolve=presolve,
                                     use_mtx_digest=False))
    nls = Solver.any_from_conf(
        Struct(name='nls', kind='nls.newton', i_max=30, eps_a=1e-12,
               eps_r=1e-15, verbose=False, is_linear=False),
        fun=ss.fun, fun_grad=ss.fun_grad, lin_solver=ls,
        status=IndexedStruct())
    names = {'u': 'u', 'du': 'v', 'ddu': 'a'}
    conf = Struct(name='tss', kind=kind, verbose=False, is_linear=is_linear,
                  var_names=names, **kwargs)
    tss = Solver.any_from_conf(conf, nls=nls, tsc=tsc)
    di = DofInfo('di')
    di.append_raw('u', 2)
    if ss.extra:
        di.append_raw('e', 1)
    di.append_raw('v', 2)
    di.append_raw('a', 2)
    tss.set_dof_info(di)
    ss.ts = tss.ts
    return tss

ED_KINDS = [
    ('ts.velocity_verlet', {}), ('ts.central_difference', {}),
    ('ts.newmark', {'beta': 0.25, 'gamma': 0.5}),
    ('ts.newmark', {'beta': 0.3, 'gamma': 0.6}),
    ('ts.newmark', {'beta': 0.0, 'gamma': 0.5}),
    ('ts.generalized_alpha', {'rho_inf': 0.5}),
    ('ts.generalized_alpha', {'rho_inf': 0.9}),
    ('ts.generalized_alpha', {'rho_inf': 0.5, 'alpha_m': 0.0,
                              'alpha_f': 0.3}),
    ('ts.bathe', {}),
]

def _initial(ss):
    u0, v0 = nm.array([0.1, -0.2]), nm.array([1.0, 0.5])
    a0 = nm.linalg.solve(MM, ss.load(0.0) - ss.cc @ v0 - KK @ u0
                         - ss.nl * u0**3)
    return u0, v0, a0

def _run_ed(tss, ss, log):
    u0, v0, _ = _initial(ss)
    vec0 = nm.r_[u0, nm.zeros(ss.ne), v0, nm.zeros(2)]
    def init_fun(ts, vec):
        return vec
    def pre(ts, vec):
        log.append(('pre', ts.step, ts.time, vec.copy()))
        return vec
    def post(ts, vec):
        log.append(('post', ts.step, ts.time, vec.copy()))
        return vec
    return tss(vec0, init_fun=init_fun, prestep_fun=pre, poststep_fun=post)

def _close(aa, bb, tol=1e-8):
    aa, bb = nm.asarray(aa), nm.asarray(bb)
    return nm.abs(aa - bb).max() <= tol * max(1.0, nm.abs(bb).max())

def _compare_ed(ss, kind, pars, out, log, seq, tol=1e-7):
    """
    seq: the list of (time, dt) of the accepted steps.
    """
    posts = [ll for ll in log if ll[0] == 'post']
    require(len(posts) == len(seq) + 1, '%d steps made instead of %d (%s)',
            len(posts), len(seq) + 1, [pp[2] for pp in posts])
    qq = _initial(ss)
    if ss.extra:
        # The initial acceleration uses the given extra variables.
        qq = (qq[0], qq[1], qq[2])
    _, _, v0, a0 = ss.split(posts[0][3])
    require(_close(a0, qq[2]), 'initial acceleration %s, not %s', a0, qq[2])
    for ii, (time, dt) in enumerate(seq):
        qq = ref_step(kind, pars, ss, time, dt, qq)
        pp = posts[ii + 1]
        require(pp[1] == ii + 1, 'step %d instead of %d', pp[1], ii + 1)
        require(abs(pp[2] - time) < 1e-10, 'time %r instead of %r', pp[2],
                time)
        uu, ee, vv, aa = ss.split(pp[3])
        for name, got, exp in zip('uva', (uu, vv, aa), qq):
            require(_close(got, exp, tol), '%s: %s of step %d: %s instead of'
                    ' %s', kind, name, ii + 1, got, exp)
        require(not ss.extra or _close(ee, ss.e_of(qq[0]), tol),
                'extra variable')
    require(nm.array_equal(out, posts[-1][3]),
            'the returned state is not the state of the final step')

def _ed_systems():
    for damped in (True, False):
        for nl in (0.0, 5.0):
            yield dict(damped=damped, nl=nl)

def run_ed_fixed(group, acc):
    _, ik = group
    kind, pars = ED_KINDS[ik]
    for args in list(_ed_systems()) + [dict(extra=True), dict(load=False)]:
        if args.get('extra') and kind != 'ts.newmark':
            continue
        for is_linear in (True, False):
            if is_linear and args.get('nl'):
                continue
            for presolve in (True, False):
                if presolve and not is_linear:
                    continue
                for n_step in (2, 3, 6):
                    ident = [ik, args, is_linear, presolve, n_step]
                    with acc.case(ident):
                        ss = System(**args)
                        tss = make_ed(kind, ss, is_linear=is_linear,
                                      presolve=presolve, t0=0.0, t1=0.5,
                                      n_step=n_step, **pars)
                        log = []
                        out = _run_ed(tss, ss, log)
                        dt = 0.5 / (n_step - 1)
                        seq = [((ii + 1) * dt, dt) for ii in range(n_step-1)]
                        _compare_ed(ss, kind, pars, out, log, seq)
                        require(tss.ts.time == 0.5, 'final time')
                        acc.outcome(nm.round(out, 8).tolist())

def run_ed_script(group, acc):
    """
    Scripts of the step controller: (accept/reject, dt factor).
    """
    _, ik, length = group
    from sfepy.base.base import Struct
    from sfepy.solvers.solvers import TimeStepController
    kind, pars = ED_KINDS[ik]

    answers = [('accept', 1.0), ('accept', 1.5), ('reject', 0.5)]

    class ScriptTSC(TimeStepController):
        name = 'tsc.script_c05_%d' % ik

        def __init__(self, script):
            self.script = list(script)
            self.calls = []

        def get_initial_dt(self, ts, vec, **kwargs):
            return 0.08

        def __call__(self, ts, vec0, vec1, **kwargs):
            ii = len(self.calls)
            res, fac = (self.script[ii] if ii < len(self.script)
                        else ('accept', 1.0))
            self.calls.append((ts.time, ts.dt, vec0.copy(), vec1.copy()))
            return fac * ts.dt, Struct(result=res)

    for idx in itertools.product(range(3), repeat=length):
        script = [answers[ii] for ii in idx]
        for args, is_linear in ((dict(), True), (dict(nl=5.0), False),
                                (dict(extra=True), True)):
            if args.get('extra') and kind != 'ts.newmark':
                continue
            for presolve in ((True, False) if is_linear else (False,)):
                with acc.case([ik, list(idx), args, presolve]):
                    ss = System(**args)
                    tsc = ScriptTSC(script)
                    tss = make_ed(kind, ss, tsc=tsc, is_linear=is_linear,
                                  presolve=presolve, t0=0.0, t1=0.4,
                                  n_step=5, **pars)
                    log = []
                    out = _run_ed(tss, ss, log)
                    # The reference.
                    dt, time, seq, ic = 0.08, 0.0, [], 0
                    while time < 0.4 - 1e-12:
                        new = time + dt
                        while 1:
                            res, fac = (script[ic] if ic < len(script)
                                        else ('accept', 1.0))
                            tt = tsc.calls[ic]
                            require(abs(tt[0] - new) < 1e-10
                                    and abs(tt[1] - dt) < 1e-10,
                                    'controller called at %s, not %s',
                                    tt[:2], (new, dt))
                            ic += 1
                            if res == 'accept':
                                seq.append((new, dt))
                                dt *= fac
                                break
                            dt *= fac
                            new = time + dt
                        time = new
                    require(len(tsc.calls) == ic, 'calls of the controller')
                    _compare_ed(ss, kind, pars, out, log, seq)
                    acc.outcome([round(tt, 9) for tt, _ in seq])

def run_ed_tsc(group, acc):
    """
    The library's controllers: rejected steps leave no trace, the limits of
    the step size changes are obeyed.
    """
    from sfepy.base.base import Struct
    from sfepy.solvers import Solver
    _, ik = group
    kind, pars = ED_KINDS[ik]
    opts = []
    for eps in (1e-1, 1e-2):
        for fmin, fmax in ((0.3, 2.5), (0.6, 1.2)):
            for guess in (False, True):
                base = dict(eps_r=(eps, eps), eps_a=(eps, eps), fmin=fmin,
                            fmax=fmax, guess_dt0=guess, fsafety=0.8,
                            error_order=2)
                opts.append(('tsc.ed_basic', base))
                for wait in (0, 2):
                    opts.append(('tsc.ed_linear',
                                 dict(base, fred=0.9, inc_wait=wait,
                                      min_finc=1.1)))
                opts.append(('tsc.ed_pid', dict(base, pcoef=0.0, icoef=1.0,
                                                dcoef=0.0)))
                opts.append(('tsc.ed_pid', dict(base, pcoef=0.2, icoef=0.6,
                                                dcoef=0.1)))
    for name, par in opts:
        for args, is_linear in ((dict(), True), (dict(nl=5.0), False)):
            with acc.case([ik, name, repr(sorted(par.items())), args]):
                ss = System(**args)
                tsc = Solver.any_from_conf(Struct(name='tsc', kind=name,
                                                  verbose=False, **par))
                calls = []
                cls = type(tsc)
                class Spy(cls):
                    def __call__(self, ts, vec0, vec1, **kwargs):
                        new_dt, status = cls.__call__(self, ts, vec0, vec1,
                                                      **kwargs)
                        calls.append((ts.time, ts.dt, new_dt, status.result,
                                      status.emax))
                        require(len(calls) < 4000, 'too many steps')
                        return new_dt, status
                tsc.__class__ = Spy
                tss = make_ed(kind, ss, tsc=tsc, is_linear=is_linear,
                              t0=0.0, t1=0.5, n_step=11, **pars)
                log = []
                out = _run_ed(tss, ss, log)
                seq = []
                count = 0
                for time, dt, new, res, emax in calls:
                    if res == 'accept':
                        require(emax <= 1.0, 'accepted with error %s', emax)
                        require(new <= dt * par['fmax'] * (1 + 1e-12),
                                'dt increased too much: %s -> %s', dt, new)
                        seq.append((time, dt))
                    else:
                        require(emax > 1.0, 'rejected with error %s', emax)
                        low = par['fmin'] * par.get('fred', 1.0)
                        require(dt * low * (1 - 1e-12) <= new < dt,
                                'dt after a rejection: %s -> %s', dt, new)
                    if name == 'tsc.ed_linear':
                        if res == 'reject':
                            count = 0
                        elif new > dt:
                            require(count >= par['inc_wait'],
                                    'dt increased after %d steps', count)
                            require(new / dt >= par['min_finc'] - 1e-12,
                                    'dt increased by %s', new / dt)
                            count = 0
                        else:
                            require(new == dt, 'accepted dt decreased')
                            count += 1
                _compare_ed(ss, kind, pars, out, log, seq)
                require(seq[-1][0] >= 0.5 - 1e-12, 'stopped at %s', seq[-1])
                acc.outcome([name, len(calls), len(seq)])
    for times in ([0.1, 0.2, 0.5], [0.05, 0.3, 0.31, 0.5], [0.2, 0.4, 0.6]):
        with acc.case([ik, 'tsc.time_sequence', times]):
            ss = System()
            tsc = Solver.any_from_conf(Struct(name='tsc', verbose=False,
                                              kind='tsc.time_sequence',
                                              times=times))
            tss = make_ed(kind, ss, tsc=tsc, t0=0.0, t1=times[-1], n_step=11,
                          **pars)
            log = []
            out = _run_ed(tss, ss, log)
            seq = list(zip(times, nm.diff([0.0] + times)))
            _compare_ed(ss, kind, pars, out, log, seq)

def groups(tier):
    deep = tier == 'thorough'
    out = []
    for ic in range(len(TS_CONFS)):
        out.append(['steppers', 5 if deep else 4, ic])
    for op in VOPS:
        out.append(['vsteppers', 6 if deep else 5, op])
    out.append(['vuniform', 400 if deep else 120])
    out.append(['protocol'])
    for ii in range(3):
        out.append(['adaptive', 9 if deep else 6, ii])
    for ik in range(len(ED_KINDS)):
        out.append(['ed_fixed', ik])
        out.append(['ed_script', ik, 6 if deep else 4])
        out.append(['ed_tsc', ik])
    return out[::-1]

def run(group, acc):
    globals()['run_' + group[0]](group, acc)
