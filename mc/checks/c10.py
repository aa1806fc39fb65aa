"""
C10: the nonlinear solvers follow the Newton iteration and tell the truth about
its result.
"""
import itertools

import numpy as nm
import scipy.sparse as sps

from mc.choices import Stop, all_runs
from mc.core import require

PID = 'C10'
LEVEL = 'model_checking'
RULE = ('a case = a solver configuration and a complete script of answers of'
        ' the residual function and the linear solver; distinct by'
        ' configuration and script')
ASSUMPTIONS = [
    'the residual answers come from a finite alphabet of norms, including'
    ' exact zero, the tolerance boundary, a failure and a nan',
    'the reference is an independent automaton of the damped Newton iteration',
]
BOUNDS = {
    'quick': 'all answer scripts of up to 5 residual evaluations x'
             ' configurations; 2D/3D LCPs with small integer data',
    'thorough': 'all answer scripts of up to 6 residual evaluations',
}
LIMIT = 800

NORMS = [4.0, 0.0, 1.0, 1.5, 40.0, 'E', 'N', 0.25]

class LinSolver:
    """
    The solutions are distinct known vectors.
    """
    def __init__(self, log, tol=(None, None), choose=None):
        self.log = log
        self.tol = tol
        self.num = 0
        self.mtx = None
        self.choose = choose

    def get_tolerance(self):
        return self.tol

    def __call__(self, rhs, x0=None, conf=None, eps_a=None, eps_r=None,
                 i_max=None, mtx=None, status=None, context=None, **kwargs):
        kind = 'new' if mtx is not None else 'old'
        size = None
        if (kind == 'old') and (self.choose is not None):
            # The size of a simplified correction.
            size = [0.5, 2.0][self.choose(2)]
        self.num += 1
        self.log.append(('lin', kind, vkey(rhs), vkey(x0), eps_a, eps_r,
                         mkey(mtx if mtx is not None else self.mtx), size))
        status['n_iter'] = self.num
        if size is not None:
            return size * self.last / nm.linalg.norm(self.last)
        out = step_vec(self.num)
        if self.choose is not None:
            out /= nm.linalg.norm(out)
        self.last = out.copy()
        return out

def step_vec(num):
    return nm.array([2.0**num, -1.0, num], dtype=nm.float64)

def vkey(vec):
    return tuple(nm.round(vec, 12)) if vec is not None else None

def mkey(mtx):
    return None if mtx is None else float(mtx[0, 0])

class Model:
    """
    The reference automaton; replays the recorded answers.
    """
    def __init__(self, conf, answers, tol):
        self.conf = conf
        self.answers = iter(answers)
        self.tol = tol
        self.log = []

    def answer(self):
        try:
            return next(self.answers)
        except StopIteration:
            raise Stop

    def run(self, x0):
        c = self.conf
        log = self.log
        x_last, r_last, dx = x0, 0.0, None
        err_last = err = err0 = -1.0
        it = it_jac = nlin = ngrad = 0
        mtx = None
        ls_n_iter = 0
        while 1:
            log.append(('hook', it, vkey(x_last if it == 0 else x),
                        err, err0))
            scale = 1.0
            ok = True
            while 1:
                x = x_last if it == 0 else x_last - scale * dx
                log.append(('fun', vkey(x)))
                ans = self.answer()
                if ans == 'E':
                    if it == 0 or scale < c['ls_min']:
                        return 'ValueError'
                    if c['give_up_warp']:
                        ok, x, r, err = False, x_last, r_last, err_last
                        break
                    red = c['ls_red_warp']
                elif ans == 'N':
                    return 'ValueError'
                else:
                    r = nm.array([ans, 0.0, 0.0])
                    err = ans
                    if it == 0:
                        break
                    if c['ls_mode'] == 'residual':
                        if err < err_last * c['ls_on']:
                            break
                    else:
                        # Simplified Newton correction with the last matrix.
                        ea, er = self.tols(self.err_prev)
                        size = self.answer()
                        log.append(('lin', 'old', vkey(r),
                                    vkey(self.x_prev), ea, er, mtx, size))
                        nlin += 1
                        if size < nm.linalg.norm(dx) * c['ls_on']:
                            break
                    red = c['ls_red']
                if scale < c['ls_min']:
                    break
                scale *= red

            self.err_prev, self.x_prev = err, x
            if it == 0:
                err0 = err
            rel = 0.0 if err0 < 1e-15 else err / err0
            conv_a = err <= c['eps_a']
            conv_r = (it > 0) and (rel <= c['eps_r'])
            if it == 0:
                conv = conv_a
            elif c['eps_mode'] == 'and':
                conv = conv_a and conv_r
            else:
                conv = conv_a or conv_r
            if conv:
                cond = 0
                break
            if it >= c['i_max']:
                cond = 1
                break
            if not ok:
                cond = 2
                break

            if c['is_linear']:
                ngrad += 1
                mtx = float(ngrad)
                log.append(('grad', 'linear'))
            else:
                new = True
                if c['jac'] is not None:
                    log.append(('isnew', it, it_jac, vkey(r),
                                None if it == 0 else vkey(r_last),
                                vkey(x), vkey(x_last)))
                    new = (it % c['jac'] == 0) if c['jac'] else False
                if new or mtx is None:
                    ngrad += 1
                    mtx = float(ngrad)
                    log.append(('grad', vkey(x)))
                    it_jac = it
            nlin += 1
            ea, er = self.tols(err)
            log.append(('lin', 'new', vkey(r), vkey(x), ea, er, mtx, None))
            ls_n_iter += nlin
            dx = step_vec(nlin)
            if c['ls_mode'] == 'error':
                dx = dx / nm.linalg.norm(dx)
            dx = dx * c['step_red']
            it += 1
            err_last, x_last, r_last = err, x, r

        self.x = x
        return {'condition': cond, 'err': err, 'err0': err0, 'n_iter': it,
                'ls_n_iter': ls_n_iter}

    def tols(self, err):
        ta, tr = self.tol
        ea = 1.0 if ta is None else ta
        er = 1.0 if tr is None else tr
        prec = self.conf['lin_precision']
        if prec is not None:
            if ta is not None:
                ea = max(err * prec, ta)
            elif tr is not None:
                er = max(prec, tr)
        return ea, er

BASE = dict(i_max=3, eps_a=1.0, eps_r=0.3, eps_mode='and', step_red=1.0,
            ls_mode='residual', ls_on=0.9, ls_red=0.5, ls_red_warp=0.25,
            ls_min=0.4, give_up_warp=False, is_linear=False, jac=None,
            lin_red=1.0, lin_precision=None)

VARIANTS = {
    'base': {},
    'or': {'eps_mode': 'or', 'eps_r': 0.1},
    'loose_r': {'eps_r': 1.0, 'i_max': 2},
    'imax0': {'i_max': 0},
    'imax1': {'i_max': 1},
    'step_red': {'step_red': 0.5},
    'giveup': {'give_up_warp': True},
    'ls_min': {'ls_min': 0.2},
    'ls_off': {'ls_on': 1e100},
    'linear': {'is_linear': True},
    'jac2': {'jac': 2, 'ls_on': 1e100},
    'jac0': {'jac': 0, 'ls_on': 1e100, 'i_max': 4},
    'tola': {'tol': (1e-3, None), 'lin_precision': 0.01},
    'tolr': {'tol': (None, 1e-3), 'lin_precision': 0.01, 'lin_red': None},
    'tolar': {'tol': (1e-4, 1e-3)},
    'error': {'ls_mode': 'error'},
    'error2': {'ls_mode': 'error', 'give_up_warp': True, 'eps_mode': 'or',
               'tol': (1e-3, None), 'lin_precision': 0.01},
}

def groups(tier):
    limit = 5 if tier == 'quick' else 6
    out = []
    for name in VARIANTS:
        for ii in range(len(NORMS)):
            out.append(['newton', name, ii, limit])
    out.append(['real', tier])
    out.append(['scale', tier])
    out.append(['root', tier])
    for ii in range(4):
        out.append(['lcp', ii, tier])
    return out

def run(group, acc):
    globals()['run_' + group[0]](group, acc)

def make_newton(conf, **kwargs):
    from sfepy.solvers.nls import Newton
    return Newton(conf, **kwargs)

def run_newton(group, acc):
    _, name, first, limit = group
    c = dict(BASE)
    c.update(VARIANTS[name])
    tol = c.pop('tol', (None, None))
    if c['ls_mode'] == 'error':
        limit += 1

    for chooser in all_runs(limit):
        if not chooser.prefix:
            chooser.prefix = [first]
        elif chooser.prefix[0] != first:
            break
        run_script(name, c, tol, chooser, acc)
        if not chooser.made:
            break

def run_script(name, c, tol, chooser, acc):
    log = []
    answers = []
    state = {'grad': 0}
    mtx0 = sps.csr_array(nm.eye(3))

    def fun(vec):
        log.append(('fun', vkey(vec)))
        ans = NORMS[chooser(len(NORMS))]
        answers.append(ans)
        if ans == 'E':
            raise ValueError('warp violation')
        if ans == 'N':
            return nm.array([nm.nan, 0.0, 0.0])
        return nm.array([ans, 0.0, 0.0])

    def fun_grad(vec):
        state['grad'] += 1
        log.append(('grad', 'linear' if isinstance(vec, str) else vkey(vec)))
        return mtx0 * float(state['grad'])

    def choose_size(num):
        ii = chooser(num)
        answers.append([0.5, 2.0][ii])
        return ii

    def hook(context, nls, vec_x, it, err, err0):
        log.append(('hook', it, vkey(vec_x), err, err0))

    def isnew(it, it_jac, rhs1, rhs0, x1, x0, context=None):
        log.append(('isnew', it, it_jac, vkey(rhs1),
                    None if it == 0 else vkey(rhs0), vkey(x1), vkey(x0)))
        return (it % c['jac'] == 0) if c['jac'] else False

    conf = {key: val for key, val in c.items() if key != 'jac'}
    if c['jac'] is not None:
        conf['is_new_jacobian_fun'] = isnew

    ls = LinSolver(log, tol, choose_size if c['ls_mode'] == 'error' else None)
    status = {}
    nls = make_newton(conf, fun=fun, fun_grad=fun_grad, lin_solver=ls,
                      iter_hook=hook, status=status)
    x0 = nm.array([1.0, 2.0, 3.0])
    x00 = x0.copy()
    try:
        vec = nls(x0)
        res = 'ok'
    except Stop:
        res = 'stop'
    except ValueError:
        res = 'ValueError'

    ident = [name, answers]
    with acc.case(repr(ident), sample=res):
        acc.transitions += len(log)
        acc.states += 1
        require((x0 == x00).all(), 'the initial guess was changed')
        model = Model(c, answers, tol)
        try:
            expected = model.run(x00)
        except Stop:
            expected = 'stop'
        for ii, (aa, bb) in enumerate(zip(log, model.log)):
            require(same(aa, bb), 'event %d: %s, should be %s; log %s',
                    ii, aa, bb, log)
        require(len(log) == len(model.log), 'log %s, should be %s', log,
                model.log)
        if isinstance(expected, str):
            require(res == expected, 'result %s, should be %s', res, expected)
        else:
            require(res == 'ok', 'result %s, should be %s', res, expected)
            for key, val in expected.items():
                require(status[key] == val, 'status %s: %s, should be %s; %s',
                        key, status[key], val, log)
            require(vkey(vec) == vkey(model.x), 'solution %s, should be %s',
                    vec, model.x)
            acc.traces += 1
        acc.outcome((res, len(log),
                     status.get('condition'), status.get('n_iter')))

def same(aa, bb):
    if (len(aa) != len(bb)) or (aa[0] != bb[0]):
        return False
    for xx, yy in zip(aa, bb):
        if isinstance(xx, str) or isinstance(yy, str) or xx is None \
           or yy is None:
            if not (type(xx) is type(yy) and xx == yy):
                return False
        elif not nm.allclose(xx, yy, rtol=1e-12, atol=1e-12, equal_nan=True):
            return False
    return True

def run_real(group, acc):
    """
    Linear systems in one iteration, quadratic ones with the real linear
    solver; the status is compared with the recomputed residuals.
    """
    from sfepy.solvers.ls import ScipyDirect

    vals = [-1.0, 0.0, 1.0, 2.0]
    for aa in itertools.product(vals, repeat=4):
        mtx = nm.array(aa).reshape((2, 2))
        if abs(nm.linalg.det(mtx)) < 0.5:
            continue
        for rhs in ([1.0, 2.0], [0.0, 0.0], [-3.0, 1.0]):
            with acc.case(repr(['lin', aa, rhs])):
                rhs = nm.array(rhs)
                status = {}
                nls = make_newton({'i_max': 1, 'eps_a': 1e-10},
                                  fun=lambda x: mtx @ x - rhs,
                                  fun_grad=lambda x: sps.csr_array(mtx),
                                  lin_solver=ScipyDirect({}), status=status)
                x0 = nm.array([0.5, -0.5])
                vec = nls(x0)
                r0 = nm.linalg.norm(mtx @ x0 - rhs)
                require(status['condition'] == 0, 'condition %s',
                        status['condition'])
                require(status['n_iter'] == (1 if r0 > 1e-10 else 0),
                        'iterations %s', status['n_iter'])
                require(nm.allclose(vec, nm.linalg.solve(mtx, rhs),
                                    atol=1e-12), 'solution %s', vec)
                acc.outcome(tuple(nm.round(vec, 6)))

    # x_i^2 + a x_i x_j = c_i
    for cc in itertools.product([1.0, 2.0, 9.0], repeat=2):
        for aa in (0.0, 0.5, -0.5):
            for xx in itertools.product([0.5, 1.0, 3.0, -2.0], repeat=2):
                for i_max in (0, 1, 2, 3, 20):
                    for eps_mode in ('and', 'or'):
                        with acc.case(repr(['quad', cc, aa, xx, i_max,
                                            eps_mode])):
                            check_quad(nm.array(cc), aa, nm.array(xx), i_max,
                                       eps_mode, acc)

def check_quad(cc, aa, x0, i_max, eps_mode, acc):
    from sfepy.solvers.ls import ScipyDirect

    def fun(x):
        return x * x + aa * x[0] * x[1] - cc

    def grad(x):
        return sps.csr_array(nm.array([
            [2 * x[0] + aa * x[1], aa * x[0]],
            [aa * x[1], 2 * x[1] + aa * x[0]]]))

    status = {}
    nls = make_newton({'i_max': i_max, 'eps_a': 1e-6, 'eps_r': 1e-3,
                       'eps_mode': eps_mode},
                      fun=fun, fun_grad=grad, lin_solver=ScipyDirect({}),
                      status=status)
    try:
        vec = nls(x0)
    except ValueError:
        acc.outcome('error')
        return
    err, err0 = nm.linalg.norm(fun(vec)), nm.linalg.norm(fun(x0))
    require(abs(status['err'] - err) <= 1e-12 * max(1, err), 'err %s is %s',
            status['err'], err)
    require(abs(status['err0'] - err0) <= 1e-12 * max(1, err0),
            'err0 %s is %s', status['err0'], err0)
    ca = err <= 1e-6
    cr = err <= 1e-3 * err0
    if status['n_iter'] == 0:
        conv = ca
    else:
        conv = (ca and cr) if eps_mode == 'and' else (ca or cr)
    require(status['condition'] == (0 if conv else 1), 'condition %s, err %s',
            status['condition'], err)
    require(status['n_iter'] <= i_max, 'n_iter %s', status['n_iter'])
    if not conv:
        require(status['n_iter'] == i_max, 'gave up early')
    acc.outcome((status['condition'], status['n_iter']))

def run_scale(group, acc):
    """
    The scaling functions must not change the solutions.
    """
    from sfepy.solvers.ls import ScipyDirect

    for dd in itertools.product([0.5, 1.0, 4.0], repeat=2):
        for scaled_error in (False, True):
            for ls_mode in ('residual', 'error'):
                for xx in itertools.product([0.5, 1.0, 3.0], repeat=2):
                    with acc.case(repr([dd, scaled_error, ls_mode, xx])):
                        check_scale(nm.array(dd), scaled_error, ls_mode,
                                    nm.array(xx), acc)

def check_scale(dd, scaled_error, ls_mode, x0, acc):
    from sfepy.solvers.ls import ScipyDirect
    out = []
    for scaled in (False, True):
        def fun(x):
            return x * x + 0.5 * x[0] * x[1] - nm.array([2.0, 9.0])

        def grad(x):
            return sps.csr_array(nm.array([
                [2 * x[0] + 0.5 * x[1], 0.5 * x[0]],
                [0.5 * x[1], 2 * x[1] + 0.5 * x[0]]]))

        def scale_system(mtx, rhs, x0, context):
            if mtx is not None:
                mtx = sps.csr_array(nm.diag(dd) @ mtx.toarray() @ nm.diag(dd))
            return mtx, dd * rhs, x0 / dd

        def scale_solution(x, context):
            return dd * x

        conf = {'i_max': 20, 'eps_a': 1e-9, 'ls_mode': ls_mode}
        if scaled:
            conf.update({'scale_system_fun': scale_system,
                         'scale_solution_fun': scale_solution,
                         'scaled_error': scaled_error})
        status = {}
        nls = make_newton(conf, fun=fun, fun_grad=grad,
                          lin_solver=ScipyDirect({}), status=status)
        vec = nls(x0)
        out.append((vec, status))
    require(nm.allclose(out[0][0], out[1][0], atol=1e-8), 'solutions %s', out)
    require(out[0][1]['n_iter'] == out[1][1]['n_iter'], 'iterations %s', out)
    require(out[0][1]['condition'] == out[1][1]['condition'], 'conditions %s',
            out)
    acc.outcome(tuple(nm.round(out[0][0], 5)))

def run_root(group, acc):
    """
    SciPy solvers: condition is zero exactly if the solution was found.
    """
    from sfepy.solvers.nls import ScipyRoot

    for method in ('hybr', 'lm', 'broyden1', 'anderson', 'krylov'):
        for cc in itertools.product([1.0, 2.0, -4.0], repeat=2):
            for maxiter in (1, 200):
                with acc.case(repr([method, cc, maxiter])):
                    cc_ = nm.array(cc)

                    def fun(x):
                        return x * x + 0.25 * x[0] * x[1] - cc_

                    key = {'hybr': 'maxfev', 'lm': 'maxiter'}
                    options = {key.get(method, 'maxiter'): maxiter}
                    status = {}
                    nls = ScipyRoot({'method': method, 'tol': 1e-9,
                                     'options': options}, fun=fun,
                                    status=status)
                    x0 = nm.array([1.3, 1.1])
                    vec = nls(x0)
                    err = nm.linalg.norm(fun(vec))
                    require(abs(err - status['err']) <= 1e-12 * max(1, err),
                            'err %s, %s', err, status['err'])
                    if status['condition'] == 0:
                        if method != 'lm':
                            require(err < 1e-5, 'not converged: %s', err)
                    else:
                        require(err > 1e-12, 'converged: %s', err)
                    if (min(cc) > 0) and (maxiter == 200):
                        require(status['condition'] == 0,
                                'condition %s, error %s', status['condition'],
                                err)
                    acc.outcome((method, status['condition']))

def lcp_solutions(mtx, qq):
    """
    All solutions of x >= 0, y = M x + q >= 0, x y = 0.
    """
    out = []
    nn = len(qq)
    for act in itertools.product([0, 1], repeat=nn):
        ii = [ii for ii in range(nn) if act[ii]]
        x = nm.zeros(nn)
        if ii:
            sub = mtx[nm.ix_(ii, ii)]
            if abs(nm.linalg.det(sub)) < 1e-12:
                continue
            x[ii] = nm.linalg.solve(sub, -qq[ii])
        y = mtx @ x + qq
        if (x > -1e-12).all() and (y > -1e-12).all():
            out.append(x)
    return out

def run_lcp(group, acc):
    """
    min(x, y) = 0, y - M x - q = 0: the smooth variables are y.
    """
    _, part, tier = group
    from sfepy.solvers.semismooth_newton import SemismoothNewton
    from sfepy.solvers.ls import ScipyDirect

    mats = []
    for dd in itertools.product([1.0, 2.0, 3.0], repeat=2):
        for oo in (-0.5, 0.0, 0.5):
            mats.append(nm.array([[dd[0], oo], [oo, dd[1]]]))
    mats.append(nm.array([[2.0, -1, 0], [-1, 2, -1], [0, -1, 2]]))
    mats.append(nm.array([[4.0, 1, 1], [1, 3, 0], [1, 0, 2]]))
    vals = [-2.0, -1.0, 0.0, 1.0, 3.0]
    for im, mtx in enumerate(mats):
        if im % 4 != part:
            continue
        nn = mtx.shape[0]
        for qq in itertools.product(vals if nn == 2 else vals[1:],
                                    repeat=nn):
            for semismooth in (True, False):
                for x0 in (0.1, 1.0):
                    with acc.case(repr([im, qq, semismooth, x0])):
                        check_lcp(mtx, nm.array(qq), semismooth, x0, acc)

def check_lcp(mtx, qq, semismooth, x0, acc):
    from sfepy.solvers.semismooth_newton import SemismoothNewton
    from sfepy.solvers.ls import ScipyDirect

    nn = len(qq)
    eye = nm.eye(nn)
    zero = nm.zeros((nn, nn))
    mr = sps.csr_array(nm.hstack([eye, -mtx]))
    ma = sps.csr_array(nm.hstack([eye, zero]))
    mb = sps.csr_array(nm.hstack([zero, eye]))
    # Avoid numerically singular Jacobians of exactly satisfied rows.
    status = {}
    conf = {'i_max': 20, 'eps_a': 1e-8, 'eps_r': 1.0, 'macheps': 1e-16,
            'semismooth': semismooth, 'ls_on': 0.99999,
            'ls_red': {'regular': 0.1, 'steepest_descent': 0.01},
            'ls_min': 1e-4, 'lin_red': 1e-2}
    sn = SemismoothNewton(
        conf,
        fun_smooth=lambda v: v[:nn] - mtx @ v[nn:] - qq,
        fun_smooth_grad=lambda v: mr,
        fun_a=lambda v: v[:nn], fun_a_grad=lambda v: ma,
        fun_b=lambda v: v[nn:], fun_b_grad=lambda v: mb,
        lin_solver=ScipyDirect({}), status=status)
    v0 = x0 * nm.ones(2 * nn)
    v00 = v0.copy()
    vec = sn(v0)
    require((v0 == v00).all(), 'the initial guess was changed')
    y, x = vec[:nn], vec[nn:]
    rs = y - mtx @ x - qq
    rn = ((nm.sqrt(y**2 + x**2) - (x + y)) if semismooth
          else nm.minimum(x, y))
    err = nm.linalg.norm(nm.r_[rs, rn])
    require(abs(status['err'] - err) <= 1e-9 * max(err, 1), 'err %s is %s',
            status['err'], err)
    sols = lcp_solutions(mtx, qq)
    require(len(sols), 'no solution of the reference')
    if status['condition'] == 0:
        require(err <= 1e-8, 'not converged: %s', err)
        dist = min(nm.abs(x - ss).max() for ss in sols)
        require(dist < 1e-3, 'solution %s, should be %s', x, sols)
    strict = all(nm.minimum(nm.abs(ss + mtx @ ss + qq), 1).min() > 1e-8
                 for ss in sols)
    if strict:
        require(status['condition'] == 0, 'not converged: %s', err)
    acc.outcome((status['condition'], strict))
