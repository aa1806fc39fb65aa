"""
C11: linear and eigenvalue solvers solve the given problem in any history of
uses of a solver instance.
"""
import itertools

import numpy as nm
import scipy.sparse as sps

from mc.core import require, Skip

PID = 'C11'
LEVEL = 'model_checking'
RULE = ('a case = a solver with its options and a complete sequence of'
        ' operations on one instance (solve, presolve, clear, change the'
        ' matrix), or an eigenvalue problem with options; distinct by both')
ASSUMPTIONS = [
    'solvers that are not installed (PETSc, SLEPc, ...) or not working here (ls.cholesky) are not explored',
    'the reference of solutions is the residual with the current matrix',
]
BOUNDS = {
    'quick': 'all operation sequences of length 3 (4 for the fast solvers)'
             ' over 9 operations; all availability patterns of 3 solvers',
    'thorough': 'all operation sequences of length 4 (5 for the fast ones)',
}
LIMIT = 800

def dense(*rows):
    return nm.array(rows, dtype=nm.float64)

SYM = dense([4, 1, 0, 0], [1, 5, 1, 0], [0, 1, 6, 2], [0, 0, 2, 7])
# The same pattern, not symmetric.
UNS = dense([4, 1, 0, 0], [-1, 5, 2, 0], [0, 0.5, 6, 2], [0, 0, -3, 7])
# The same numbers of entries in both triangles, other positions.
TRI = dense([4, 1, 0, 0], [0, 5, 0, 2], [1, 0, 6, 0], [0, 0, 2, 7])
DIA = nm.diag([2.0, 4.0, -3.0, 5.0])
PERM = dense([0, 2, 0, 0], [1, 0, 0, 3], [0, 0, 3, 0], [0, 1, 0, 8])
NEG = dense([4, -1, 0, 0], [-1, 5, -1, 0], [0, -1, 6, -2], [0, 0, -2, 7])
CPX = SYM * (1.0 + 0.5j) + 0.25j * nm.eye(4)

SPD = {'sym': SYM, 'neg': NEG, 'pos': nm.diag([2.0, 4.0, 3.0, 5.0]) + 0.5}
ALL = {'sym': SYM, 'uns': UNS, 'tri': TRI, 'dia': DIA, 'cpx': CPX}
REAL = {'sym': SYM, 'uns': UNS, 'tri': TRI, 'neg': NEG}

SOLVERS = {
    'scipy_direct': ('ls.scipy_direct', {}, ALL, True),
    'superlu': ('ls.scipy_superlu', {}, ALL, True),
    'umfpack': ('ls.scipy_umfpack', {}, REAL, True),
    'mumps': ('ls.mumps', {}, ALL, True),
    'auto_direct': ('ls.auto_direct', {}, ALL, True),
    'pypardiso': ('ls.pypardiso', {}, REAL, 'self'),
    'cg': ('ls.scipy_iterative', {'method': 'cg'}, SPD, False),
    'bicgstab': ('ls.scipy_iterative', {'method': 'bicgstab'}, REAL, False),
    'gmres': ('ls.scipy_iterative', {'method': 'gmres'}, ALL, False),
    'qmr': ('ls.scipy_iterative', {'method': 'qmr'}, REAL, False),
    'auto_iterative': ('ls.auto_iterative', {}, SPD, False),
    'pyamg': ('ls.pyamg', {}, SPD, False),
    'pyamg_rs': ('ls.pyamg', {'method': 'ruge_stuben_solver',
                              'accel': 'cg'}, SPD, False),
    'pyamg_krylov': ('ls.pyamg_krylov', {'method': 'gmres'}, REAL, False),
}

RHS = [nm.array([1.0, 2.0, -1.0, 3.0]), nm.array([0.5, 0.0, 4.0, -2.0])]

FAST = ('superlu', 'scipy_direct', 'mumps')

def groups(tier):
    out = []
    extra = 1 if tier == 'thorough' else 0
    for name, (kind, _, mats, has) in SOLVERS.items():
        opts = [{}]
        if has is True:
            opts = [{'use_presolve': False},
                    {'use_presolve': True, 'use_mtx_digest': True},
                    {'use_presolve': True, 'use_mtx_digest': False}]
        elif has == 'self':
            opts = [{'use_presolve': False}, {'use_presolve': True}]
        for opt in opts:
            if name in FAST and opt.get('use_presolve'):
                for first in range(len(mats)):
                    out.append(['hist', name, opt, first, 4 + extra])
            else:
                for first in range(len(mats)):
                    out.append(['hist', name, opt, first, 3 + extra])
    for name in SOLVERS:
        if not SOLVERS[name][3]:
            out.append(['iter', name])
    out.append(['fallback'])
    out.append(['symmetry'])
    for name in ('superlu', 'umfpack', 'mumps', 'pypardiso', 'pyamg'):
        out.append(['inplace', name])
    for kind in ('eig', 'eigh', 'eigs', 'eigsh', 'eigls', 'sg', 'lobpcg',
                 'primme', 'qevp'):
        out.append(['eigen', kind])
    return out

def run(group, acc):
    globals()['run_' + group[0]](group, acc)

def make(kind, conf, **kwargs):
    from sfepy.solvers import Solver
    from sfepy.base.base import Struct
    return Solver.any_from_conf(Struct(name='ls', kind=kind, **conf),
                                **kwargs)

def available(kind, conf):
    try:
        make(kind, conf)
    except Exception as exc:
        return repr(exc)[:100]
    return True

REQUIRED = ['scipy_direct', 'superlu', 'umfpack', 'mumps', 'auto_direct',
            'cg', 'bicgstab', 'gmres', 'qmr', 'auto_iterative', 'pyamg',
            'pyamg_rs', 'pyamg_krylov']

def run_hist(group, acc):
    """
    All sequences of operations:

    - 'm:<name>': use another matrix (a new object),
    - 'data': change the values of the current matrix in place,
    - 's0', 's1': solve with a right-hand side with the matrix passed in,
    - 'sd': solve with the default matrix of the solver,
    - 'p': presolve, 'c': clear.
    """
    _, name, opt, first, length = group
    kind, conf, mats, _ = SOLVERS[name]
    conf = dict(conf, **opt)
    if not make_ok(kind, conf, name, acc):
        return

    names = list(mats)
    ops = ['m:' + ii for ii in names] + ['data', 's0', 's1', 'sd', 'p', 'c']
    for seq in itertools.product(ops, repeat=length - 1):
        if not any(op[0] == 's' for op in seq):
            continue
        if seq[-1][0] != 's':
            continue
        with acc.case(repr([name, opt, names[first], seq])):
            check_hist(name, kind, conf, mats, names[first], ('s0',) + seq,
                       acc)

def make_ok(kind, conf, name, acc):
    avail = available(kind, conf)
    if avail is not True:
        if name in REQUIRED:
            acc.fail('available', '%s is not available: %s' % (name, avail))
        else:
            acc.count('unavailable: %s' % name)
        return False
    return True

def check_hist(name, kind, conf, mats, first, seq, acc):
    digest = conf.get('use_mtx_digest', True) or not conf['use_presolve']
    ls = make(kind, conf)
    mtx = sps.csr_array(mats[first])
    ls.mtx = mtx
    # The matrix factorized, if the change has to be given by clear().
    held = None
    keep = []
    for op in seq:
        acc.transitions += 1
        if op.startswith('m:'):
            keep.append(mtx)
            mtx = sps.csr_array(mats[op[2:]])
            ls.mtx = mtx

        elif op == 'data':
            mtx.data[:] *= 2.0
            mtx.data[0] += 1.0

        elif op == 'p':
            if not (digest or held is None
                    or nm.array_equal(held, mtx.toarray())):
                raise Skip
            ls.presolve(mtx)
            held = mtx.toarray()

        elif op == 'c':
            ls.clear()
            held = None

        else:
            if not (digest or held is None
                    or nm.array_equal(held, mtx.toarray())):
                # An expert mode: clear() was necessary.
                raise Skip
            held = mtx.toarray()
            rhs = RHS[1 if op == 's1' else 0].astype(mtx.dtype)
            rhs0, mtx0 = rhs.copy(), mtx.toarray()
            status = {}
            if op == 'sd':
                sol = ls(rhs, status=status)
            else:
                sol = ls(rhs, mtx=mtx, status=status)
            require((rhs == rhs0).all(), 'rhs changed')
            require((mtx.toarray() == mtx0).all(), 'matrix changed')
            err = nm.abs(mtx0 @ sol - rhs0).max()
            require(err < 1e-6, 'residual %s in %s', err, op)
            require(('n_iter' in status) and ('time' in status),
                    'no status %s', status)
            acc.outcome((op, tuple(nm.round(sol, 6))))
    acc.traces += 1
    acc.states += 1

def run_inplace(group, acc):
    """
    All the small changes of a matrix in place between two solves.
    """
    name = group[1]
    kind, conf, _, has = SOLVERS[name]
    if has:
        conf = dict(conf, use_presolve=True)
    if not make_ok(kind, conf, name, acc):
        return
    base = sps.csr_array(SYM + nm.diag([0.5, 0.25, 0.75, 1.5]))
    nnz = base.nnz
    cases = [('add', ii) for ii in range(nnz)]
    for pair in itertools.combinations(range(nnz), 2):
        cases.append(('move',) + pair)
        cases.append(('swap',) + pair)
    if not name.startswith('pyamg'):
        for row in range(4):
            cases.append(('cols', row))
        cases.append(('rows',))
    for case in cases:
        with acc.case(repr([name, case])):
            acc.transitions += 2
            mtx = base.copy()
            ls = make(kind, conf)
            ls(RHS[0], mtx=mtx)
            if case[0] == 'add':
                mtx.data[case[1]] += 0.5
            elif case[0] == 'move':
                mtx.data[case[1]] += 0.5
                mtx.data[case[2]] -= 0.5
            elif case[0] == 'swap':
                mtx.data[list(case[1:])] = mtx.data[list(case[1:])[::-1]]
            elif case[0] == 'cols':
                # Another pattern of the same size.
                ii = mtx.indptr[case[1]]
                row = mtx.indices[ii:mtx.indptr[case[1] + 1]]
                free = [jj for jj in range(4) if jj not in row]
                new = [jj if jj == case[1] else free.pop() if free else jj
                       for jj in row]
                if len(set(new)) != len(new):
                    raise Skip
                order = nm.argsort(new)
                data = mtx.data[ii:mtx.indptr[case[1] + 1]].copy()
                mtx.indices[ii:mtx.indptr[case[1] + 1]] = nm.sort(new)
                mtx.data[ii:mtx.indptr[case[1] + 1]] = data[order]
            else:
                # The same data and columns in other rows.
                mtx = sps.csr_array(dense([4, 1, 0], [0, 0, 3], [5, 0, 6]))
                ls = make(kind, conf)
                ls(RHS[0][:3], mtx=mtx)
                mtx.indptr[:] = [0, 1, 3, 5]
            rhs = RHS[1][:mtx.shape[0]]
            sol = ls(rhs, mtx=mtx)
            err = nm.abs(mtx.toarray() @ sol - rhs).max()
            require(err < (1e-6 if name.startswith('pyamg') else 1e-9),
                    'residual %s', err)
            acc.outcome(tuple(nm.round(sol, 6)))

    # Many chunks.
    if name in ('superlu', 'umfpack', 'mumps'):
        size = 80000
        one = nm.ones(size)
        big = sps.diags_array([-one[1:], 4 * one, -one[1:]],
                              offsets=[-1, 0, 1]).tocsr()
        ls = make(kind, conf)
        rhs = one.copy()
        for ii in (None, 0, 99999, 100000, 150001, 199999, 200000,
                   big.nnz - 1):
            with acc.case(repr([name, 'big', ii])):
                acc.transitions += 1
                if ii is not None:
                    big.data[ii] += 0.5
                sol = ls(rhs, mtx=big)
                err = nm.abs(big @ sol - rhs).max()
                require(err < 1e-9, 'residual %s', err)
                acc.outcome(round(sol[0], 8))

def run_iter(group, acc):
    """
    Tolerances, numbers of iterations, callbacks, initial guesses.
    """
    name = group[1]
    kind, conf, mats, _ = SOLVERS[name]
    if not make_ok(kind, conf, name, acc):
        return
    size = 40
    big = (nm.diag(nm.linspace(2.0, 30.0, size)) - nm.diag(nm.ones(size - 1), 1)
           - nm.diag(nm.ones(size - 1), -1))
    rhs0 = nm.sin(nm.arange(size) + 1.0)
    exact = nm.linalg.solve(big, rhs0)
    mg = kind == 'ls.pyamg'
    krylov = kind == 'ls.pyamg_krylov'
    for scale in (1.0, 1e3):
        for eps_r in (1e-2, 1e-6, 1e-10):
            for eps_a in (1e-14, 1e-3, 10.0):
                for x0 in (None, 'zero', 'exact', 'other'):
                    for where in ('conf', 'call'):
                        ident = [name, scale, eps_r, eps_a, x0, where]
                        with acc.case(repr(ident)):
                            calls = []
                            tols = {'eps_r': eps_r}
                            if not (mg or krylov):
                                tols['eps_a'] = eps_a
                            elif eps_a != 1e-14:
                                raise Skip
                            cc = dict(conf, i_max=500,
                                      callback=lambda x: calls.append(
                                          nm.array(x)))
                            kw = {}
                            if where == 'conf':
                                cc.update(tols)
                            else:
                                kw = tols
                            ls = make(kind, cc)
                            mtx = sps.csr_array(big)
                            rhs = scale * rhs0
                            guess = {None: None, 'zero': nm.zeros(size),
                                     'exact': scale * exact,
                                     'other': nm.ones(size)}[x0]
                            status = {}
                            sol = ls(rhs, x0=guess, mtx=mtx, status=status,
                                     **kw)
                            res = nm.linalg.norm(mtx @ sol - rhs)
                            bound = eps_r * nm.linalg.norm(rhs)
                            if not (mg or krylov):
                                bound = max(bound, eps_a)
                            require(res <= bound * 1.01 + 1e-9 * scale
                                    or (krylov and res <= 100 * bound),
                                    'residual %s, bound %s', res, bound)
                            if 'eps_a' in tols or 'eps_r' in tols:
                                # The tolerances are really used.
                                if ((not (mg or krylov)) and x0 != 'exact'
                                    and eps_r == 1e-2):
                                    require(res > 1e-12 * scale,
                                            'too precise: %s', res)
                            require(status['n_iter'] == len(calls),
                                    'n_iter %s, callbacks %s',
                                    status['n_iter'], len(calls))
                            if x0 == 'exact' and 'auto' not in name:
                                require(status['n_iter'] <= 2,
                                        'guess not used: %s',
                                        status['n_iter'])
                            acc.outcome((name, status['n_iter']))

    for i_max in (1, 2, 3, 5):
        for where in ('conf', 'call'):
            with acc.case(repr([name, 'i_max', i_max, where])):
                cc = dict(conf, eps_r=1e-14, eps_a=1e-14)
                kw = {}
                if where == 'conf':
                    cc['i_max'] = i_max
                else:
                    kw['i_max'] = i_max
                if mg or krylov:
                    cc.pop('eps_a')
                ls = make(kind, cc)
                status = {}
                ls(rhs0, mtx=sps.csr_array(big), status=status, **kw)
                require(status['n_iter'] <= i_max * (20 if 'gmres' in name
                                                    else 1),
                        'n_iter %s', status['n_iter'])
                acc.outcome((name, i_max, status['n_iter']))

    if kind != 'ls.pyamg':
        # The preconditioner is asked for with the matrix solved and context.
        for which in ('conf', 'call'):
            with acc.case(repr([name, 'precond', which])):
                got = []

                def setup_precond(mtx, context):
                    got.append((mtx, context))
                    return sps.csr_array(nm.diag(1.0 / mtx.diagonal()))

                cc = dict(conf, i_max=500)
                kw = {}
                if which == 'conf':
                    cc['setup_precond'] = setup_precond
                else:
                    kw['setup_precond'] = setup_precond
                ls = make(kind, cc, context='ctx')
                if name == 'qmr':
                    raise Skip
                mtx = sps.csr_array(big)
                sol = ls(rhs0, mtx=mtx, **kw)
                require(len(got) == 1 and got[0][0] is mtx
                        and got[0][1] == 'ctx', 'preconditioner calls: %s',
                        len(got))
                require(nm.linalg.norm(mtx @ sol - rhs0) < 1e-5, 'residual')

def run_fallback(group, acc):
    """
    The first available solver is used, for all availability patterns.
    """
    from sfepy.base.base import Struct
    from sfepy.solvers import Solver, solver_table
    from sfepy.solvers.solvers import LinearSolver, use_first_available
    from sfepy.solvers.auto_fallback import AutoDirect, AutoIterative

    class Fake(LinearSolver):
        _parameters = [('*', '*', None, False, '')]
        broken = False

        def __init__(self, conf, **kwargs):
            if self.broken:
                raise ValueError('not available')
            LinearSolver.__init__(self, conf, **kwargs)

    for cls in (AutoDirect, AutoIterative):
        kinds = [ii[0] for ii in cls._ls_solvers]
        for broken in itertools.product([False, True], repeat=len(kinds)):
            for how in ('struct', 'dict', 'any', 'twice'):
                with acc.case(repr([cls.name, broken, how])):
                    saved = {kk: solver_table.get(kk) for kk in kinds}
                    try:
                        fakes = []
                        for kk, bb in zip(kinds, broken):
                            fake = type('Fake_' + kk[3:], (Fake,),
                                        {'name': kk, 'broken': bb})
                            fakes.append(fake)
                            solver_table[kk] = fake
                        cc = {'name': 'n1', 'kind': cls.name, 'i_max': 77}
                        conf = dict(cc) if how == 'dict' else Struct(**cc)
                        try:
                            if how in ('any', 'twice'):
                                ls = Solver.any_from_conf(conf, context='ctx')
                            else:
                                ls = cls(conf, context='ctx')
                            if how == 'twice':
                                ls = Solver.any_from_conf(conf, context='ctx')
                        except ValueError:
                            require(all(broken), 'none found of %s', broken)
                            acc.outcome('none')
                            continue
                        first = [ff for ff in fakes if not ff.broken][0]
                        require(type(ls) is first, '%s used', type(ls))
                        require(ls.context == 'ctx', 'context %s', ls.context)
                        require(ls.conf.i_max == 77, 'options %s',
                                ls.conf)
                        require(ls.conf.kind == first.name, 'kind %s',
                                ls.conf.kind)
                        acc.outcome(first.name)
                    finally:
                        for kk, vv in saved.items():
                            if vv is None:
                                solver_table.pop(kk, None)
                            else:
                                solver_table[kk] = vv

    # Chains of alternatives given by the user.
    class F0(Fake):
        name = 'ls.f0'

    class F1(Fake):
        name = 'ls.f1'

    class F2(Fake):
        name = 'ls.f2'
    classes = [F0, F1, F2]
    for perm in itertools.permutations(range(3)):
        for broken in itertools.product([False, True], repeat=3):
            for by_class in (False, True):
                with acc.case(repr(['chain', perm, broken, by_class])):
                    try:
                        lst = []
                        for pos, ii in enumerate(perm):
                            classes[ii].broken = broken[ii]
                            solver_table[classes[ii].name] = classes[ii]
                            cc = Struct(name='n%d' % ii,
                                        kind=classes[ii].name, val=ii)
                            if pos < 2:
                                cc.fallback = 'n%d' % perm[pos + 1]
                            lst.append((classes[ii] if by_class
                                        else classes[ii].name, cc))
                        try:
                            ls = use_first_available(lst, context='ctx')
                        except ValueError:
                            require(all(broken), 'none found')
                            continue
                        ok = [ii for ii in perm if not broken[ii]]
                        require(type(ls) is classes[ok[0]], '%s used',
                                type(ls))
                        require(ls.context == 'ctx', 'context %s', ls.context)
                        require(ls.conf.val == ok[0], 'options')
                        for pos in range(2):
                            require(lst[pos][1].fallback
                                    == 'n%d' % perm[pos + 1],
                                    'configuration was changed')
                    finally:
                        for cls in classes:
                            cls.broken = False
                            solver_table.pop(cls.name, None)

def run_symmetry(group, acc):
    """
    Solutions for all the sparsity patterns of 3 x 3 matrices.
    """
    for kind in ('ls.mumps', 'ls.scipy_superlu', 'ls.scipy_umfpack'):
        for off in itertools.product([0.0, 1.0, -2.0], repeat=6):
            with acc.case(repr([kind, off])):
                mtx = nm.diag([5.0, 6.0, 7.0])
                ij = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)]
                for (ii, jj), val in zip(ij, off):
                    mtx[ii, jj] = val
                ls = make(kind, {})
                rhs = nm.array([1.0, -2.0, 3.0])
                sol = ls(rhs, mtx=sps.csr_array(mtx))
                err = nm.abs(mtx @ sol - rhs).max()
                require(err < 1e-12, 'residual %s', err)
                acc.outcome(tuple(nm.round(sol, 8)))

def eig_mats():
    out = {}
    out['diag'] = nm.diag([1.0, 2.5, 4.0, 7.0, 11.0, 12.0])
    rng = nm.arange(6)
    lap = 2 * nm.eye(6) - nm.eye(6, k=1) - nm.eye(6, k=-1)
    out['lap'] = lap
    out['spd'] = lap @ lap + nm.diag(rng + 1.0)
    out['big'] = 100 * lap + nm.diag(rng**2 + 1.0)
    mass = (4 * nm.eye(6) + nm.eye(6, k=1) + nm.eye(6, k=-1)) / 6
    return out, {'none': None, 'mass': mass, 'dm': nm.diag(rng + 1.0)}

def run_eigen(group, acc):
    import scipy.linalg as sla
    from sfepy.solvers.eigen import eig
    from sfepy.solvers import Solver
    from sfepy.base.base import Struct

    kind = group[1]
    mats_a, mats_b = eig_mats()
    confs = {
        'eig': ('eig.scipy', {'method': 'eig'}),
        'eigh': ('eig.scipy', {'method': 'eigh'}),
        'eigs': ('eig.scipy', {'method': 'eigs'}),
        'eigsh': ('eig.scipy', {'method': 'eigsh'}),
        'eigls': ('eig.scipy', {'method': 'eigsh', 'sigma': 0.0,
                                'which': 'LM',
                                'linear_solver': ('ls.scipy_superlu', {})}),
        'sg': ('eig.sgscipy', {}),
        'lobpcg': ('eig.scipy_lobpcg', {'i_max': 200, 'largest': False,
                                        'eps_a': 1e-10}),
        'primme': ('eig.primme', {'which': 'SM'}),
    }
    if kind == 'qevp':
        return run_qevp(acc)

    skind, conf = confs[kind]
    for (na, mtx_a), (nb, mtx_b) in itertools.product(mats_a.items(),
                                                      mats_b.items()):
        exact = nm.sort(sla.eigh(mtx_a, mtx_b, eigvals_only=True))
        for n_eigs in (None, 0, 1, 2, 3, 4):
            if n_eigs is None and kind in ('eigs', 'eigsh', 'eigls'):
                continue
            if kind == 'lobpcg' and n_eigs in (None, 2, 3, 4):
                # LOBPCG needs 5 n_eigs <= n.
                continue
            whichs = [None]
            if kind in ('eig', 'eigh', 'eigs', 'eigsh'):
                whichs = ['SM', 'LM']
            for which in whichs:
                for vecs in (True, False):
                    for sparse in (False, True):
                        with acc.case(repr([kind, na, nb, n_eigs, which, vecs,
                                            sparse])):
                            cc = dict(conf)
                            if which is not None:
                                cc['which'] = which
                            if kind == 'primme':
                                try:
                                    import primme
                                except ImportError:
                                    raise Skip
                            ma = (sps.csc_array(mtx_a) if sparse
                                  else mtx_a.copy())
                            mb = mtx_b
                            if mtx_b is not None:
                                mb = (sps.csc_array(mtx_b) if sparse
                                      else mtx_b.copy())
                            if (not sparse) and kind == 'eigls':
                                raise Skip
                            status = {}
                            solver = Solver.any_from_conf(
                                Struct(name='e', kind=skind, **cc))
                            out = solver(ma, mb, n_eigs=n_eigs,
                                         eigenvectors=vecs, status=status)
                            check_eigs(kind, out, mtx_a, mtx_b, n_eigs,
                                       which, vecs, exact, acc)
                            after = ma.toarray() if sparse else ma
                            require((after == mtx_a).all(), 'matrix changed')
                            require('time' in status, 'no status')

def check_eigs(kind, out, mtx_a, mtx_b, n_eigs, which, vecs, exact, acc):
    eigs = out[0] if vecs else out
    num = len(exact) if n_eigs is None else n_eigs
    require(len(eigs) == num, '%d eigenvalues, should be %d', len(eigs), num)
    if num == 0:
        if vecs:
            require(out[1].shape == (mtx_a.shape[0], 0), 'shape %s',
                    out[1].shape)
        return
    sel = exact[-num:] if which == 'LM' else exact[:num]
    got = nm.sort(nm.real(eigs))
    require(nm.abs(nm.imag(eigs)).max() < 1e-8, 'complex %s', eigs)
    require(nm.allclose(got, sel, rtol=1e-6, atol=1e-8),
            'eigenvalues %s, should be %s', eigs, sel)
    if vecs:
        require(out[1].shape == (mtx_a.shape[0], num), 'shape %s',
                out[1].shape)
        mb = mtx_b if mtx_b is not None else nm.eye(mtx_a.shape[0])
        res = mtx_a @ out[1] - (mb @ out[1]) * eigs
        require(nm.abs(res).max() < 1e-4 * nm.abs(mtx_a).max(),
                'not eigenpairs: %s', nm.abs(res).max())
        require(nm.linalg.matrix_rank(out[1]) == num,
                'dependent eigenvectors')
    acc.outcome(tuple(nm.round(got, 5)))

def run_qevp(acc):
    import scipy.linalg as sla
    from sfepy.solvers import Solver
    from sfepy.base.base import Struct

    mats_a, mats_b = eig_mats()
    mass = mats_b['mass'][:4, :4]
    for na, mtx_k in mats_a.items():
        mtx_k = mtx_k[:4, :4] + 0.1 * nm.eye(4)
        for damp in (0.0, 0.1, 1.0, -0.5):
            mtx_d = damp * (mtx_k + mass)
            big_a = nm.block([[nm.zeros((4, 4)), nm.eye(4)],
                              [-mtx_k, -mtx_d]])
            big_b = nm.block([[nm.eye(4), nm.zeros((4, 4))],
                              [nm.zeros((4, 4)), mass]])
            exact = sla.eigvals(big_a, big_b)
            for mode in ('normal', 'inverted'):
                for vecs in (True, False):
                    for method in ('companion',):
                        with acc.case(repr([na, damp, mode, vecs, method])):
                            solver = Solver.any_from_conf(
                                Struct(name='q', kind='eig.qevp', mode=mode,
                                       method=method,
                                       solver={'kind': 'eig.scipy',
                                               'method': 'eig'}))
                            out = solver(sps.csr_array(mass),
                                         sps.csr_array(mtx_d),
                                         sps.csr_array(mtx_k),
                                         eigenvectors=vecs, status={})
                            eigs = out[0] if vecs else out
                            require(len(eigs) == 8, '%d eigenvalues',
                                    len(eigs))
                            rest = list(exact)
                            for val in eigs:
                                ii = nm.argmin(nm.abs(nm.array(rest) - val))
                                require(abs(rest[ii] - val)
                                        < 1e-5 * max(1, abs(val)),
                                        'eigenvalue %s not in %s', val, exact)
                                rest.pop(ii)
                            if vecs:
                                vv = out[1]
                                require(vv.shape[0] == 4, 'shape')
                                res = (mass @ vv * eigs**2
                                       + mtx_d @ vv * eigs + mtx_k @ vv)
                                require(nm.abs(res).max() < 1e-4
                                        * nm.abs(mtx_k).max(),
                                        'not eigenpairs: %s',
                                        nm.abs(res).max())
                                require(nm.linalg.norm(vv, axis=0).min()
                                        > 1e-8, 'zero eigenvectors')
                            acc.outcome(tuple(nm.round(nm.sort(
                                nm.real(eigs)), 4)))
