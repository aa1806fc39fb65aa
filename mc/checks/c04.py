"""
C04: mapping of all DOFs to the active ones under E(P)BCs.
"""
import itertools

import numpy as nm

from mc.core import require
from mc import meshes

PID = 'C04'
LEVEL = 'exploration'
RULE = ('a case = a sequence of essential and periodic conditions (each over'
        ' small vertex sets), a DOF layout and a time step; it is non-trivial'
        ' if at least one condition is active; distinct by the conditions')
ASSUMPTIONS = ['the reference is a union-find over DOFs tied by the periodic'
               ' conditions and a last-key-wins table of essential values',
               'values are compared exactly, except sums (1e-12)']
BOUNDS = {
    'quick': 'up to 3 single pair EPBCs over 4 nodes x all EBC subsets; 2'
             ' two-pair EPBCs; 2-component component maps; activity tables',
    'thorough': 'up to 3 single pair EPBCs over 5 nodes, 4 over 4 nodes, 3'
                ' two-pair EPBCs over 4 nodes',
}
LIMIT = 800

class UF(dict):
    def find(self, ii):
        while self.setdefault(ii, ii) != ii:
            ii = self[ii]
        return ii

    def join(self, ii, jj):
        self[self.find(ii)] = self.find(jj)

class Case:
    """
    A problem with one field and given variables.
    """
    def __init__(self, mesh='quad2', ncomp=1, order=1, region=None,
                 variables=(('u', 0),), dtype=nm.float64):
        from sfepy.discrete import FieldVariable, Variables
        from sfepy.discrete.fem import FEDomain, Field
        self.domain = FEDomain('d', meshes.mesh(mesh))
        self.omega = self.domain.create_region('Omega', 'all')
        reg = self.omega
        if region is not None:
            reg = self.domain.create_region('Sub', region)
        self.field = Field.from_args('f', dtype, (ncomp,), reg,
                                     approx_order=order)
        self.vars = []
        for name, vorder in variables:
            self.vars.append(FieldVariable(name, 'unknown', self.field,
                                           order=vorder))
        self.variables = Variables(self.vars)
        self.variables.setup_dof_info()
        self.variables.init_history()
        self.regions = {}
        self.ncomp = ncomp

    def region(self, verts):
        key = tuple(sorted(verts))
        if key not in self.regions:
            self.regions[key] = self.domain.create_region(
                'V' + '_'.join(map(str, key)),
                'vertex ' + ', '.join(map(str, key)), 'vertex')
        return self.regions[key]

    def ebc(self, ii, verts, dofs, key=None, times=None):
        from sfepy.discrete.conditions import EssentialBC
        return EssentialBC('e%d' % ii, self.region(verts), dict(dofs),
                           key=key or 'ebc_%02d' % ii, times=times)

    def epbc(self, ii, pairs, dofs, times=None):
        """
        pairs: (m, s) vertices, in any order.
        """
        from sfepy.discrete.conditions import PeriodicBC
        from sfepy.discrete import Function
        ms = [pp[0] for pp in pairs]
        ss = [pp[1] for pp in pairs]
        i1 = nm.argsort(nm.argsort(ms))
        i2 = nm.argsort(nm.argsort(ss))
        fun = Function('match', lambda c1, c2: (i1, i2))
        return PeriodicBC('p%d' % ii, [self.region(ms), self.region(ss)],
                          dict(dofs), fun, key='epbc_%02d' % ii, times=times)

def canon(dofs, ncomp):
    """
    Component indices of e.g. 'u.[1, 0]', in the order given.
    """
    txt = dofs.split('.', 1)[1]
    if txt == 'all':
        return list(range(ncomp))
    if txt[0] == '[':
        return [int(ii) for ii in txt[1:-1].split(',')]
    return [int(txt)]

def reference(ndof, ncomp, ebcs, epbcs, node_of):
    """
    ebcs: list of (verts, dofs, value(s)) in the order of application, epbcs:
    list of (pairs, dofs0, dofs1).
    """
    uf = UF()
    for pairs, d0, d1 in epbcs:
        c0, c1 = canon(d0, ncomp), canon(d1, ncomp)
        for vm, vs in pairs:
            nm_, ns = node_of(vm), node_of(vs)
            if nm_ is None or ns is None:
                continue
            for cm, cs in zip(c0, c1):
                uf.join(ncomp * nm_ + cm, ncomp * ns + cs)
    fixed = {}
    for verts, dofs, val in ebcs:
        cc = canon(dofs, ncomp)
        for vv in verts:
            nn = node_of(vv)
            if nn is None:
                continue
            for ic, comp in enumerate(cc):
                fixed[ncomp * nn + comp] = (val if nm.isscalar(val)
                                            else val[ic])
    classes = {}
    for ii in range(ndof):
        classes.setdefault(uf.find(ii), []).append(ii)
    return list(classes.values()), fixed

def verify(case, var, classes, fixed, full=True):
    """
    Check the mapping of a variable against the reference classes.
    """
    em = var.eq_map
    ndof = var.n_dof
    eq = em.eq
    require(eq.shape[0] == ndof, 'size of the map')
    free = [cc for cc in classes if not any(ii in fixed for ii in cc)]
    require(em.n_eq == len(free), '%d equations instead of %d',
            em.n_eq, len(free))
    require(var.n_adof == em.n_eq, 'n_adof')
    seen = set()
    for cc in free:
        eqs = {int(eq[ii]) for ii in cc}
        require(len(eqs) == 1, 'tied DOFs %s have equations %s', cc, eqs)
        ee = eqs.pop()
        require(0 <= ee < em.n_eq, 'equation %d out of range', ee)
        require(ee not in seen, 'equation %d used twice', ee)
        seen.add(ee)
    for cc in classes:
        if cc in free:
            continue
        for ii in cc:
            require(eq[ii] < 0, 'fixed DOF %d has equation %d', ii, eq[ii])

    # Full from reduced.
    rvec = nm.arange(em.n_eq) * 10.0 + 100.0
    vec = var.get_full(rvec.copy())
    for cc in classes:
        vals = set(float(vec[ii]) for ii in cc)
        require(len(vals) == 1, 'tied DOFs %s have values %s', cc, vals)
        if cc in free:
            require(vals == {float(rvec[eq[cc[0]]])}, 'value of %s', cc)
        else:
            ok = {float(fixed[ii]) for ii in cc if ii in fixed}
            require(vals <= ok, 'values of fixed DOFs %s: %s not in %s',
                    cc, vals, ok)

    require(nm.array_equal(var.get_reduced(vec), rvec),
            'reduction is not the inverse of expansion')
    # Contradictory values of tied DOFs cannot be satisfied.
    conflict = any(len({float(fixed[ii]) for ii in cc if ii in fixed}) > 1
                   for cc in classes)
    require(conflict or var.has_ebc(vec),
            'the expanded vector has not its E(P)BCs')
    # Offsets.
    pad = nm.full(ndof + 5, -7.0)
    var.get_full(nm.r_[[9.9, 9.9], rvec, [9.9]], r_offset=2, vec=pad,
                 offset=3)
    require(nm.array_equal(pad[3:-2], vec) and (pad[:3] == -7.0).all()
            and (pad[-2:] == -7.0).all(), 'expansion with offsets')
    require(nm.array_equal(var.get_reduced(pad, offset=3), rvec),
            'reduction with an offset')

    # apply_ebc on an arbitrary vector.
    avec = nm.arange(ndof) * 1.0 + 1000.0
    bvec = avec.copy()
    var.apply_ebc(bvec)
    for cc in classes:
        vals = set(float(bvec[ii]) for ii in cc)
        require(len(vals) == 1, 'apply_ebc: tied DOFs %s: %s', cc, vals)
        if cc in free:
            require(vals <= {float(avec[ii]) for ii in cc},
                    'apply_ebc: %s', cc)
        else:
            require(vals <= {float(fixed[ii]) for ii in cc if ii in fixed},
                    'apply_ebc: fixed %s', cc)
    require(conflict or var.has_ebc(bvec), 'has_ebc() after apply_ebc()')
    for cc in classes:
        if (cc in free) and len(cc) == 1:
            continue
        for ii in cc:
            cvec = bvec.copy()
            cvec[ii] += 5.0
            if len(cc) > 1 or ii in fixed:
                require(not var.has_ebc(cvec),
                        'a violated condition at DOF %d not noticed', ii)

    # Reduction of forces, operator.
    fvec = nm.random.RandomState(0).rand(ndof)
    ref = nm.zeros(em.n_eq)
    for cc in free:
        ref[eq[cc[0]]] = sum(fvec[ii] for ii in cc)
    require(nm.allclose(var.get_reduced(fvec, follow_epbc=True), ref,
                        rtol=0, atol=1e-12), 'forces of tied DOFs are not'
            ' summed')
    mtx = em.get_operator().toarray()
    require(mtx.shape == (ndof, em.n_eq), 'operator shape')
    rmtx = nm.zeros_like(mtx)
    for cc in free:
        for ii in cc:
            rmtx[ii, eq[cc[0]]] = 1.0
    require(nm.array_equal(mtx, rmtx), 'operator differs')

def _map(case, ebcs, epbcs, ts=None, **kwargs):
    from sfepy.discrete.conditions import Conditions
    eb = Conditions(ebcs) if ebcs else None
    ep = Conditions(epbcs) if epbcs else None
    return case.variables.equation_mapping(eb, ep, ts, None, **kwargs)

def groups(tier):
    out = []
    nn, depth = (4, 3) if tier == 'quick' else (5, 3)
    pairs = [pp for pp in itertools.product(range(nn), repeat=2)
             if pp[0] != pp[1]]
    for first in pairs:
        out.append(['single', nn, depth, list(first)])
    if tier == 'thorough':
        p4 = [pp for pp in itertools.product(range(4), repeat=2)
              if pp[0] != pp[1]]
        for first in p4:
            for second in p4:
                out.append(['single4', list(first), list(second)])
    for ii in range(8):
        out.append(['double', ii, 3 if tier == 'thorough' else 2])
    out.append(['comps', 0])
    out.append(['comps', 1])
    for ii in range(4):
        out.append(['ebcs', ii])
    out += [['times'], ['layout'], ['sub'], ['grid'], ['match']]
    return out

def _run_single(group, acc, case, seqs, subsets):
    var = case.vars[0]
    for seq in seqs:
        for sub in subsets:
            ident = [seq, list(sub)]
            with acc.case(ident):
                ebcs = [case.ebc(ii, [vv], {'u.all': 10.0 + ii})
                        for ii, vv in enumerate(sub)]
                epbcs = [case.epbc(ii, [pp], {'u.all': 'u.all'})
                         for ii, pp in enumerate(seq)]
                _map(case, ebcs, epbcs)
                classes, fixed = reference(
                    6, 1, [([vv], 'u.all', 10.0 + ii)
                           for ii, vv in enumerate(sub)],
                    [([pp], 'u.all', 'u.all') for pp in seq], lambda vv: vv)
                verify(case, var, classes, fixed)
                acc.outcome(var.eq_map.eq.tolist())

def run(group, acc):
    kind = group[0]
    if kind in ('single', 'single4'):
        case = Case()
        if kind == 'single':
            nn, depth, first = group[1:]
            pairs = [list(pp) for pp in itertools.product(range(nn), repeat=2)
                     if pp[0] != pp[1]]
            seqs = [[first] + [list(pp) for pp in rest]
                    for num in range(depth)
                    for rest in itertools.product(pairs, repeat=num)]
        else:
            nn = 4
            pairs = [list(pp) for pp in itertools.product(range(nn), repeat=2)
                     if pp[0] != pp[1]]
            seqs = [[group[1], group[2], pp, qq] for pp in pairs
                    for qq in pairs]
        subsets = [sub for num in range(nn + 1)
                   for sub in itertools.combinations(range(nn), num)]
        if kind == 'single4':
            subsets = [(), (0,), (3,)]
        _run_single(group, acc, case, seqs, subsets)

    elif kind == 'double':
        case = Case()
        var = case.vars[0]
        rels = []
        nod = range(4)
        for ms in itertools.combinations(nod, 2):
            for ss in itertools.combinations(nod, 2):
                for pp in ([0, 1], [1, 0]):
                    rel = [[ms[0], ss[pp[0]]], [ms[1], ss[pp[1]]]]
                    rels.append(rel)
        seqs = [list(seq) for seq in itertools.product(rels, repeat=2)]
        if group[2] == 3:
            rel3 = rels[::3]
            seqs += [list(seq) for seq in itertools.product(rel3, repeat=3)]
        for seq in seqs[group[1]::8]:
            for sub in ((), (0,), (1, 2)):
                with acc.case([seq, list(sub)]):
                    ebcs = [case.ebc(ii, [vv], {'u.all': 10.0 + ii})
                            for ii, vv in enumerate(sub)]
                    epbcs = [case.epbc(ii, pp, {'u.all': 'u.all'})
                             for ii, pp in enumerate(seq)]
                    _map(case, ebcs, epbcs)
                    classes, fixed = reference(
                        6, 1, [([vv], 'u.all', 10.0 + ii)
                               for ii, vv in enumerate(sub)],
                        [(pp, 'u.all', 'u.all') for pp in seq], lambda vv: vv)
                    verify(case, var, classes, fixed)
                    acc.outcome(var.eq_map.eq.tolist())

    elif kind == 'comps':
        ncomp = 2
        case = Case(ncomp=2)
        var = case.vars[0]
        names = ['u.all', 'u.0', 'u.1', 'u.[0,1]', 'u.[1,0]', 'u.[1, 0]']
        rels = []
        for pp in ([[0, 1]], [[1, 2]], [[2, 0]], [[0, 1], [3, 2]],
                   [[3, 1], [0, 2]], [[4, 4]]):
            for d0, d1 in itertools.product(names, repeat=2):
                if len(canon(d0, 2)) == len(canon(d1, 2)):
                    rels.append((pp, d0, d1))
        eopts = [(), (([0], 'u.0', 3.0),), (([1, 2], 'u.[1]', 4.0),),
                 (([0, 1], 'u.all', nm.array([5.0, 6.0])),),
                 (([2], 'u.[1,0]', nm.array([7.0, 8.0])),),
                 (([2, 4], 'u.[0]', 1.0), ([4, 5], 'u.all', 2.0))]
        seqs = ([[rel] for rel in rels]
                + [list(rr) for rr in itertools.product(rels[::2], rels[1::3])
                   ][group[1]::2])
        for seq in seqs:
            for eopt in eopts:
                ident = [[list(rr) for rr in seq], repr(eopt)]
                with acc.case(ident):
                    ebcs = [case.ebc(ii, vv, {dd: val})
                            for ii, (vv, dd, val) in enumerate(eopt)]
                    epbcs = [case.epbc(ii, pp, {d0: d1})
                             for ii, (pp, d0, d1) in enumerate(seq)]
                    _map(case, ebcs, epbcs)
                    classes, fixed = reference(12, 2, eopt, seq,
                                               lambda vv: vv)
                    verify(case, var, classes, fixed)
                    acc.outcome(var.eq_map.eq.tolist())

    elif kind == 'ebcs':
        # Overlapping essential conditions, order of keys, kinds of values.
        from sfepy.discrete import Function
        case = Case(ncomp=2)
        var = case.vars[0]
        coors = case.field.get_coor()
        vals = [1.0, nm.array([2.0, 3.0]), [4.0, 5.0], 'fun']
        items = []
        for verts in ([0], [1, 0], [2, 1], [0, 1, 2]):
            for dofs in ('u.all', 'u.0', 'u.[1]', 'u.[1,0]'):
                for val in vals:
                    nc = len(canon(dofs, 2))
                    if nc == 1 and not (nm.isscalar(val)):
                        continue
                    items.append((verts, dofs, val))
        keys = [('ebc_1', 'ebc_2'), ('ebc_b', 'ebc_a')]
        combos = list(itertools.product(items, items, keys))
        for it0, it1, kk in combos[group[1]::4]:
            ident = [repr(it0), repr(it1), list(kk)]
            with acc.case(ident):
                ebcs, refs = [], []
                for ii, (verts, dofs, val) in enumerate((it0, it1)):
                    nc = len(canon(dofs, 2))
                    if isinstance(val, str):
                        def fun(ts, coor, bc=None, problem=None, nc=nc,
                                off=100.0 * ii, **kwargs):
                            out = coor[:, :1] * nm.arange(1, nc + 1) + off
                            return out + 10 * coor[:, 1:]
                        use = Function('fun', fun)
                    else:
                        use = val
                    ebcs.append(case.ebc(ii, verts, {dofs: use}, key=kk[ii]))
                    if isinstance(val, str):
                        for vv in verts:
                            row = fun(None, coors[[vv]])[0]
                            refs.append((kk[ii], ([vv], dofs, row)))
                    else:
                        refs.append((kk[ii], (verts, dofs, val)))
                refs = [rr[1] for rr in sorted(refs, key=lambda a: a[0])]
                _map(case, ebcs, [])
                classes, fixed = reference(12, 2, refs, [], lambda vv: vv)
                verify(case, var, classes, fixed)
                acc.outcome(var.eq_map.val_ebc.tolist())

    elif kind == 'times':
        _run_times(acc)
    elif kind == 'layout':
        _run_layout(acc)
    elif kind == 'sub':
        _run_sub(acc)
    elif kind == 'grid':
        _run_grid(acc)

    elif kind == 'match':
        _run_match(acc)

def _run_times(acc):
    from sfepy.base.base import Struct
    from sfepy.discrete import Function, Functions
    case = Case()
    var = case.vars[0]
    tvals = [0.0, 0.5, 1.0, 1.5]
    specs = [None, [(0.0, 1.0)], [(1.0, 2.0)], [(0.0, 0.5), (1.0, 1.5)], [],
             'odd']
    def odd(ts):
        return ts.step % 2 == 1
    functions = Functions([Function('odd', odd)])
    def active(spec, it):
        if spec is None:
            return True
        if spec == 'odd':
            return it % 2 == 1
        return any(aa <= tvals[it] < bb for aa, bb in spec)

    from sfepy.discrete.conditions import Conditions
    for s0, s1, s2 in itertools.product(specs, repeat=3):
        for history in itertools.permutations(range(4), 2):
            with acc.case([repr(s0), repr(s1), repr(s2), list(history)]):
                ebcs = [case.ebc(0, [0, 1], {'u.all': 1.0}, times=s0),
                        case.ebc(1, [1, 2], {'u.all': 2.0}, times=s1)]
                epbcs = [case.epbc(0, [[2, 3]], {'u.all': 'u.all'},
                                   times=s2)]
                eb, ep = Conditions(ebcs), Conditions(epbcs)
                for it in history:
                    ts = Struct(time=tvals[it], step=it)
                    act = case.variables.equation_mapping(eb, ep, ts,
                                                          functions)
                    refs = []
                    if active(s0, it):
                        refs.append(([0, 1], 'u.all', 1.0))
                    if active(s1, it):
                        refs.append(([1, 2], 'u.all', 2.0))
                    rpbc = []
                    if active(s2, it):
                        rpbc.append(([[2, 3]], 'u.all', 'u.all'))
                    require(len(act) == len(refs) + len(rpbc),
                            '%d active conditions reported instead of %d',
                            len(act), len(refs) + len(rpbc))
                    classes, fixed = reference(6, 1, refs, rpbc,
                                               lambda vv: vv)
                    verify(case, var, classes, fixed)
                acc.outcome(var.eq_map.eq.tolist())

def _run_layout(acc):
    # Several variables of one field: order of unknowns and offsets.
    for nvar in (1, 2, 3):
        names = ['u', 'p', 'a'][:nvar]
        for orders in itertools.permutations(range(nvar)):
            for ncomp in (1, 2):
                case = Case(ncomp=ncomp,
                            variables=list(zip(names, orders)))
                bopts = [None, 'e', 'p', 'ep']
                for opts in itertools.product(bopts, repeat=nvar):
                    for aonly in (True, False):
                        ident = [names, list(orders), ncomp, list(opts),
                                 aonly]
                        with acc.case(ident, nontrivial=any(opts)):
                            _one_layout(case, names, orders, ncomp, opts,
                                        aonly)

def _one_layout(case, names, orders, ncomp, opts, aonly):
    variables = case.variables
    ebcs, epbcs, refs = [], [], {}
    for ii, (name, opt) in enumerate(zip(names, opts)):
        re_, rp = [], []
        if opt and 'e' in opt:
            ebcs.append(case.ebc(ii, [ii, 5], {name + '.all': 1.0 + ii}))
            re_ = [([ii, 5], name + '.all', 1.0 + ii)]
        if opt and 'p' in opt:
            epbcs.append(case.epbc(ii, [[3, ii], [4, 5]],
                                   {name + '.all': name + '.all'}))
            rp = [([[3, ii], [4, 5]], name + '.all', name + '.all')]
        refs[name] = reference(6 * ncomp, ncomp, re_, rp, lambda vv: vv)
    _map(case, ebcs, epbcs, active_only=aonly)
    order = [nn for _, nn in sorted(zip(orders, names))]
    off = aoff = 0
    fulls = []
    for name in order:
        var = variables[name]
        verify(case, var, *refs[name])
        di, adi = variables.di.indx[name], variables.adi.indx[name]
        require((di.start, di.stop) == (off, off + 6 * ncomp),
                'DOFs of %s at %s', name, di)
        na = var.n_adof if aonly else var.n_dof
        require((adi.start, adi.stop) == (aoff, aoff + na),
                'active DOFs of %s at %s', name, adi)
        off += 6 * ncomp
        aoff += na
    require(variables.di.n_dof_total == off, 'number of DOFs')
    require(variables.adi.n_dof_total == aoff, 'number of active DOFs')
    if aonly:
        rvec = nm.arange(aoff) + 0.5
        vec = variables.make_full_vec(rvec)
        off = aoff = 0
        for name in order:
            var = variables[name]
            require(nm.array_equal(vec[off:off+var.n_dof],
                                   var.get_full(rvec, aoff)),
                    'part of %s in the full vector', name)
            off += var.n_dof
            aoff += var.n_adof
        require(nm.array_equal(variables.reduce_vec(vec), rvec),
                'reduce_vec() is not the inverse of make_full_vec()')
        variables.init_state()
        variables.set_state(rvec, reduced=True)
        require(nm.array_equal(variables(), vec), 'set_state(reduced)')
        require(nm.array_equal(variables.get_state(reduced=True), rvec),
                'get_state(reduced)')
        require(variables.has_ebc(), 'has_ebc()')
        for name in order:
            require(nm.array_equal(variables[name](),
                                   vec[variables.di.indx[name]]),
                    'data of %s', name)
        parts = variables.get_state_parts()
        avec = nm.arange(vec.shape[0]) * 1.0
        variables.set_state(avec.copy(), apply_ebc=True)
        require(variables.has_ebc(), 'set_state(apply_ebc)')
        variables.set_state(avec)
        require(nm.array_equal(variables(), avec), 'set_state()')
        parts = {kk: -vv.copy() for kk, vv in
                 variables.get_state_parts().items()}
        variables.set_state_parts(parts)
        require(nm.array_equal(variables(), -avec), 'set_state_parts()')

def _run_sub(acc):
    """
    A field on a part of the domain, conditions reaching outside of it.
    """
    for ncomp in (1, 2):
        for cells in ([0], [1], [0, 1]):
            case = Case('line3', ncomp=ncomp,
                        region='cell ' + ', '.join(map(str, cells)))
            var = case.vars[0]
            vv = sorted(set(itertools.chain(*[(ii, ii + 1) for ii in cells])))
            dofs = [case.field.get_dofs_in_region(case.region([ii]),
                                                  merge=True)
                    for ii in range(4)]
            nodes = {}
            xx = case.domain.mesh.coors[:, 0]
            fx = case.field.get_coor()[:, 0]
            for ii in vv:
                nodes[ii] = int(nm.nonzero(fx == xx[ii])[0][0])
            verts = range(4)
            subs = [sub for num in range(5)
                    for sub in itertools.combinations(verts, num)]
            for s0 in subs:
                for pairs in ([], [[0, 1]], [[1, 2]], [[2, 3]], [[0, 3]],
                              [[0, 2], [1, 3]], [[0, 1], [3, 2]]):
                    if any((a in vv) != (b in vv) for a, b in pairs):
                        # A half of a pair out of the field.
                        continue
                    with acc.case([ncomp, cells, list(s0), pairs],
                                  nontrivial=bool(s0) or bool(pairs)):
                        for ii in verts:
                            exp = [nodes[ii]] if ii in vv else []
                            got = [int(jj) for jj in dofs[ii] if jj >= 0]
                            require(got == exp, 'DOFs of vertex %d: %s, not'
                                    ' %s', ii, got, exp)
                        ebcs = ([case.ebc(0, list(s0), {'u.all': 1.5})]
                                if s0 else [])
                        inside = [pp for pp in pairs if pp[0] in vv]
                        if len(inside) < len(pairs) and inside:
                            continue
                        epbcs = ([case.epbc(0, pairs, {'u.all': 'u.all'})]
                                 if pairs else [])
                        _map(case, ebcs, epbcs)
                        classes, fixed = reference(
                            var.n_dof, ncomp,
                            [(list(s0), 'u.all', 1.5)],
                            [(inside, 'u.all', 'u.all')],
                            lambda ii: nodes.get(ii))
                        verify(case, var, classes, fixed)
                        acc.outcome(var.eq_map.eq.tolist())

def _run_match(acc):
    """
    Histories of two calls of the matching functions: all numberings of nodes
    of both the sides, without and with other nodes of the same count matched
    before.
    """
    import sfepy.discrete.fem.periodic as per
    pts2 = nm.array([0.0, 0.75, 1.0])
    pts3 = nm.array([[0.0, 0.0], [0.75, 0.5], [1.0, 0.0], [0.0, 1.25]])
    cases = []
    for ax, fun in ((0, per.match_y_line), (1, per.match_x_line)):
        cases.append((fun, ax, nm.c_[pts2]))
    for ax, fun in enumerate((per.match_x_plane, per.match_y_plane,
                              per.match_z_plane)):
        cases.append((fun, ax, pts3))
    cases.append((per.match_coors, 0, pts3))
    cases.append((per.match_coors, 0, nm.c_[pts2]))

    def call(fun, ax, pts, spec, saved):
        perm1, perm2, lens, swap, scale = spec
        if fun is per.match_coors: lens = 0.0
        c1 = nm.insert(pts * scale, ax, 0.5, axis=1)[list(perm1)]
        c2 = nm.insert(pts * scale, ax, 0.5 + lens, axis=1)[list(perm2)]
        if swap: c1, c2 = c2, c1
        i1, i2 = fun(c1.copy(), c2.copy(), saved)
        num = list(range(len(pts)))
        require(sorted(i1) == num and sorted(i2) == num, 'pairs %s, %s',
                i1, i2)
        dd = nm.delete(c1[i1] - c2[i2], ax, axis=1)
        require(nm.abs(dd).max() < 1e-8, 'paired nodes %s, %s',
                c1[i1].tolist(), c2[i2].tolist())

    for ic, (fun, ax, pts) in enumerate(cases):
        perms = list(itertools.permutations(range(len(pts))))
        specs = [(p1, p2, 1.5, False, 1.0) for p1 in perms for p2 in perms]
        first = [(perms[0], perms[0], 1.5, False, 1.0),
                 (perms[1], perms[2], 1.5, True, 1.0),
                 (perms[-1], perms[0], 2.5, False, 0.5)]
        for spec in specs:
            for other in [None] + first:
                for saved in (True, False):
                    with acc.case(['match', ic, spec, other, saved]):
                        per.periodic_cache.clear()
                        if other is not None: call(fun, ax, pts, other, True)
                        call(fun, ax, pts, spec, saved)
                        acc.states += 1
                        acc.transitions += 1 + (other is not None)
                        acc.outcome(('match', ic))

def _run_grid(acc):
    """
    Periodic boxes with the library's matching functions: all subsets and
    orders of the directions, all field orders.
    """
    from sfepy.discrete import Function
    from sfepy.discrete.conditions import PeriodicBC, EssentialBC
    import sfepy.discrete.fem.periodic as per
    for mesh, dim in (('quad4', 2), ('hex2', 3), ('tri4', 2), ('hex4', 3)):
        for order in (1, 2, 3):
            if mesh == 'hex4' and order > 1:
                continue
            for ncomp in (1, dim):
                case = Case(mesh, ncomp=ncomp, order=order)
                var = case.vars[0]
                cc = case.domain.mesh.coors
                lo, hi = cc.min(0), cc.max(0)
                regs, funs = {}, {}
                names = 'xyz'[:dim]
                for ax, name in enumerate(names):
                    for side, val in (('0', lo[ax]), ('1', hi[ax])):
                        regs[name + side] = case.domain.create_region(
                            name + side, 'vertices in (%s < %g)'
                            % (name, lo[ax] + 0.1) if side == '0' else
                            'vertices in (%s > %g)' % (name, hi[ax] - 0.1),
                            'facet')
                funs['x'] = (per.match_y_line if dim == 2
                             else per.match_x_plane)
                funs['y'] = (per.match_x_line if dim == 2
                             else per.match_y_plane)
                if dim == 3:
                    funs['z'] = per.match_z_plane
                fc = case.field.get_coor()
                for num in range(1, dim + 1):
                    for axes in itertools.permutations(range(dim), num):
                        for flips in itertools.product((0, 1), repeat=num):
                            for efix in (None, 'x0', 'y1'):
                                ident = [mesh, order, ncomp, list(axes),
                                         list(flips), efix]
                                with acc.case(ident):
                                    _one_grid(case, var, regs, funs, names,
                                              fc, lo, hi, axes, flips, efix,
                                              ncomp, Function, PeriodicBC,
                                              EssentialBC)
                                    acc.outcome([mesh, order, ncomp,
                                                 var.eq_map.n_eq])

def _one_grid(case, var, regs, funs, names, fc, lo, hi, axes, flips, efix,
              ncomp, Function, PeriodicBC, EssentialBC):
    epbcs = []
    uf = UF()
    table = {tuple(nm.round(ff, 6)): ii for ii, ff in enumerate(fc)}
    for ii, (ax, flip) in enumerate(zip(axes, flips)):
        name = names[ax]
        rr = [regs[name + '0'], regs[name + '1']]
        if flip:
            rr = rr[::-1]
        epbcs.append(PeriodicBC('p%d' % ii, rr, {'u.all': 'u.all'},
                                Function('m', funs[name]),
                                key='epbc_%d' % ii))
        for key, jj in table.items():
            if abs(key[ax] - lo[ax]) < 1e-6:
                other = list(key)
                other[ax] = round(float(hi[ax]), 6)
                kk = table[tuple(other)]
                for ic in range(ncomp):
                    uf.join(jj * ncomp + ic, kk * ncomp + ic)
    fixed = {}
    ebcs = []
    if efix:
        ebcs = [EssentialBC('e', regs[efix], {'u.all': 2.5}, key='ebc_1')]
        ax = names.index(efix[0])
        val = (lo if efix[1] == '0' else hi)[ax]
        for jj, ff in enumerate(fc):
            if abs(ff[ax] - val) < 1e-6:
                for ic in range(ncomp):
                    fixed[jj * ncomp + ic] = 2.5
    _map(case, ebcs, epbcs)
    classes = {}
    for ii in range(var.n_dof):
        classes.setdefault(uf.find(ii), []).append(ii)
    verify(case, var, list(classes.values()), fixed)
