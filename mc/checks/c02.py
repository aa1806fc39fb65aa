"""
Dependency resolution: regions, block solves, homogenization requirements.
"""
import itertools

from mc import meshes, mpstub
from mc.core import require

PID = 'C02'
LEVEL = 'exploration'
RULE = ('All directed dependency graphs on up to n named definitions (n = 4 '
        'for region definitions with references and parents, equation blocks '
        'and homogenization requirements, including cycles, self references '
        'and missing names) and definition orders. Order, completeness and '
        'rejection are compared with a graph model; created regions with '
        'sets; block solutions with the monolithic solution. Non-trivial: the '
        'graph has at least one edge.')
ASSUMPTIONS = ['Block solutions are compared with relative tolerance 1e-8.']
BOUNDS = {'quick': 'n <= 3 for domains and problems, n <= 4 for graphs',
          'thorough': 'n <= 4 for all; 5 for region graphs with <= 5 edges'}

def prepare(tier):
    # No real processes are needed here.
    mpstub.install()

def digraphs(n, loops=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for mask in range(2**len(pairs)):
        yield [pp for ii, pp in enumerate(pairs) if mask >> ii & 1]

def reach(n, edges):
    rr = [[i == j for j in range(n)] for i in range(n)]
    for i, j in edges:
        rr[i][j] = True
    for k, i, j in itertools.product(range(n), repeat=3):
        rr[i][j] = rr[i][j] or (rr[i][k] and rr[k][j])
    return rr

def is_cyclic(n, edges):
    rr = reach(n, edges)
    return any(rr[j][i] for i, j in edges)

def sccs(n, edges):
    rr = reach(n, edges)
    return {frozenset(j for j in range(n) if rr[i][j] and rr[j][i])
            for i in range(n)}

NAMES = {
    # Prefixes of each other, dots, dashes: names have to be matched exactly.
    0: ['A', 'AB', 'A.B', 'B-1', 'B'],
    1: ['Omega_1', 'Omega', 'Omega_11', 'Gamma.1', 'Gamma'],
}

def run_regions(acc, n, part, n_part, names, parents, missing):
    from sfepy.discrete.fem import FEDomain
    from sfepy.base.base import Struct
    domain = FEDomain('domain', meshes.mesh('quad4'))
    top = meshes.ref_of_mesh(domain.mesh)
    ncell = 4
    pairs = [(i, j) for i in range(n) for j in range(n)]
    num = 0
    for edges in digraphs(n, loops=True):
        if n >= 4 and len(edges) > 6:
            continue
        num += 1
        if num % n_part != part:
            continue
        perms = (itertools.permutations(range(n)) if n <= 3
                 else [tuple(range(n)), tuple(range(n))[::-1],
                       (1, 3, 0, 2)])
        for perm in perms:
            ident = [list(map(list, edges)), list(perm)]
            with acc.case(ident, nontrivial=len(edges) > 0):
                defs = {}
                for ii in perm:
                    deps = [jj for kk, jj in edges if kk == ii]
                    sel = 'vertex ' + ', '.join(
                        str(jj) for jj in sorted(top.ents[2][ii % ncell]))
                    par = None
                    if parents and deps:
                        par = names[deps[-1]]
                        deps = deps[:-1]
                    for jj in deps:
                        sel += ' +v r.%s' % names[jj]
                    if missing == ii:
                        sel += ' +v r.%sx' % names[ii]
                    defs['region_%s' % names[ii]] = Struct(
                        name=names[ii], select=sel, kind='vertex', parent=par)
                bad = is_cyclic(n, edges) or missing is not None
                try:
                    regions = domain.create_regions(defs)
                except ValueError as exc:
                    require(bad, 'rejected: %s', exc)
                    acc.outcome('rejected')
                    continue
                require(not bad, 'cyclic or missing dependencies accepted')
                require(sorted(regions.get_names()) == sorted(names[:n]),
                        'regions defined: %s', regions.get_names())
                pos = {nn: ii for ii, nn in enumerate(regions.get_names())}
                for ii, jj in edges:
                    require(pos[names[jj]] < pos[names[ii]],
                            '%s defined before %s', names[ii], names[jj])
                def verts(ii):
                    out = set(top.ents[2][ii % ncell])
                    deps = [jj for kk, jj in edges if kk == ii]
                    if parents:
                        deps = deps[:-1]
                    for jj in deps:
                        out |= verts(jj)
                    return out
                for ii in range(n):
                    require(set(regions[names[ii]].vertices.tolist())
                            == verts(ii), 'vertices of %s', names[ii])
                acc.outcome(tuple(regions.get_names()))

def run_blocks(acc, n, part, n_part):
    """
    The resolution of equation dependencies.
    """
    from sfepy.base.resolve_deps import resolve
    num = 0
    for edges in digraphs(n, loops=False):
        num += 1
        if num % n_part != part:
            continue
        with acc.case([n, list(map(list, edges))],
                      nontrivial=len(edges) > 0):
            names = ['v%d' % ((7 * ii) % 5) for ii in range(n)]
            deps = {names[ii]: {names[ii]} | {names[jj] for kk, jj in edges
                                              if kk == ii}
                    for ii in range(n)}
            given = {key: set(val) for key, val in deps.items()}
            order = resolve(deps)
            require(deps == given, 'the input was modified')
            flat = [nn for block in order for nn in block]
            require(sorted(flat) == sorted(names),
                    'blocks %s do not cover the names once', order)
            done = set()
            for block in order:
                done.update(block)
                for nn in block:
                    require(given[nn] <= done, 'block %s of %s is solved '
                            'before its prerequisites', block, order)
            want = {frozenset(names[ii] for ii in cc)
                    for cc in sccs(n, edges)}
            require({frozenset(block) for block in order} == want,
                    'blocks %s, smallest possible %s', order, want)
            acc.outcome(repr(order))

def _problem(edges, n, block_solve):
    from sfepy.base.conf import ProblemConf
    from sfepy.discrete import Problem
    eqs = {}
    for ii in range(n):
        eq = 'dw_laplace.i.Omega(m%d.val, w%d, u%d)' % (ii, ii, ii)
        for kk, jj in edges:
            if kk == ii:
                eq += ' + %f * dw_dot.i.Omega(w%d, u%d)' % (0.3 + 0.1 * jj,
                                                             ii, jj)
        eqs['eq%d' % ii] = eq + ' = dw_volume_lvf.i.Omega(l%d.val, w%d)' % (
            ii, ii)
    variables = {}
    for ii in range(n):
        variables['u%d' % ii] = ('unknown field', 'f%d' % ii, ii)
        variables['w%d' % ii] = ('test field', 'f%d' % ii, 'u%d' % ii)
    mats = {'m%d' % ii: ({'val': 2.0 + ii},) for ii in range(n)}
    mats.update({'l%d' % ii: ({'val': 1.0 + 2 * ii},) for ii in range(n)})
    conf = {
        'filename_mesh': 'none.mesh',
        'regions': {'Omega': 'all', 'Left': ('vertices in x < 0.5', 'facet')},
        'fields': {'f%d' % ii: ('real', 1, 'Omega', 1) for ii in range(n)},
        'variables': variables,
        'integrals': {'i': 2},
        'materials': mats,
        'ebcs': {'e%d' % ii: ('Left', {'u%d.0' % ii: 0.5 * ii})
                 for ii in range(n)},
        'equations': eqs,
        'solvers': {'ls': ('ls.scipy_direct', {}),
                    'newton': ('nls.newton', {'i_max': 1, 'eps_a': 1e-10})},
        'options': {'nls': 'newton', 'ls': 'ls', 'block_solve': block_solve},
    }
    pconf = ProblemConf.from_dict(conf, None, verbose=False)
    pb = Problem('p', conf=pconf, domain=_domain(pconf), auto_conf=False)
    pb.set_fields(pconf.fields)
    pb.set_equations(pconf.equations)
    pb.set_conf_solvers(pconf.solvers, pconf.options)
    pb.set_bcs()
    return pb

def _domain(pconf):
    from sfepy.discrete.fem import FEDomain
    domain = FEDomain('domain', meshes.mesh('quad2'))
    domain.create_regions(pconf.regions)
    return domain

def run_solve(acc, n, part, n_part):
    import numpy as nm
    num = 0
    for edges in digraphs(n, loops=False):
        num += 1
        if num % n_part != part:
            continue
        with acc.case([n, list(map(list, edges))],
                      nontrivial=len(edges) > 0):
            p1 = _problem(edges, n, False)
            sol = p1.solve(save_results=False, verbose=False)
            full = sol.get_state_parts()
            p2 = _problem(edges, n, True)
            sol2 = p2.solve(save_results=False, verbose=False)
            parts = sol2.get_state_parts()
            require(sorted(parts) == sorted(full), 'names of solutions')
            for key, val in full.items():
                require(nm.allclose(parts[key], val, rtol=1e-8, atol=1e-10),
                        '%s: %s, monolithic solution %s', key, parts[key],
                        val)
            acc.outcome(repr({k: nm.round(v, 6).tolist()
                              for k, v in full.items()}))

def run_reqs(acc, n, part, n_part):
    """
    Homogenization requirements: graph on n names, nodes < nc are
    coefficients.
    """
    from sfepy.homogenization.engine import HomogenizationEngine as HE
    from sfepy.homogenization.engine import HomogenizationWorker as HW
    num = 0
    for edges in digraphs(n, loops=False):
        if len(edges) > 7:
            continue
        num += 1
        if num % n_part != part:
            continue
        for nc in range(1, n + 1):
            key = ['c.n%d' % ii if ii < nc else 'n%d' % ii for ii in range(n)]
            with acc.case([n, nc, list(map(list, edges))],
                          nontrivial=len(edges) > 0):
                coefs, reqs = {}, {}
                for ii in range(n):
                    info = {'requires': [key[jj] for kk, jj in edges
                                         if kk == ii]}
                    (coefs if ii < nc else reqs)['n%d' % ii] = info
                needed = set()
                rr = reach(n, edges)
                for ii in range(nc):
                    needed |= {jj for jj in range(n) if rr[ii][jj]}
                bad = any(rr[jj][ii] for ii, jj in edges if ii in needed)
                try:
                    names = HW.get_sorted_dependencies(reqs, coefs, None)
                except ValueError as exc:
                    require(bad, 'rejected: %s', exc)
                    acc.outcome('rejected')
                    continue
                require(not bad, 'circular requirements accepted')
                require(sorted(names) == sorted(key[ii] for ii in needed),
                        'to compute: %s, needed %s', names, needed)
                pos = {nn: ii for ii, nn in enumerate(names)}
                for ii, jj in edges:
                    if ii in needed:
                        require(pos[key[jj]] < pos[key[ii]],
                                '%s computed before its requirement %s',
                                key[ii], key[jj])
                acc.outcome(tuple(names))
                # A part of the coefficients only.
                for sel in range(nc):
                    names = HW.get_sorted_dependencies(
                        reqs, coefs, ['n%d' % sel])
                    want = {key[jj] for jj in range(n) if rr[sel][jj]}
                    require(sorted(names) == sorted(want),
                            'compute only %s: %s, needed %s', key[sel],
                            names, want)

def groups(tier):
    out = []
    for iname in (0, 1):
        for par in (0, 1):
            for n in (1, 2):
                out.append(['regions', n, 0, 1, iname, par, None])
            for ii in range(2):
                out.append(['regions', 3, ii, 2, iname, par, None])
    for miss in (0, 1, 2):
        out.append(['regions', 3, 0, 4, 0, 0, miss])
    if tier == 'thorough':
        for ii in range(16):
            out.append(['regions', 4, ii, 16, 0, ii % 2, None])
    for n in (1, 2, 3, 4):
        out.append(['blocks', n, 0, 1])
    out += [['solve', 2, 0, 1]] + [['solve', 3, ii, 4] for ii in range(4)]
    out += [['reqs', n, 0, 1] for n in (1, 2, 3)]
    out += [['reqs', 4, ii, 4] for ii in range(4)]
    if tier == 'thorough':
        out += [['solve', 4, ii, 64] for ii in range(64)]
    return out

def run(group, acc):
    what = group[0]
    if what == 'regions':
        _, n, part, n_part, iname, par, miss = group
        run_regions(acc, n, part, n_part, NAMES[iname], par, miss)
    elif what == 'blocks':
        run_blocks(acc, *group[1:])
    elif what == 'solve':
        run_solve(acc, *group[1:])
    else:
        run_reqs(acc, *group[1:])
