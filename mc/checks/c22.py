"""
C22: distribution of cells and DOFs to parallel tasks and parallel assembling.

MPI and PETSc are replaced by stubs: messages are queued, PETSc objects are
dense arrays that watch who sets what.
"""
import itertools

import numpy as nm

from mc import meshes
from mc.checks.c19 import _numbering
from mc.core import require, Mismatch

PID = 'C22'
LEVEL = 'exploration'
RULE = ('a case = a mesh, an assignment of tasks to its cells, fields and a'
        ' mode of assembling; distinct by these, all are non-trivial')
ASSUMPTIONS = ['MPI and PETSc are replaced by stubs: sends are buffered, a'
               ' matrix accepts values in preallocated entries only, indices'
               ' below zero are ignored in vectors',
               'cells sharing vertices are connected by facets; every task'
               ' has a cell',
               'columns of DOFs fixed by essential conditions are not judged,'
               ' states satisfy these conditions',
               'assembling without overlaps is judged without essential'
               ' boundary conditions']
BOUNDS = {
    'quick': 'all assignments of up to 3 tasks to cells of strips and blocks'
             ' of quadrilaterals, triangles, tetrahedra (6), wedges and'
             ' hexahedra, all of 2 tasks for 3 x 3 cells and all of 4 tasks for'
             ' 4 cells; fields of order 1 and 2, two fields; all of the'
             ' small ones assembled, with and without overlaps',
    'thorough': 'in addition all assignments of 3 tasks to 3 x 3 cells, of 2'
                ' tasks to 3 x 4 cells, all numberings of vertices',
}
LIMIT = 800

class Comm:
    """
    A communicator of one task with queued messages.
    """
    def __init__(self, rank, size, queues):
        self.rank, self.size, self.queues = rank, size, queues
        self.sizes = None

    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def tompi4py(self): return self

    def send(self, obj, dest):
        require(0 <= dest < self.size and dest != self.rank, 'destination')
        self.queues.setdefault((self.rank, dest), []).append(('obj', obj))

    def Send(self, buf, dest):
        arr, kind = buf
        require(kind == 'INTEGER4', 'kind of a message')
        arr = nm.asarray(arr)
        require(arr.dtype.itemsize == 4 and arr.dtype.kind in 'iu',
                '%s sent as integers of 4 bytes', arr.dtype)
        require(arr.flags.c_contiguous, 'not contiguous array sent')
        self.queues.setdefault((self.rank, dest), []).append(
            ('buf', arr.tobytes()))

    def recv(self, source):
        kind, obj = self.queues[(source, self.rank)].pop(0)
        require(kind == 'obj', 'order of messages')
        return obj

    def Recv(self, buf, source):
        arr, kind = buf
        require(kind == 'INTEGER4' and arr.dtype.itemsize == 4,
                'kind of a message')
        kind, data = self.queues[(source, self.rank)].pop(0)
        require(kind == 'buf', 'order of messages')
        require(len(data) == arr.nbytes, 'size of a message')
        arr.ravel()[:] = nm.frombuffer(data, dtype=arr.dtype)

    def range(self):
        offs = nm.cumsum([0] + [ss[0] for ss in self.sizes])
        return int(offs[self.rank]), int(offs[self.rank + 1])

class StubMPI:
    INTEGER4 = 'INTEGER4'

class Vec:
    class Option:
        IGNORE_NEGATIVE_INDICES = 'ign'
    option = Option

    def __init__(self):
        self.data, self.comm, self.shared = None, None, None
        self.opts = {}

    def create(self, comm=None):
        self.comm = comm
        return self

    def setSizes(self, size):
        require(self.comm == 'self', 'a local vector')
        self.data = nm.zeros(size)

    def setUp(self): pass
    def assemble(self): pass

    Option = Option

    def setOption(self, key, val):
        self.opts[key] = val

    def getOwnershipRange(self):
        return self.comm.range()

    def setValues(self, inds, vals, mode):
        inds, vals = nm.asarray(inds), nm.asarray(vals)
        require(inds.shape == vals.shape, 'sizes of indices and values')
        for ii, vv in zip(inds, vals):
            if ii < 0:
                require(self.opts.get('ign'), 'a negative index')
                continue
            self.shared.set(self.comm.rank, int(ii), vv, mode)

    def __getitem__(self, key):
        return self.data[key].copy()

    def __setitem__(self, key, val):
        self.data[key] = val

class Shared:
    """
    Values of a distributed object.
    """
    def __init__(self):
        self.vals, self.mode, self.who = {}, None, {}

    def set(self, rank, key, val, mode):
        require(self.mode in (None, mode), 'mixed modes')
        self.mode = mode
        if mode == 'add':
            self.vals[key] = self.vals.get(key, 0.0) + val
            return
        if key in self.vals and self.who[key] != rank:
            # The result would depend on the order of tasks.
            require(abs(self.vals[key] - val) < 1e-12 * (1 + abs(val)),
                    'tasks %d and %d set different values of %s',
                    self.who[key], rank, key)
        self.vals[key] = val
        self.who[key] = rank

class StubPETSc:
    """
    The used part of PETSc, `shared` are objects by the order of creation.
    """
    COMM_SELF = 'self'

    class InsertMode:
        INSERT = 'insert'
        INSERT_VALUES = 'insert'
        ADD_VALUES = 'add'

    class ScatterMode:
        REVERSE = 'reverse'
        FORWARD = 'forward'

    Vec = Vec

    class IS:
        def createGeneral(self, inds, comm=None):
            self.inds = nm.array(inds)
            return self

    class LGMap:
        def create(self, inds, comm=None):
            self.inds = nm.array(inds)
            return self

    class Scatter:
        def create(self, vec, isg, vec_i, is_i):
            require(is_i is None, 'scatter')
            self.inds = isg.inds
            return self

        def scatter(self, src, dst, mode, smode='forward'):
            if smode == 'forward':
                dst.data[:] = [src.shared.vals[int(ii)] for ii in self.inds]
            else:
                for ii, vv in zip(self.inds, src.data):
                    dst.shared.set(dst.comm.rank, int(ii), vv, mode)

    class Mat:
        def __init__(self):
            self.prealloc = None

        def create(self, comm):
            self.comm = comm
            self.shared = Shared()

        def setType(self, kind): pass
        def setUp(self): pass
        def assemble(self): pass

        def setSizes(self, sizes):
            require(tuple(sizes[0]) == tuple(self.comm.sizes[self.comm.rank])
                    and sizes[0] == sizes[1], 'sizes of a matrix')
            self.n_loc, self.n_all = sizes[0]

        def setPreallocationCSR(self, csr):
            indptr, indices = csr
            require(len(indptr) == self.n_loc + 1, 'preallocated rows')
            r0 = self.comm.range()[0]
            self.prealloc = set()
            for ir in range(self.n_loc):
                cols = indices[indptr[ir]:indptr[ir + 1]]
                self.prealloc.update((r0 + ir, int(ic)) for ic in cols)

        def getOwnershipRange(self):
            return self.comm.range()

        def getVecs(self):
            out = []
            for _ in range(2):
                vec = Vec()
                vec.comm = self.comm
                vec.shared = Shared()
                out.append(vec)
            return out

        def setLGMap(self, rmap, cmap):
            self.lg = rmap.inds

        def setValuesLocalCSR(self, indptr, indices, data, mode):
            rows = nm.repeat(nm.arange(len(indptr) - 1), nm.diff(indptr))
            for ir, ic, vv in zip(self.lg[rows], self.lg[indices], data):
                key = (int(ir), int(ic))
                if mode == 'insert':
                    r0, r1 = self.comm.range()
                    require(r0 <= ir < r1, 'a value in a row of another task')
                    require(self.prealloc is None or key in self.prealloc,
                            'entry %s not preallocated', key)
                self.shared.set(self.comm.rank, key, vv, mode)

class stubs:
    def __enter__(self):
        import sfepy.parallel.parallel as pl
        self.old = (pl, pl.PETSc, pl.MPI)
        pl.PETSc, pl.MPI = StubPETSc, StubMPI
        return pl

    def __exit__(self, *args):
        pl, pl.PETSc, pl.MPI = self.old

def grid(shape, kind='quad'):
    coors, conn = meshes._grid_conn([ss + 1 for ss in shape])
    if kind == 'tri':
        conn = nm.vstack([[cc[[0, 1, 2]], cc[[0, 2, 3]]] for cc in conn])
        return coors, [conn], ['2_3']
    return coors, [conn], ['2_4' if len(shape) == 2 else '3_8']

def mesh_data(name):
    if name == 'quad3x1': return grid((3, 1))
    if name == 'quad2x2': return grid((2, 2))
    if name == 'quad3x2': return grid((3, 2))
    if name == 'quad3x3': return grid((3, 3))
    if name == 'quad4x3': return grid((4, 3))
    if name == 'tri2x2': return grid((2, 2), 'tri')
    if name == 'hex2x2x1': return grid((2, 2, 1))
    if name == 'hex2x2x2': return grid((2, 2, 2))
    if name == 'two':
        coors, conns, descs = grid((2, 1))
        return (nm.vstack([coors, coors + [5, 0]]),
                [nm.vstack([conns[0], conns[0] + len(coors)])], descs)
    return meshes.data(name)

def make_mesh(name, num):
    from sfepy.discrete.fem import Mesh
    coors, conns, descs = mesh_data(name)
    coors = nm.array(coors, dtype=float)
    vp = _numbering(num, len(coors))
    cc = nm.empty_like(coors)
    cc[vp] = coors
    conns = [vp[nm.array(conn)].astype(nm.int32) for conn in conns]
    return Mesh.from_data('m', cc, None, conns,
                          [nm.zeros(len(conn), dtype=nm.int32)
                           for conn in conns], descs)

def tasks(n_cell, size):
    """
    All assignments of tasks, up to a restriction: cells of all tasks exist.
    """
    for tt in itertools.product(range(size), repeat=n_cell):
        if len(set(tt)) == size: yield tt

# Distribution.
def get_fields(mesh, spec):
    from sfepy.discrete.fem import FEDomain, Field
    domain = FEDomain('d', mesh)
    omega = domain.create_region('Omega', 'all')
    return domain, [Field.from_args('f%d' % ii, nm.float64, nc, omega,
                                    approx_order=order)
                    for ii, (nc, order) in enumerate(spec)]

def cell_nodes(field, expand):
    """
    DOFs in cells.
    """
    nc = field.n_components if expand else 1
    return [set((nc * nm.asarray(row)[:, None] + nm.arange(nc)).ravel()
                .tolist()) for row in field.econn]

def distribute(pl, fields, cell_tasks, size, overlap, expand):
    queues = {}
    comms = [Comm(rank, size, queues) for rank in range(size)]
    out = []
    for rank in range(size):
        out.append(pl.distribute_fields_dofs(
            fields, cell_tasks if rank == 0 else None, is_overlap=overlap,
            use_expand_dofs=expand, comm=comms[rank]))
    for key, queue in queues.items():
        require(not queue, 'messages from %d to %d not received', *key)
    return comms, out

def judge_distribution(pl, domain, fields, cell_tasks, size, overlap, expand,
                       out):
    n_cell = len(cell_tasks)
    gfds = out[0][1]
    require(len(gfds) == len(fields), 'fields')
    # Composite numbering: tasks, then fields.
    total = sum(ff.n_nod * (ff.n_components if expand else 1)
                for ff in fields)
    used = nm.zeros(total, dtype=int)
    last = 0
    ranges = [[lfd.petsc_dofs_range for lfd in out[rank][0]]
              for rank in range(size)]
    for rank in range(size):
        for ii in range(len(fields)):
            r0, r1 = ranges[rank][ii]
            require(r0 == last and r1 >= r0, 'range %s of task %d, field %d'
                    ' does not follow %d', (r0, r1), rank, ii, last)
            last = r1
    require(last == total, 'ranges end at %d, not %d', last, total)
    for ii, (field, gfd) in enumerate(zip(fields, gfds)):
        nodes = cell_nodes(field, expand)
        nc = field.n_components if expand else 1
        n_dof = field.n_nod * nc
        ids = nm.asarray(gfd.id_map)
        require(ids.shape == (n_dof,), 'size of the id map')
        nm.add.at(used, ids, 1)
        owner = nm.full(n_dof, -1)
        for rank in range(size):
            r0, r1 = ranges[rank][ii]
            owner[(ids >= r0) & (ids < r1)] = rank
        require((owner >= 0).all(), 'DOFs without an owner')
        parts = [nm.asarray(cc).tolist() for cc in gfd.cell_parts]
        for rank in range(size):
            require(sorted(parts[rank]) ==
                    [ic for ic in range(n_cell) if cell_tasks[ic] == rank],
                    'cells of task %d: %s', rank, parts[rank])
            lfd = out[rank][0][ii]
            cells = lfd.cells.tolist()
            require(len(set(cells)) == len(cells) and
                    set(cells) >= set(parts[rank]), 'local cells')
            if not overlap:
                require(set(cells) == set(parts[rank]),
                        'cells of other tasks without overlaps')
            conn = nm.asarray(lfd.petsc_dofs_conn)
            require(conn.shape[0] == len(cells), 'rows of local DOFs')
            for ir, ic in enumerate(cells):
                glob = field.econn[ic]
                if expand:
                    glob = (nc * glob[:, None] + nm.arange(nc)).ravel()
                require((conn[ir] == ids[glob]).all(), 'local DOFs of task %d'
                        ' in cell %d', rank, ic)
            own = set(nm.where(owner == rank)[0].tolist())
            mine = set().union(*[nodes[ic] for ic in parts[rank]])
            require(own <= mine, 'task %d owns DOFs out of its cells', rank)
            if overlap:
                for ic in range(n_cell):
                    if nodes[ic] & own:
                        require(ic in cells, 'task %d owning DOFs of cell %d'
                                ' does not have it', rank, ic)
        # DOF maps.
        vec = pl.verify_task_dof_maps(gfd.dof_maps, ids, field,
                                      use_expand_dofs=expand) \
            if len(fields) == 1 else None
        if vec is not None:
            require((vec == owner).all(), 'owners of DOFs')
    require((used == 1).all(), 'ids are not a permutation')

def judge_facets(pl, domain, cell_tasks):
    """
    Common facets of tasks.
    """
    got = pl.get_inter_facets(domain, cell_tasks)
    cmesh = domain.cmesh
    tdim = cmesh.tdim
    conn = cmesh.get_conn(tdim - 1, 0)
    facets = [frozenset(conn.indices[conn.offsets[ii]:conn.offsets[ii + 1]]
                        .tolist()) for ii in range(conn.num)]
    cc = cmesh.get_conn(tdim, 0)
    cells = [set(cc.indices[cc.offsets[ii]:cc.offsets[ii + 1]].tolist())
             for ii in range(cc.num)]
    ref = {}
    for ii, facet in enumerate(facets):
        tt = sorted({int(cell_tasks[ic]) for ic, vv in enumerate(cells)
                     if facet <= vv})
        if len(tt) == 2:
            for t0, t1 in (tt, tt[::-1]):
                ref.setdefault(t0, {}).setdefault(t1, set()).add(ii)
    got = {int(t0) : {int(t1) : set(int(ii) for ii in fs)
                      for t1, fs in nt.items()} for t0, nt in got.items()}
    require(got == ref, 'common facets %s, should be %s', got, ref)

# Parallel assembling.
def local_problem(domain, cells, spec, ebcs):
    from sfepy.discrete import (Equation, Equations, FieldVariable, Function,
                                Integral, Material, Problem)
    from sfepy.discrete.common.region import Region
    from sfepy.discrete.conditions import Conditions, EssentialBC
    from sfepy.discrete.fem import FEDomain, Field, Mesh
    from sfepy.terms import Term
    mesh = domain.mesh
    omega_g = Region.from_cells(nm.asarray(cells, dtype=nm.int32), domain)
    omega_g.finalize()
    omega_g.update_shape()
    mesh_i = Mesh.from_region(omega_g, mesh, localize=True)
    domain_i = FEDomain('di', mesh_i)
    omega = domain_i.create_region('Omega', 'all')
    x0 = mesh.coors[:, 0].min()
    gamma = domain_i.create_region('Gamma', 'vertices in (x < %.10f)'
                                   % (x0 + 1e-8), 'facet', allow_empty=True)
    dim = mesh.dim
    integral = Integral('i', order=4)
    us, vs = [], []
    for ii, (nc, order) in enumerate(spec):
        field = Field.from_args('f%d' % ii, nm.float64, nc, omega,
                                approx_order=order)
        us.append(FieldVariable('u%d' % ii, 'unknown', field, order=ii))
        vs.append(FieldVariable('v%d' % ii, 'test', field,
                                primary_var_name='u%d' % ii))
    def fun(ts, coors, mode=None, **kwargs):
        if mode != 'qp': return
        return {'val' : (1.0 + coors @ [1.0, 0.5, 0.25][:dim])[:, None, None]}
    mat = Material('m', function=Function('fun', fun))
    al = Material('al', al=nm.arange(1.0, dim * (dim + 1) // 2 + 1)[:, None])
    eqs = []
    for ii, (nc, order) in enumerate(spec):
        args = {'v%d' % ii : vs[ii], 'u%d' % ii : us[ii], 'm' : mat}
        term = Term.new('%s(m.val, v%d, u%d)'
                        % ('dw_laplace' if nc == 1 else 'dw_div_grad', ii,
                           ii), integral, omega, **args)
        t2 = Term.new('dw_dot(m.val, v%d, u%d)' % (ii, ii), integral, omega,
                      **args)
        eq = term + t2
        if ii == 1 or nc == 1:
            jj = 1 - ii
        if nc == dim and len(spec) > 1:
            eq = eq - Term.new('dw_biot(al.al, v0, u1)', integral, omega,
                               al=al, v0=vs[0], u1=us[1])
        elif len(spec) > 1:
            eq = eq + Term.new('dw_biot(al.al, u0, v1)', integral, omega,
                               al=al, u0=us[0], v1=vs[1])
        eqs.append(Equation('e%d' % ii, eq))
    bcs = []
    if ebcs:
        bcs.append(EssentialBC('e0', gamma, {'u0.all' : 0.5}))
    pb = Problem('p', equations=Equations(eqs), active_only=False)
    pb.time_update(ebcs=Conditions(bcs))
    pb.update_materials()
    return pb

def judge_assembling(pl, domain, fields, spec, size, overlap, ebcs, comms,
                     out):
    from sfepy.discrete.evaluate import Evaluator
    from sfepy.parallel.evaluate import PETScParallelEvaluator
    expand = True
    # Serial.
    key = (tuple(spec), ebcs)
    cache = domain.__dict__.setdefault('mc_serial', {})
    if key not in cache:
        pb = local_problem(domain, nm.arange(domain.mesh.n_el), spec, ebcs)
        vs = pb.get_initial_state()
        n_all = vs.di.n_dof_total
        vec = nm.cos(1.3 * nm.arange(n_all))
        vs.apply_ebc(vec)
        ev = Evaluator(pb)
        mtx = ev.eval_tangent_matrix(vec.copy(), is_full=True).toarray()
        res = ev.eval_residual(vec.copy(), is_full=True)
        own = [vs[ 'u%d' % ii].field.get_coor() for ii in range(len(spec))]
        for ii, field in enumerate(fields):
            require(nm.allclose(own[ii], field.get_coor()), 'reference nodes')
        # Columns of fixed DOFs do not matter, a task may not have the facet
        # of a fixed node of another task.
        fixed = nm.zeros(n_all, dtype=bool)
        for var in vs.iter_state():
            fixed[vs.di.indx[var.name].start + var.eq_map.eq_ebc] = True
        require(fixed.any() == ebcs, 'fixed DOFs')
        cache[key] = vec, mtx, res, fixed
    vec, mtx, res, fixed = cache[key]
    gfds = out[0][1]
    ids = nm.concatenate([nm.asarray(gfd.id_map).astype(int)
                          for gfd in gfds])
    state = Shared()
    for ii, vv in zip(ids, vec): state.vals[int(ii)] = vv
    # Local problems.
    data = []
    for rank in range(size):
        lfds = out[rank][0]
        for lfd in lfds[1:]:
            # Needed to have the same mesh for all the fields.
            require((lfd.cells == lfds[0].cells).all(), 'cells of fields')
        pb = local_problem(domain, lfds[0].cells, spec, ebcs)
        variables = pb.get_initial_state()
        sizes, drange, pdofs = pl.setup_composite_dofs(lfds, fields,
                                                       variables)
        require(len(pdofs) == variables.di.n_dof_total, 'local DOFs')
        data.append((pb, variables, sizes, drange, pdofs))
    sizes = [dd[2] for dd in data]
    smtx, srhs, ssol = Shared(), Shared(), Shared()
    for rank, (pb, variables, _, drange, pdofs) in enumerate(data):
        comm = comms[rank]
        comm.sizes = sizes
        pmtx, psol, prhs = pl.create_petsc_system(pb.mtx_a, sizes[rank],
                                                  pdofs, drange,
                                                  is_overlap=overlap,
                                                  comm=comm)
        pmtx.shared, prhs.shared = smtx, srhs
        psol.shared = state
        ev = PETScParallelEvaluator(pb, pdofs, drange, overlap, psol, comm)
        ev.eval_residual(None, psol, prhs)
        ev.eval_tangent_matrix(None, psol, pmtx, pmtx)
        # Values are gathered back.
        psol.shared = ssol
        ev.gather(psol, ev.psol_i)
    n_all = len(ids)
    got = nm.zeros((n_all, n_all))
    for (ir, ic), vv in smtx.vals.items(): got[ir, ic] = vv
    got = got[nm.ix_(ids, ids)]
    mask = ~fixed[None, :] | nm.eye(n_all, dtype=bool)
    err = (nm.abs(got - mtx) * mask).max()
    require(err < 1e-10 * nm.abs(mtx).max(), 'another matrix, error %s', err)
    rhs = nm.zeros(n_all)
    for ir, vv in srhs.vals.items(): rhs[ir] = vv
    err = nm.abs(rhs[ids] - res).max()
    require(err < 1e-10 * (1.0 + nm.abs(res).max()),
            'another residual, error %s', err)
    require(set(ssol.vals) == set(range(n_all)), 'values not gathered')

# Groups.
DIST = {
    'quick' : [('quad3x1', 3), ('quad2x2', 4), ('quad3x2', 3), ('quad3x3', 2),
               ('tri4', 4), ('tri2x2', 2),
               ('tet6', 3), ('hex2x2x1', 3), ('hex2', 2), ('wedge2', 2),
               ('two', 4)],
}
DIST['thorough'] = DIST['quick'] + [('quad3x3', 3), ('quad4x3', 2),
                                    ('tri2x2', 3), ('hex2x2x2', 2)]
ASM = {
    'quick' : [('quad3x1', 3), ('quad2x2', 3), ('tri4', 3), ('hex2', 2),
               ('two', 3), ('quad3x2', 2), ('hex2x2x1', 2), ('tet6', 2)],
}
ASM['thorough'] = ASM['quick'] + [('quad2x2', 4), ('quad3x2', 3),
                                  ('hex2x2x1', 4)]

def run_dist(acc, tier, mesh, size, num, part, n_part):
    with stubs() as pl:
        mm = make_mesh(mesh, num)
        dim = mm.dim
        specs = [[(1, 1)], [(1, 2)], [(dim, 2), (1, 1)]]
        if dim == 3 and tier == 'quick': specs = specs[:1] + specs[2:]
        mixed = len(mm.descs) > 1
        if mixed or mm.descs[0] == '3_6':
            specs = [[(1, 1)], [(dim, 1), (1, 1)]]
        doms = [get_fields(mm, spec) for spec in specs]
        for it, tt in enumerate(tasks(mm.n_el, size)):
            if it % n_part != part: continue
            ct = nm.array(tt, dtype=nm.int32)
            with acc.case(['facets', mesh, num, tt]):
                judge_facets(pl, doms[0][0], ct)
            for spec, (domain, fields) in zip(specs, doms):
                expand = len(spec) > 1
                overlap = it % 2 == 0 or tier == 'thorough'
                with acc.case(['dist', mesh, num, tt, spec]):
                    _, out = distribute(pl, fields, ct, size, True, expand)
                    judge_distribution(pl, domain, fields, ct, size, True,
                                       expand, out)
                    require(all(rr.name[:5] != 'task_' for rr in
                                domain.regions),
                            'regions of tasks left in the domain')
                    acc.states += size
                    acc.transitions += len(tt)
                acc.outcome((mesh, size, len(spec)))
                if spec == specs[0]:
                    with acc.case(['dist', mesh, num, tt, spec, 'nov']):
                        _, out = distribute(pl, fields, ct, size, False,
                                            not expand)
                        judge_distribution(pl, domain, fields, ct, size,
                                           False, not expand, out)

def run_asm(acc, tier, mesh, size, part, n_part):
    with stubs() as pl:
        mm = make_mesh(mesh, 'm3')
        dim = mm.dim
        o2 = 1 if len(mm.descs) > 1 or dim == 3 else 2
        specs = [[(dim, o2), (1, 1)]]
        if dim == 2: specs.append([(1, 1)])
        doms = [get_fields(mm, spec) for spec in specs]
        for it, tt in enumerate(tasks(mm.n_el, size)):
            if it % n_part != part: continue
            ct = nm.array(tt, dtype=nm.int32)
            for spec, (domain, fields) in zip(specs, doms):
                for overlap, ebcs in ((True, True), (True, False),
                                      (False, False)):
                    if (overlap and not ebcs and tier == 'quick'): continue
                    with acc.case(['asm', mesh, tt, spec, overlap, ebcs]):
                        comms, out = distribute(pl, fields, ct, size, overlap,
                                                True)
                        judge_assembling(pl, domain, fields, spec, size,
                                         overlap, ebcs, comms, out)
                        acc.outcome((mesh, size, overlap))
                        acc.states += size

def run_parts(acc, tier):
    """
    Partitioning of meshes.
    """
    import sfepy.parallel.parallel as pl
    for mesh in ('quad3x3', 'tri2x2', 'tet6', 'hex2x2x1', 'two'):
        mm = make_mesh(mesh, 'id')
        for n_parts in range(1, mm.n_el + 1):
            with acc.case(['parts', mesh, n_parts]):
                out = pl.partition_mesh(mm, n_parts, use_metis=False)
                require(len(out) == mm.n_el, 'cells')
                counts = nm.bincount(out, minlength=n_parts)
                require(len(counts) == n_parts and
                        counts.max() - counts.min() <= 1, 'counts %s', counts)
                require((nm.diff(out) >= 0).all(), 'parts in order')
                if n_parts == 1:
                    with stubs() as pl2:
                        domain, fields = get_fields(mm, [(1, 1)])
                        ct = nm.asarray(out, dtype=nm.int32)
                        _, out = distribute(pl2, fields, ct, 1, True, False)
                        judge_distribution(pl2, domain, fields, ct, 1, True,
                                           False, out)
            with acc.case(['expand', mesh, n_parts]):
                dofs = nm.arange(mm.n_el, dtype=nm.int32)[::-1]
                if mm.n_el % n_parts == 0:
                    dofs = dofs.reshape((-1, n_parts))
                for nc in (1, 2, 3):
                    out = pl.expand_dofs(dofs, nc)
                    ref = (nc * dofs[..., None] + nm.arange(nc))
                    ref = ref.reshape(dofs.shape[:-1] + (-1,))
                    require(out.shape == ref.shape and (out == ref).all(),
                            'expanded DOFs')

def groups(tier):
    out = [['parts', tier]]
    for mesh, max_size in DIST[tier]:
        for size in range(2, max_size + 1):
            n_cell = sum(len(cc) for cc in mesh_data(mesh)[1])
            if size > n_cell: continue
            num = size ** n_cell
            n_part = 8 if num > 600 else 4 if num > 200 else \
                2 if num > 60 else 1
            nums = ('m3',) if tier == 'quick' else ('id', 'rev', 'm3')
            for nn in nums:
                out += [['dist', tier, mesh, size, nn, part, n_part]
                        for part in range(n_part)]
    for mesh, max_size in ASM[tier]:
        n_cell = sum(len(cc) for cc in mesh_data(mesh)[1])
        for size in range(2, min(max_size, n_cell) + 1):
            n_part = 4 if size ** n_cell > 30 else 2
            out += [['asm', tier, mesh, size, part, n_part]
                    for part in range(n_part)]
    return out

RUNS = {'dist' : run_dist, 'asm' : run_asm, 'parts' : run_parts}

def run(group, acc):
    from sfepy.base.base import output
    output.set_output(quiet=True)
    RUNS[group[0]](acc, *group[1:])
