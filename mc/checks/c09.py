"""
C09: mesh and results files.
"""
import itertools
import os
import shutil
import tempfile

import numpy as nm

from mc.core import require, Skip

PID = 'C09'
LEVEL = 'exploration'
RULE = ('a case = a mesh (blocks of cells in an order, material ids, node'
        ' groups) and a file format, a pair of formats, results data to be'
        ' saved, or a sequence of saved time steps; written and read back and'
        ' compared with the written data; non-trivial if the format supports'
        ' the mesh; distinct by the mesh, format and data')
ASSUMPTIONS = ['formats needing h5py or netCDF4 (not installed): cgns, exodus,'
               ' h5m, med, xdmf are not explored',
               'data that a format cannot represent are not compared: groups'
               ' in mdpa, su2, xyz, the space dimension of 2D meshes in'
               ' nastran, gmsh, mdpa and hdf5-xdmf; the order of blocks of'
               ' cells of different types is not compared']
BOUNDS = {
    'quick': 'meshes with up to 5 cells: all sequences of up to three blocks'
             ' of cells of different types with 1 or 2 cells, all assignments'
             ' of two material ids, all pairs of formats, all subsets of 5'
             ' time steps',
    'thorough': 'three material ids, all node groups of 3 nodes',
}
LIMIT = 300
PRELOAD = ('sfepy.discrete.fem', 'sfepy.solvers.ts')

XX = {
    1: [[-0.1], [1.0 / 3.0], [2.5], [1e3]],
    2: [[0.1, -0.2], [1.0 / 3.0, 0.0], [2.0, 1e-7], [0.0, 1.0],
        [1.25, 1.5 + 1e-9], [2.5, 1.125], [0.5, 12.0]],
    3: [[x + 0.1 * y + 0.03 * z, y - 1.0 / 3.0 * z, 1.5 * z - 1e-6 * x]
        for z in range(2) for y in range(2) for x in range(3)]
       + [[0.5, 0.5, 123.456]],
}
CELLS = {
    1: {'1_2' : [[0, 1], [1, 2], [3, 2]]},
    2: {'2_4' : [[0, 1, 4, 3], [1, 2, 5, 4]], '2_3' : [[3, 4, 6], [4, 5, 6]],
        '1_2' : [[0, 1], [6, 4], [2, 5], [3, 6]]},
    3: {'3_8' : [[0, 1, 4, 3, 6, 7, 10, 9], [1, 2, 5, 4, 7, 8, 11, 10]],
        '3_4' : [[6, 7, 9, 12], [0, 1, 3, 6]],
        '3_6' : [[1, 2, 4, 7, 8, 10], [2, 5, 4, 8, 11, 10]],
        '2_4' : [[0, 1, 4, 3], [1, 2, 5, 4]], '2_3' : [[6, 7, 12], [0, 1, 3]],
        '1_2' : [[0, 1], [6, 9], [12, 8], [9, 10], [3, 4]]},
}

# Formats: everything is kept.
FULL = ['medit', 'vtk', 'vtk-binary', 'vtk-ascii', 'vtu', 'hdf5', 'abaqus',
        'nastran', 'gmsh', 'hdf5-xdmf']
# Formats without groups.
CONN = ['mdpa', 'su2', 'xyz', 'gmsh-dg']
EXT = {'medit' : '.mesh', 'vtk' : '.vtk', 'vtk-binary' : '.vtk',
       'vtk-ascii' : '.vtk', 'vtu' : '.vtu', 'hdf5' : '.h5',
       'abaqus' : '.inp', 'nastran' : '.bdf', 'gmsh' : '.msh',
       'hdf5-xdmf' : '.h5x', 'mdpa' : '.mdpa', 'su2' : '.su2', 'xyz' : '.xyz',
       'gmsh-dg' : '.msh'}
# Read formats.
RFMT = {'vtk-binary' : 'vtk', 'vtk-ascii' : 'vtk', 'gmsh-dg' : 'gmsh'}

def supports(fmt, dim, descs):
    tops = [dd for dd in descs if int(dd[0]) == dim]
    if dim == 1:
        return fmt in ('medit', 'vtk', 'vtk-binary', 'vtk-ascii', 'vtu',
                       'hdf5', 'abaqus')
    if fmt in ('gmsh', 'gmsh-dg', 'xyz'):
        return len(descs) == 1
    if fmt == 'su2':
        return len(descs) == len(tops)
    return True

def dim_kept(fmt, dim):
    return (dim == 3) or fmt not in ('nastran', 'gmsh', 'gmsh-dg', 'mdpa',
                                     'hdf5-xdmf')

class Data:
    """The data of a mesh."""
    def __init__(self, dim, blocks, ngroups, simple=False):
        self.dim = dim
        self.coors = nm.array(XX[dim])
        if simple:
            # A limited number of digits.
            self.coors = nm.round(self.coors, 2)
        self.ngroups = nm.array(ngroups, dtype=nm.int32)
        self.blocks = blocks # (desc, conn, mat ids)

    def mesh(self, name='m', nodal_bcs=None):
        from sfepy.discrete.fem import Mesh
        return Mesh.from_data(
            name, self.coors, self.ngroups,
            [nm.array(conn, dtype=nm.int32) for _, conn, _ in self.blocks],
            [nm.array(mat, dtype=nm.int32) for _, _, mat in self.blocks],
            [desc for desc, _, _ in self.blocks], nodal_bcs=nodal_bcs)

    def only_top(self):
        return Data(self.dim, [block for block in self.blocks
                               if int(block[0][0]) == self.dim], self.ngroups,
                    (self.coors != XX[self.dim]).any())

def compare(mesh, data, groups=True, dim=True, tol=1e-12):
    """
    Compare a mesh with the data.
    """
    coors, ngroups, conns, mats, descs = mesh._get_io_data()
    require(mesh.coors is coors or nm.array_equal(mesh.coors, coors), 'coors')
    xx = data.coors
    if dim:
        require((mesh.dim == data.dim) and (coors.shape == xx.shape),
                'dimension: %s instead of %s', coors.shape, xx.shape)
    else:
        require(coors.shape == (xx.shape[0], 3), 'shape %s', coors.shape)
        require((coors[:, xx.shape[1]:] == 0).all(), 'zero coordinates')
        coors = coors[:, :xx.shape[1]]
    require((nm.abs(coors - xx) <= tol * (1.0 + nm.abs(xx))).all(),
            'coordinates %s instead of %s', coors.tolist(), xx.tolist())
    got = {desc : (conn.tolist(), mat.tolist())
           for desc, conn, mat in zip(descs, conns, mats)}
    ref = {desc : (conn, list(mat)) for desc, conn, mat in data.blocks}
    require(len(descs) == len(set(descs)), 'repeated cell types %s', descs)
    require(set(got) == set(ref), 'cell types %s instead of %s', sorted(got),
            sorted(ref))
    for key in ref:
        require(got[key][0] == ref[key][0], 'cells %s: %s instead of %s', key,
                got[key][0], ref[key][0])
        if groups:
            require(got[key][1] == ref[key][1],
                    'material ids of %s: %s instead of %s', key, got[key][1],
                    ref[key][1])
    n_el = sum(len(block[1]) for block in data.blocks)
    require(mesh.n_nod == len(xx) and mesh.n_el == n_el, 'shape info: %s %s',
            mesh.n_nod, mesh.n_el)
    if groups:
        require(ngroups.tolist() == data.ngroups.tolist(),
                'node groups %s instead of %s', ngroups.tolist(),
                data.ngroups.tolist())

def write(mesh, fname, fmt, **kwargs):
    from sfepy.discrete.fem.meshio import MeshIO
    if fmt in ('vtk-binary', 'vtk-ascii', 'gmsh-dg'):
        mesh.write(fname, file_format=fmt, **kwargs)
    else:
        mesh.write(fname, **kwargs)

def read(fname, fmt, **kwargs):
    from sfepy.discrete.fem import Mesh
    return Mesh.from_file(fname, **kwargs)

def supports_ids(fmt, data):
    """
    The same set in several blocks is not read by meshio from abaqus files.
    """
    if fmt != 'abaqus':
        return True
    ids = [set(mat) for _, _, mat in data.blocks]
    return sum(map(len, ids)) == len(set().union(*ids))

def tol_of(fmt):
    return {'nastran' : 1e-7, 'gmsh' : 1e-12}.get(fmt, 1e-12)

def check_file(fname, fmt, data):
    from sfepy.discrete.fem.meshio import MeshIO
    mesh = read(fname, fmt)
    groups = fmt in FULL
    dim = dim_kept(fmt, data.dim)
    compare(mesh, data, groups, dim, tol_of(fmt))
    io = MeshIO.any_from_filename(fname)
    require(int(io.read_dimension()) == mesh.dim, 'read_dimension')
    bbox = io.read_bounding_box()
    require(nm.array_equal(bbox, mesh.get_bounding_box()),
            'read_bounding_box: %s', bbox)
    bbox, dd = io.read_bounding_box(ret_dim=True)
    require((int(dd) == mesh.dim)
            and nm.array_equal(bbox, mesh.get_bounding_box()),
            'read_bounding_box with ret_dim')
    return mesh

class Tmp:
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='c09_')
        self.n = 0

    def name(self, fmt):
        self.n += 1
        return os.path.join(self.path, 'f%d%s' % (self.n, EXT[fmt]))

    def clean(self):
        for name in os.listdir(self.path):
            os.remove(os.path.join(self.path, name))

    def close(self):
        shutil.rmtree(self.path)

##
# Meshes.

def families(dim, descs_max=3):
    """
    Orders of blocks of cells, with a cell of the top dimension.
    """
    names = list(CELLS[dim])
    for num in range(1, min(descs_max, len(names)) + 1):
        for perm in itertools.permutations(names, num):
            if not any(int(dd[0]) == dim for dd in perm): continue
            # The blocks of cells with lower dimensions only at three places.
            yield perm

def assignments(perm, sizes, values):
    num = sum(sizes)
    for mats in itertools.product(values, repeat=num):
        out, off = [], 0
        for nn in sizes:
            out.append(mats[off:off+nn])
            off += nn
        yield out

def datas(dim, perm, values, n_ng, simple=False):
    for sizes in itertools.product((1, 2), repeat=len(perm)):
        many = sum(sizes) > 3
        for im, mats in enumerate(assignments(perm, sizes, values)):
            if many and (im % 7): continue
            n_nod = len(XX[dim])
            # Node groups: all for the first nodes.
            ngs = list(itertools.product((0, 2), repeat=n_ng))
            ngs = [ngs[im % len(ngs)]]
            for ng in ngs:
                ngroups = [ng[ii % n_ng] if ii < n_ng else (ii * im) % 3
                           for ii in range(n_nod)]
                yield (sizes, im), Data(
                    dim, [(desc, CELLS[dim][desc][:nn], mat)
                          for desc, nn, mat in zip(perm, sizes, mats)],
                    ngroups, simple)

def _mesh(acc, dim, perm, fmt, values):
    tmp = Tmp()
    if not supports(fmt, dim, perm):
        with acc.case(['none']):
            raise Skip
        return
    try:
        for ident, data in datas(dim, perm, values, 3, fmt == 'nastran'):
            with acc.case(ident):
                if not supports_ids(fmt, data): raise Skip
                fname = tmp.name(fmt)
                mesh = data.mesh()
                compare(mesh, data)
                write(mesh, fname, fmt)
                # Writing does not change the mesh.
                compare(mesh, data)
                check_file(fname, fmt, data)
                acc.outcome([fmt, [block[2] for block in data.blocks]])
            acc.transitions += 2
            tmp.clean()
    finally:
        tmp.close()

def _chain(acc, dim, fmt1):
    """
    Files converted to other formats.
    """
    tmp = Tmp()
    try:
        for perm in families(dim, 2):
            if not supports(fmt1, dim, perm): continue
            for fmt2 in FULL:
                _, data = list(datas(dim, perm, (1, 4), 3,
                                     'nastran' in (fmt1, fmt2)))[-2]
                if not supports(fmt2, dim, perm): continue
                if not dim_kept(fmt1, dim): continue
                if not supports_ids('abaqus', data):
                    # Numbered by blocks.
                    data.blocks = [(dd, conn, [100 * ib + ii for ii in mat])
                                   for ib, (dd, conn, mat)
                                   in enumerate(data.blocks)]
                with acc.case([perm, fmt2]):
                    f1, f2 = tmp.name(fmt1), tmp.name(fmt2)
                    write(data.mesh(), f1, fmt1)
                    mesh = check_file(f1, fmt1, data)
                    write(mesh, f2, fmt2)
                    if tol_of(fmt1) > 1e-10:
                        compare(read(f2, fmt2), data, True,
                                dim_kept(fmt2, dim), 1e-6)
                    else:
                        check_file(f2, fmt2, data)
                acc.transitions += 4
                tmp.clean()
    finally:
        tmp.close()

def _omit(acc, dim, fmt):
    """
    Cells of lower dimensions omitted.
    """
    tmp = Tmp()
    try:
        for perm in families(dim):
            if not supports(fmt, dim, perm): continue
            for ident, data in datas(dim, perm, (1, 5), 2,
                                     fmt == 'nastran'):
                if not all(len(mm) == 2 for _, _, mm in data.blocks): continue
                with acc.case([perm, ident]):
                    if not supports_ids(fmt, data): raise Skip
                    fname = tmp.name(fmt)
                    write(data.mesh(), fname, fmt)
                    mesh = read(fname, fmt, omit_facets=True)
                    compare(mesh, data.only_top(), True, dim_kept(fmt, dim),
                            tol_of(fmt))
                acc.transitions += 1
                tmp.clean()
    finally:
        tmp.close()

def _copies(acc, dim):
    """
    Copies and pickles of meshes.
    """
    import pickle
    from sfepy.discrete.fem import Mesh
    from sfepy.discrete.fem.meshio import HDF5MeshIO
    tmp = Tmp()
    try:
        for perm in families(dim, 2):
            for ident, data in datas(dim, perm, (1, 5), 2):
                with acc.case([perm, ident]):
                    sets = {'a' : nm.array([1, 0], dtype=nm.int32),
                            'b' : nm.array([2], dtype=nm.int32)}
                    mesh = data.mesh(nodal_bcs=sets)
                    m1 = pickle.loads(pickle.dumps(mesh))
                    compare(m1, data)
                    m2 = mesh.copy(name='other')
                    compare(m2, data)
                    require(m2.name == 'other', 'name')
                    m2.coors[:] += 1.0
                    compare(mesh, data)
                    # User functions and instances.
                    m3 = Mesh.from_file(mesh)
                    require(m3 is mesh, 'from_file of a mesh')
                    def fun(mm, mode):
                        if mode == 'read':
                            return data.mesh('user')
                    m4 = Mesh.from_file(fun)
                    compare(m4, data)
                    # HDF5 files with node sets.
                    fname = tmp.name('hdf5')
                    mesh.write(fname)
                    m5 = Mesh.from_file(fname)
                    require({key : val.tolist() for key, val in
                             m5.nodal_bcs.items()}
                            == {key : val.tolist() for key, val in
                                sets.items()}, 'node sets %s', m5.nodal_bcs)
                    f2 = tmp.name('hdf5')
                    HDF5MeshIO.write_mesh_to_hdf5(f2, '/some/path', mesh)
                    m6 = HDF5MeshIO.read_mesh_from_hdf5(f2, '/some/path')
                    compare(m6, data)
                    require(m6.name == 'm', 'mesh name %s', m6.name)
                acc.transitions += 5
                tmp.clean()
    finally:
        tmp.close()

##
# Results.

def _values(num, ncomp, seed):
    return (nm.arange(num * ncomp, dtype=nm.float64) * (1.0 / 3.0)
            + 10.0 * seed - 2.5).reshape((num, ncomp))

def _data(acc, dim, fmt):
    """
    Vertex and cell data.
    """
    from sfepy.base.base import Struct
    from sfepy.discrete.fem.meshio import MeshIO
    tmp = Tmp()
    tops = [dd for dd in CELLS[dim] if int(dd[0]) == dim]
    perms = [perm for perm in families(dim, 2)
             if supports(fmt, dim, perm)]
    sizes = {2 : (1, 2, 3, 4), 3 : (1, 3, 6, 9), 1 : (1,)}[dim]
    is_h5 = fmt.startswith('hdf5')
    try:
        for perm in perms:
            data = Data(dim, [(desc, CELLS[dim][desc],
                               [1 + ii for ii in range(len(CELLS[dim][desc]))])
                              for desc in perm], [0, 1] * (len(XX[dim]) // 2)
                        + [0] * (len(XX[dim]) % 2))
            for nv, nc in itertools.product((0,) + sizes, repeat=2):
                if nv and nc and (nv != nc): continue
                with acc.case([perm, nv, nc]):
                    if not (nv or nc): raise Skip
                    # Data of mixed topologies cannot be described in XDMF.
                    if fmt == 'hdf5-xdmf' and any(int(dd[0]) < dim
                                                  for dd in perm): raise Skip
                    mesh = data.mesh()
                    n_nod = mesh.coors.shape[0]
                    n_el = mesh.cmesh.n_el
                    out = {}
                    if nv:
                        out['v'] = Struct(name='output_data', mode='vertex',
                                          data=_values(n_nod, nv, 1))
                    if nc:
                        out['c'] = Struct(
                            name='output_data', mode='cell',
                            data=_values(n_el, nc, 2)[:, None, :, None])
                    ref = {key : val.data.copy() for key, val in out.items()}
                    fname = tmp.name(fmt)
                    write(mesh, fname, fmt, out=out)
                    for key, val in ref.items():
                        require(nm.array_equal(val, out[key].data),
                                'data changed')
                    if fmt != 'gmsh-dg':
                        check_file(fname, fmt, data)
                    io = MeshIO.any_from_filename(fname)
                    rout = io.read_data(0)
                    for key, val in ref.items():
                        require(key in rout, 'no data %s', key)
                        rval = rout[key]
                        require(rval.mode == {'v' : 'vertex',
                                              'c' : 'cell'}[key], 'mode')
                        check_values(rval.data, val, dim, fmt, key, mesh, data)
                acc.transitions += 1
                tmp.clean()
    finally:
        tmp.close()

def check_values(got, ref, dim, fmt, key, mesh, data):
    ncomp = ref.shape[1] if key == 'v' else ref.shape[2]
    if fmt == 'hdf5':
        require(nm.array_equal(got, ref), 'data %s: %s instead of %s', key,
                got.tolist(), ref.tolist())
        return
    if key == 'c':
        ref = ref[:, 0, :, 0]
    if fmt == 'hdf5-xdmf':
        if key == 'c':
            got = got.reshape((ref.shape[0], -1))
        if (dim == 2) and (ncomp > 1):
            cols = {2 : (0, 1), 3 : (0, 1, 3), 4 : (0, 1, 3, 4)}[ncomp]
            full = nm.zeros((len(ref), {2 : 3, 3 : 6, 4 : 9}[ncomp]))
            full[:, cols] = ref
            ref = full
        require(nm.array_equal(got, ref), 'data %s: %s instead of %s', key,
                got.tolist(), ref.tolist())
        return
    if key == 'c':
        # All the cells, not the facets, in the order of the mesh.
        require(len(got) == mesh.cmesh.n_el, 'data of %d cells', len(got))
    got = got.reshape((got.shape[0], -1))
    if ncomp == 3 and dim == 2:
        # A vector extended to 3D.
        ref = ref[:, :2]
    elif (ncomp == 2) and (dim == 2):
        got = got[:, :2]
    require(got.shape == ref.shape, 'data %s: shape %s instead of %s', key,
            got.shape, ref.shape)
    require(nm.allclose(got, ref, rtol=1e-12, atol=0), 'data %s: %s instead'
            ' of %s', key, got.tolist(), ref.tolist())

##
# Time steps.

def _steps(acc, fmt, first):
    """
    All sequences of increasing saved steps of several data.
    """
    from sfepy.base.base import Struct
    from sfepy.solvers.ts import TimeStepper
    from sfepy.discrete.fem.meshio import MeshIO
    tmp = Tmp()
    data = Data(2, [('2_4', CELLS[2]['2_4'], [1, 2])], [0] * 7)
    names = ['u', 'p q', 'cell:1']
    try:
        for n_step in (1, 2, 5, 12):
            for steps in _increasing(n_step, first):
                for dt in (0.25, 1.5) if n_step < 12 else (0.1,):
                    with acc.case([n_step, steps, dt]):
                        ts = TimeStepper(0.5, 0.5 + (n_step - 1) * dt if
                                         n_step > 1 else 0.5 + dt,
                                         dt=None, n_step=n_step)
                        mesh = data.mesh()
                        fname = tmp.name(fmt)
                        saved = {}
                        for step in steps:
                            ts.set_step(step)
                            out = {}
                            for ii, name in enumerate(names):
                                mode = 'cell' if ii == 2 else 'vertex'
                                num = 2 if ii == 2 else 7
                                vals = _values(num, 1 + ii % 2,
                                               10 * step + ii)
                                if mode == 'cell':
                                    vals = vals[:, None, :, None]
                                out[name] = Struct(
                                    name='n%d' % ii, mode=mode, data=vals,
                                    var_name='x%d' % ii,
                                    dofs=['d%d' % ic for ic in
                                          range(1 + ii % 2)],
                                    shape=vals.shape)
                            saved[step] = (out, ts.time, ts.nt)
                            mesh.write(fname, out=out, ts=ts)
                        # The shorter sequences are other cases.
                        _check_steps(fname, fmt, data, ts, saved, names)
                        acc.traces += 1
                    acc.transitions += len(steps)
                    tmp.clean()
    finally:
        tmp.close()

def _increasing(n_step, first):
    items = list(range(1, n_step))
    if n_step > 6:
        items = [1, 2, 9, 10, 11]
    for num in range(len(items) + 1):
        for sub in itertools.combinations(items, num):
            # With or without the initial step.
            steps = ([0] if first else []) + list(sub)
            if steps:
                yield steps

def _check_steps(fname, fmt, data, ts, saved, names):
    from sfepy.discrete.fem.meshio import MeshIO
    io = MeshIO.any_from_filename(fname)
    compare(read(fname, fmt), data, True, fmt == 'hdf5')
    steps = sorted(saved)
    require(int(io.read_last_step()) == steps[-1], 'last step %s',
            io.read_last_step())
    ss, tt, nn = io.read_times()
    require(ss.tolist() == steps, 'steps %s', ss)
    require(tt.tolist() == [saved[step][1] for step in steps], 'times %s', tt)
    require(nn.tolist() == [saved[step][2] for step in steps], 'nts %s', nn)
    t0, t1, dt, n_step = io.read_time_stepper()
    require((t0, t1, dt, n_step) == (ts.t0, ts.t1, ts.dt, ts.n_step),
            'time stepper')
    for step in steps + [None]:
        rout = io.read_data(step)
        out = saved[steps[0] if step is None else step][0]
        require(sorted(rout) == sorted(out), 'names %s', sorted(rout))
        for key, val in out.items():
            rval = rout[key]
            if fmt == 'hdf5':
                require(nm.array_equal(rval.data, val.data),
                        'data of %s in step %s', key, step)
            require((rval.name == val.name) and (rval.mode == val.mode)
                    and (list(rval.dofs) == list(val.dofs))
                    and (tuple(rval.shape) == tuple(val.shape)),
                    'description of %s', key)
            mode, name = io.read_data_header(key, step=step)
            require(mode == val.mode, 'header mode')
    require(io.read_data(77) is None, 'data of a missing step')
    if fmt == 'hdf5':
        mode, name = io.read_data_header('u', step=steps[0])
        th = io.read_time_history(name, [0, 3])
        for ii in (0, 3):
            ref = [saved[step][0]['u'].data[ii] for step in steps]
            require(nm.array_equal(th[ii], ref), 'history %s', th[ii])
        mode, name = io.read_data_header('cell:1', step=steps[0])
        th = io.read_time_history(name, [1])
        ref = [saved[step][0]['cell:1'].data[1, 0, :, 0] for step in steps]
        require(nm.array_equal(th[1], ref), 'cell history %s', th[1])
        if steps == list(range(ts.n_step)):
            ths = io.read_variables_time_history(names, ts)
            for key in names:
                ref = [saved[step][0][key].data for step in steps]
                require(nm.array_equal(ths[key], ref), 'history of %s', key)

def _overwrite(acc, first):
    """
    A saved step cannot be overwritten, the initial step starts a new file.
    """
    from sfepy.base.base import Struct
    from sfepy.solvers.ts import TimeStepper
    from sfepy.discrete.fem.meshio import MeshIO
    tmp = Tmp()
    data = Data(2, [('2_4', CELLS[2]['2_4'], [1, 2])], [0] * 7)
    try:
        for seq in itertools.product(range(4), repeat=3):
            seq = (first,) + seq
            with acc.case(list(seq)):
                fname = tmp.name('hdf5')
                mesh = data.mesh()
                ts = TimeStepper(0.0, 1.0, n_step=4)
                saved = {}
                for ii, step in enumerate(seq):
                    ts.set_step(step)
                    out = {'u' : Struct(name='n', mode='vertex',
                                        data=_values(7, 1, ii))}
                    bad = step and (step in saved)
                    try:
                        mesh.write(fname, out=out, ts=ts)
                    except ValueError:
                        require(bad, 'step %d not saved', step)
                    else:
                        require(not bad, 'step %d overwritten', step)
                        if step == 0:
                            saved = {}
                        saved[step] = out['u'].data.copy()
                    # The file is readable.
                    io = MeshIO.any_from_filename(fname)
                    ss, _, _ = io.read_times()
                    require(ss.tolist() == sorted(saved), 'steps %s', ss)
                    for step in saved:
                        require(nm.array_equal(io.read_data(step)['u'].data,
                                               saved[step]), 'data')
                acc.outcome(sorted(saved))
                acc.traces += 1
            acc.transitions += len(seq)
            tmp.clean()
    finally:
        # Files left open by a failed write.
        import tables
        tables.file._open_files.close_all()
        tmp.close()

UNITS = {'mesh' : _mesh, 'chain' : _chain, 'omit' : _omit, 'data' : _data,
         'copies' : _copies, 'steps' : _steps, 'overwrite' : _overwrite}

def groups(tier):
    deep = tier != 'quick'
    out = []
    values = [2, 3, 12] if deep else [2, 12]
    # 12 sorts before 3 as a string.
    for dim in (1, 2, 3):
        for fmt in FULL + CONN:
            for perm in families(dim, 3 if (deep or (dim < 3)) else 2):
                out.append(['mesh', dim, perm, fmt, values])
            if fmt in FULL:
                out.append(['chain', dim, fmt])
        for fmt in ('medit', 'vtk', 'vtu', 'abaqus', 'nastran'):
            if (dim == 2) and (fmt == 'nastran'): continue
            out.append(['omit', dim, fmt])
        for fmt in ('vtk', 'vtk-ascii', 'vtu', 'hdf5', 'hdf5-xdmf'):
            out.append(['data', dim, fmt])
        out.append(['copies', dim])
    for fmt in ('hdf5', 'hdf5-xdmf'):
        for first in (True, False):
            out.append(['steps', fmt, first])
    for first in range(4):
        out.append(['overwrite', first])
    return out

def run(group, acc):
    UNITS[group[0]](acc, *group[1:])
