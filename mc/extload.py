"""
Make sure the compiled extensions that the checks import correspond to the C
and Cython sources currently in /repo.

A check runs without a preceding build, so the in-place shared objects may be
older than the sources.  Every extension has a recorded pair (digest of its
sources, sha256 of the shared object built from them); when the pair matches,
the in-place object is used, otherwise the extension is rebuilt from /repo's
current sources into a cache folder outside of /repo and loaded from there by
a meta path hook.
"""
import concurrent.futures as cf
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
RECORD = os.path.join(HERE, 'ext_record.json')
COM = 'sfepy/discrete/common/extmods'
FEM = 'sfepy/discrete/fem/extmods'
TER = 'sfepy/terms/extmods'
IGA = 'sfepy/discrete/iga/extmods'
MEC = 'sfepy/mechanics/extmods'
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')

_COMMON = [COM + '/' + n for n in ('fmfield.c', 'geommech.c', 'common_python.c')]
_MESH = [COM + '/' + n for n in ('geomtrans.c', 'mesh.c')]

def _exts():
    ters = sorted(TER + '/' + n for n in os.listdir(os.path.join(REPO, TER))
                  if n.endswith('.c') and n != 'terms.c')
    return {
        COM + '/_fmfield': _COMMON,
        COM + '/cmapping': _COMMON,
        COM + '/assemble': [],
        COM + '/cmesh': _MESH + [COM + '/meshutils.c', COM + '/sort.c',
                                 COM + '/common_python.c'],
        COM + '/crefcoors': [COM + '/refcoors.c'] + _MESH + _COMMON,
        COM + '/_geommech': _COMMON,
        FEM + '/bases': [FEM + '/lagrange.c'] + _COMMON,
        FEM + '/lobatto_bases': [FEM + '/lobatto.c', FEM + '/lobatto1d.c']
                                + _COMMON,
        IGA + '/igac': [IGA + '/nurbs.c'] + _COMMON,
        MEC + '/ccontres': [MEC + '/contres.c'] + _COMMON,
        TER + '/terms': ters + _COMMON,
    }

def _headers(folder):
    path = os.path.join(REPO, folder)
    return [folder + '/' + n for n in sorted(os.listdir(path))
            if n.endswith(('.h', '.pxd', '.h.in')) and n != 'version.h']

def _digest(ext, srcs):
    # lobatto1d_template.c is an input of a generator only, not compiled.
    files = [ext + '.pyx'] + srcs + _headers(os.path.dirname(ext))
    if os.path.dirname(ext) != COM:
        files += _headers(COM)
    hh = hashlib.sha256()
    for name in sorted(set(files)):
        with open(os.path.join(REPO, name), 'rb') as fd:
            hh.update(name.encode() + b'\0' + fd.read() + b'\0')
    return hh.hexdigest()

def _sha(path):
    with open(path, 'rb') as fd:
        return hashlib.sha256(fd.read()).hexdigest()

def _run(cmd, **kwargs):
    out = subprocess.run(cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, **kwargs)
    if out.returncode:
        raise RuntimeError('build failed: %s\n%s'
                           % (' '.join(cmd),
                              out.stdout.decode(errors='replace')[-4000:]))

def _build(ext, srcs, digest, cache):
    """
    Build one extension, return the path of the shared object.
    """
    target = os.path.join(cache, digest[:24],
                          os.path.basename(ext) + SUFFIX)
    if os.path.exists(target):
        return target

    import numpy as nm
    work = target + '.work.%d' % os.getpid()
    os.makedirs(work)
    try:
        inc = ['-I' + os.path.join(REPO, os.path.dirname(ext)),
               '-I' + os.path.join(REPO, COM)]
        if not os.path.exists(os.path.join(REPO, COM, 'version.h')):
            with open(os.path.join(REPO, COM, 'version.h.in')) as fd:
                txt = re.sub(r'"[^"]*"', '"0"', fd.read())
            with open(os.path.join(work, 'version.h'), 'w') as fd:
                fd.write(txt)
            inc.append('-I' + work)
        inc += ['-I' + nm.get_include(),
                '-I' + sysconfig.get_paths()['include']]
        csrc = os.path.join(work, os.path.basename(ext) + '.cy.c')
        _run([sys.executable, '-m', 'cython', '-3', '-I', REPO,
              '--module-name', ext.replace('/', '.'),
              os.path.join(REPO, ext + '.pyx'), '-o', csrc], cwd=REPO)
        flags = ['-O2', '-fPIC', '-w', '-DSFEPY_PLATFORM=0',
                 '-Dinline=inline', '-DNDEBUG',
                 '-DNPY_NO_DEPRECATED_API=NPY_2_0_API_VERSION']
        objs = []
        for src in [csrc] + [os.path.join(REPO, ii) for ii in srcs]:
            obj = os.path.join(work, os.path.basename(src) + '.o')
            _run(['gcc', '-c', src, '-o', obj] + flags + inc)
            objs.append(obj)
        tmp = os.path.join(work, 'out.so')
        _run(['gcc', '-shared', '-o', tmp] + objs + ['-lm'])
        os.replace(tmp, target)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    return target

class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)

def ensure(cache):
    """
    Install the import hook for the extensions whose in-place objects do not
    correspond to the current sources.  Returns the list of rebuilt ones.
    """
    record = {}
    if os.path.exists(RECORD):
        with open(RECORD) as fd:
            record = json.load(fd)

    todo = []
    for ext, srcs in _exts().items():
        digest = _digest(ext, srcs)
        so = os.path.join(REPO, ext + SUFFIX)
        rec = record.get(ext)
        if (rec is not None and rec['src'] == digest and os.path.exists(so)
            and _sha(so) == rec['so']):
            continue
        todo.append((ext, srcs, digest))

    if not todo:
        return []

    with cf.ThreadPoolExecutor(8) as pool:
        sos = list(pool.map(lambda a: _build(*a, cache), todo))
    table = {ii[0].replace('/', '.'): so for ii, so in zip(todo, sos)}
    sys.meta_path.insert(0, _Finder(table))
    return sorted(table)

def record():
    out = {}
    for ext, srcs in _exts().items():
        so = os.path.join(REPO, ext + SUFFIX)
        out[ext] = {'src': _digest(ext, srcs), 'so': _sha(so)}
    with open(RECORD, 'w') as fd:
        json.dump(out, fd, indent=1, sort_keys=True)
        fd.write('\n')

if __name__ == '__main__':
    record()
