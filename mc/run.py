"""
Usage: check PID [--replay FILE]
"""
import importlib
import os
import shutil
import sys
import tempfile

def main():
    pid = sys.argv[1]
    replay = None
    if '--replay' in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index('--replay') + 1])

    from mc import core, extload

    home = tempfile.mkdtemp(prefix='mc_home_')
    os.environ['HOME'] = home
    try:
        cache = os.path.join(core.VERIF, '.build')
        os.makedirs(cache, exist_ok=True)
        try:
            rebuilt = extload.ensure(cache)
        except RuntimeError as exc:
            print('%s: the extensions do not build: %s' % (pid, exc))
            return 2
        if rebuilt:
            print('%s: rebuilt from the current sources: %s'
                  % (pid, ', '.join(rebuilt)))

        sys.path.insert(0, core.REPO)
        import warnings
        warnings.simplefilter('ignore')
        import sfepy
        assert os.path.dirname(os.path.dirname(sfepy.__file__)) == core.REPO
        import numpy as nm
        nm.seterr(all='ignore')
        from sfepy.base.base import output
        output.set_output(quiet=True)

        module = importlib.import_module('mc.checks.' + pid.lower())
        # Once for all the workers. Failures show in the workers.
        for name in (('sfepy.discrete', 'sfepy.discrete.fem', 'sfepy.terms',
                      'sfepy.solvers', 'sfepy.discrete.fem.meshio',
                      'sfepy.discrete.fem.periodic', 'scipy.sparse.linalg')
                     + tuple(getattr(module, 'PRELOAD', ()))):
            try:
                importlib.import_module(name)
            except Exception:
                pass
        return core.main(module, only_replay=replay)
    finally:
        shutil.rmtree(home, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
