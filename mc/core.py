"""
The common machinery of the checks: exploration of finite case spaces by forked
workers, collection of the coverage measured, known findings, replay files and
evidence.

A check module in mc/checks provides

- PID, LEVEL, RULE, ASSUMPTIONS (strings; list of strings),
- groups(tier) -> list of JSON-able work units,
- run(group, acc) that enumerates all the cases of a work unit.
"""
import contextlib
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

class Skip(Exception):
    """The case is outside of the property's domain."""

class Mismatch(AssertionError):
    """The property does not hold in a case."""

def require(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)

def _short(obj, limit=600):
    txt = obj if isinstance(obj, str) else repr(obj)
    return txt if len(txt) <= limit else txt[:limit] + '...'

class Acc:
    """
    Collects what was explored in a work unit.
    """
    def __init__(self, group, only=None):
        self.group = group
        self.only = only
        self.n_eval = 0
        self.distinct = set()
        self.outcomes = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.counts = {}
        self.samples = []
        self.fails = []
        self._current = None

    @staticmethod
    def _key(obj):
        txt = obj if isinstance(obj, str) else repr(obj)
        return hashlib.blake2b(txt.encode(), digest_size=8).digest()

    def count(self, name, num=1):
        self.counts[name] = self.counts.get(name, 0) + num

    def skip_replay(self, ident):
        return (self.only is not None) and (self.only != ident)

    @contextlib.contextmanager
    def case(self, ident, nontrivial=True, sample=None, key=None):
        """
        One explored case.  A Mismatch, or an exception coming out of the code
        under test, is a failure of the case.
        """
        if self.skip_replay(ident):
            # Run anyway (generators may need the side effects), do not judge.
            try:
                yield self
            except Exception:
                pass
            return

        self.n_eval += 1
        try:
            yield self

        except Skip:
            self.count('skipped')
            return

        except Mismatch as exc:
            self.fail(ident, str(exc), key=key)

        except (KeyboardInterrupt, SystemExit):
            raise

        except BaseException as exc:
            self.fail(ident, 'unexpected %s: %s\n%s'
                      % (type(exc).__name__, _short(str(exc)),
                         traceback.format_exc(limit=-4)), key=key)

        if nontrivial:
            self.distinct.add(self._key((repr(self.group), ident)))
        if len(self.samples) < 2:
            self.samples.append(_short({'group': self.group, 'case': ident,
                                        'detail': sample}))

    def outcome(self, obj):
        """
        Record an observed outcome, to see that the cases are not all alike.
        """
        key = self._key(obj)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def fail(self, ident, message, key=None):
        if self.skip_replay(ident):
            return
        self.fails.append({'group': self.group, 'case': ident,
                           'key': key if key is not None else ident,
                           'message': message})

def _child(module, group, path, only, limit):
    code = 3
    try:
        # The output of the code under test is of no interest here.
        fd = os.open(os.devnull if not os.environ.get('MC_DEBUG')
                     else path + '.log', os.O_WRONLY | os.O_CREAT)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        wdir = os.path.join(path + '.cwd')
        os.makedirs(wdir, exist_ok=True)
        os.chdir(wdir)
        acc = Acc(group, only=only)
        try:
            module.run(group, acc)

        except BaseException as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            in_repo = any(fr.filename.startswith(REPO + '/') for fr in tb)
            acc.count('aborted_groups')
            if in_repo:
                acc.fail('group', 'unexpected %s: %s\n%s'
                         % (type(exc).__name__, _short(str(exc)),
                            traceback.format_exc(limit=-6)))
            else:
                acc.error = traceback.format_exc()

        with open(path + '.tmp', 'wb') as fd:
            pickle.dump(acc, fd)
        os.rename(path + '.tmp', path)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)

def explore(module, groups, scratch, only=None, n_proc=int(os.environ.get("MC_PROC", 8)), limit=None):
    """
    Run all work units in forked processes.
    """
    limit = limit or getattr(module, 'LIMIT', 400)
    queue = list(enumerate(groups))[::-1]
    running = {}
    results = [None] * len(groups)

    def _reap(pid, status):
        ii, path, t0 = running.pop(pid)
        if os.path.exists(path):
            with open(path, 'rb') as fd:
                results[ii] = pickle.load(fd)
            os.remove(path)
        else:
            acc = Acc(groups[ii], only=only)
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                if sig == signal.SIGKILL and time.time() - t0 >= limit:
                    acc.fail('group', 'did not terminate in %d s' % limit)
                elif sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                             signal.SIGBUS, signal.SIGILL):
                    acc.fail('group', 'crashed with signal %d' % sig)
                else:
                    acc.error = 'worker killed by signal %d' % sig
            else:
                acc.error = 'worker ended with status %d' % status
            results[ii] = acc
        shutil.rmtree(path + '.cwd', ignore_errors=True)

    while queue or running:
        while queue and len(running) < n_proc:
            ii, group = queue.pop()
            path = os.path.join(scratch, 'res%d.pkl' % ii)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                _child(module, group, path, only, limit)
            running[pid] = (ii, path, time.time())

        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for pid, (ii, path, t0) in running.items():
                if time.time() - t0 > limit:
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(pid, signal.SIGKILL)
            time.sleep(0.01)
            continue
        if pid in running:
            _reap(pid, status)

    return results

def load_known(pid):
    """
    The known findings: lines 'property=<id> group=<json> case=<json> <text>'
    are kept as JSON objects, one per line.
    """
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as fd:
            for line in fd:
                line = line.strip()
                if not line or line.startswith(('#', 'fixed:')):
                    continue
                item = json.loads(line)
                if item['property'] == pid:
                    out.append(item)
    return out

def _norm(obj):
    return json.loads(json.dumps(obj, default=str))

def main(module, only_replay=None):
    pid = module.PID
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    code = 2
    try:
        os.environ['TMPDIR'] = scratch
        tempfile.tempdir = scratch
        os.chdir(scratch)
        if only_replay is not None:
            with open(only_replay) as fd:
                rep = json.load(fd)
            groups, only = [rep['group']], None
            wanted = _norm(rep['case'])
        else:
            groups, only, wanted = module.groups(tier), None, None

        if hasattr(module, 'prepare'):
            module.prepare(tier)
        results = explore(module, groups, scratch, only=only)
        if wanted is not None:
            for acc in results:
                acc.fails = [ii for ii in acc.fails
                             if _norm(ii['case']) == wanted]
        code = _report(module, tier, seed, groups, results, t0,
                       write=only_replay is None)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)

    return code

def _report(module, tier, seed, groups, results, t0, write=True):
    pid = module.PID
    errors = [acc.error for acc in results if hasattr(acc, 'error')]
    n_eval = sum(acc.n_eval for acc in results)
    distinct = set()
    outcomes = set()
    counts = {}
    for acc in results:
        distinct.update(acc.distinct)
        outcomes.update(acc.outcomes)
        for key, val in acc.counts.items():
            counts[key] = counts.get(key, 0) + val
    fails = [ff for acc in results for ff in acc.fails]

    known = load_known(pid)
    used = {}
    new = []
    for ff in fails:
        for ik, item in enumerate(known):
            if (_norm(ff['key']) == item['key']
                and ('group' not in item
                     or _norm(ff['group']) == item['group'])
                and item.get('contains', '') in ff['message']):
                used.setdefault(ik, 0)
                used[ik] += 1
                break
        else:
            new.append(ff)

    for ik, num in sorted(used.items()):
        print('KNOWN-FINDING: property=%s %s (%d case(s))'
              % (pid, known[ik]['what'], num))

    samples = []
    for acc in results:
        samples.extend(acc.samples[:1])
    step = max(1, len(samples) // 6)
    samples = samples[::step][:8]

    coverage = {
        'evaluations': n_eval,
        'distinct_nontrivial': len(distinct),
        'rule': module.RULE,
        'samples': samples or ['none'],
        'exhaustive': not errors and not counts.get('capped'),
        'work_units': len(groups),
    }
    if outcomes:
        coverage['distinct_outcomes'] = len(outcomes)
    for key, name in (('states', 'states'), ('transitions', 'transitions'),
                      ('traces', 'traces_validated_against_impl')):
        val = sum(getattr(acc, key) for acc in results)
        if val or (module.LEVEL == 'model_checking'):
            coverage[name] = val
    if counts:
        coverage['counts'] = counts
    if hasattr(module, 'BOUNDS'):
        coverage['bounds'] = (module.BOUNDS[tier]
                              if isinstance(module.BOUNDS, dict)
                              else module.BOUNDS)
    if used:
        coverage['known_findings_seen'] = len(used)

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': module.LEVEL,
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    if write:
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, '.%s.tmp' % pid)
        with open(tmp, 'w') as fd:
            json.dump(evidence, fd, indent=1, default=str)
            fd.write('\n')
        os.replace(tmp, os.path.join(edir, '%s.json' % pid))

    print('%s: %d cases, %d distinct non-trivial, %d outcomes, %d failing,'
          ' %.1f s' % (pid, n_eval, len(distinct), len(outcomes), len(fails),
                       time.time() - t0))
    if counts:
        print('%s: %s' % (pid, ', '.join('%s=%s' % ii
                                         for ii in sorted(counts.items()))))

    if new and os.environ.get('MC_DUMP'):
        with open(os.environ['MC_DUMP'], 'w') as fd:
            for ff in new:
                fd.write(json.dumps([ff['group'], ff['case'], ff['message']],
                                    default=str) + '\n')

    if new:
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        ff = min(new, key=lambda f: len(json.dumps(f['case'], default=str)))
        name = hashlib.sha1(json.dumps([ff['group'], ff['case']],
                                       default=str).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (pid, name))
        with open(path, 'w') as fd:
            json.dump(dict(ff, property=pid, n_failing=len(new),
                           rerun='./check %s --replay %s' % (pid, path)),
                      fd, indent=1, default=str)
            fd.write('\n')
        for ff in ([ff] + [ii for ii in new if ii is not ff])[:5]:
            print('  failing: group=%s case=%s\n    %s'
                  % (_short(json.dumps(ff['group'], default=str), 300),
                     _short(json.dumps(ff['case'], default=str), 300),
                     _short(ff['message'], 1500).replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1

    if errors:
        print('%s: ERROR\n%s' % (pid, errors[0]))
        return 2

    if n_eval == 0 and write:
        print('%s: ERROR nothing explored' % pid)
        return 2

    return 0
