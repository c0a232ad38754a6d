"""Runs simulated executions: one fork per run, eight interpreters with
different hash seeds, minimisation, replay files, evidence."""
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import props
from . import props2, props3, swagger12, tree  # noqa: F401  (register their properties)
from .model import Bad

WORKERS = 8
WALL = 15.0             # seconds one run may take before it is stopped
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rng_for(seed, pid, i):
    h = hashlib.sha256(('%s/%s/%s' % (seed, pid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def hashseed_for(seed, g):
    return (int(seed) * 64 + g * 7 + 1) % 4294967295


def normal(sc):
    return json.loads(json.dumps(sc))


# --------------------------------------------------------------------------
# one run, in a child of its own

def _child(p, sc, w):
    import faulthandler
    gc.disable()
    out = {}
    try:
        try:
            info = p.run(sc)
            out = {'ok': True, 'sig': info.sig(), 'counts': info.counts,
                   'sim': info.sim, 'nt': bool(info.nontrivial), 'extra': info.extra}
            if p.twin:
                out['result'] = info.result
        except Bad as e:
            out = {'ok': False, 'cls': e.cls, 'msg': e.msg}
    except BaseException as e:
        fr, lib = e.__traceback__, False
        while fr is not None:
            f = fr.tb_frame.f_code.co_filename
            lib = lib or f.startswith(REPO + os.sep)
            fr = fr.tb_next
        if lib and not isinstance(e, HarnessError):
            # the library raised where reading what it gave us never may
            out = {'ok': False, 'cls': 'exception', 'msg': '%s: %s at %s' % (
                type(e).__name__, str(e)[:200], traceback.extract_tb(e.__traceback__)[-1])}
        else:
            out = {'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
    try:
        data = pickle.dumps(out)
    except Exception as e:
        data = pickle.dumps({'error': 'unpicklable result %r' % (e,)})
    os.write(w, len(data).to_bytes(8, 'big'))
    while data:
        n = os.write(w, data)
        data = data[n:]


def isolated(p, sc, wall=WALL):
    """run the scenario in a forked child; a dict describes what happened"""
    res = _isolated(p, sc, wall)
    if res.get('timeout'):
        # slow or endless?  count steps instead of seconds
        props.counting.force = True
        try:
            res = _isolated(p, sc, WALL * 2)
        finally:
            props.counting.force = False
    if p.twin and res.get('ok'):
        res = twins.compare(p, sc, res)
    return res


class Twins(object):
    """interpreters with other hash seeds that run the same scenarios"""

    def __init__(self):
        self.procs = {}

    def ask(self, p, sc):
        seed = sc['twin']
        q = self.procs.get(seed)
        if q is None:
            q = self.procs[seed] = subprocess.Popen(
                [sys.executable, '-B', '-m', 'sim.engine', 'twin', p.id],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=HERE, env=python_env(seed))
        q.stdin.write(json.dumps(sc).encode() + b'\n')
        q.stdin.flush()
        line = q.stdout.readline()
        if not line:
            del self.procs[seed]
            raise HarnessError('the twin interpreter ended')
        return json.loads(line)

    def compare(self, p, sc, res):
        other = self.ask(p, sc)
        if not other.get('ok'):
            if 'error' in other:
                return other
            return {'ok': False, 'cls': 'hash-seed', 'msg': 'fails with hash seed %d only: %s' % (
                sc['twin'], other.get('msg', other))}
        a, b = json.loads(json.dumps(res['result'])), other['result']
        if a != b:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return {'ok': False, 'cls': 'hash-seed', 'msg': 'with hash seed %d: %s, otherwise %s' % (
                sc['twin'], str(b[k:k + 1])[:300], str(a[k:k + 1])[:300])}
        return res


twins = Twins()


def twin_loop(pid):
    p = props.REG[pid]
    gc.disable()
    gc.collect()
    gc.freeze()
    p.twin = False
    keep = p.run

    class Both(object):
        id = pid
        twin = False

        @staticmethod
        def run(sc):
            info = keep(sc)
            info.extra = {'result': info.result}
            return info
    for line in sys.stdin.buffer:
        res = isolated(Both, json.loads(line))
        if res.get('ok'):
            res = {'ok': True, 'result': res['extra']['result']}
        sys.stdout.write(json.dumps(res) + '\n')
        sys.stdout.flush()


def _isolated(p, sc, wall):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _child(p, sc, w)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    end = time.monotonic() + wall
    buf = b''
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            part = os.read(r, 1 << 16)
            if not part:
                break
            buf += part
    os.close(r)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed:
        return {'timeout': True}
    if len(buf) < 8:
        return {'crash': 'child ended with status %d' % status}
    return pickle.loads(buf[8:])


def classify(res):
    """None, a violation (cls, msg), or raises for an error of the harness"""
    if res.get('ok'):
        return None
    if 'cls' in res:
        return res['cls'], res['msg']
    if res.get('timeout'):
        return 'hang', 'the run did not end within %d s' % WALL
    if 'crash' in res:
        return 'crash', res['crash']
    raise HarnessError(res.get('error', repr(res)))


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# minimisation

def _paths_optional(doc, model_keys=None):
    """paths of dict entries and list elements, outermost first"""
    out, todo = [], [((), doc)]
    while todo:
        path, d = todo.pop(0)
        if isinstance(d, dict):
            for k in d:
                out.append(path + (k,))
                todo.append((path + (k,), d[k]))
        elif isinstance(d, list):
            for i in reversed(range(len(d))):
                out.append(path + (i,))
                todo.append((path + (i,), d[i]))
    return out


def _get(d, path):
    for k in path:
        d = d[k]
    return d


def candidates(sc, p):
    """smaller scenarios, most promising first"""
    import copy
    if hasattr(p, 'shrink'):
        for c in p.shrink(sc):
            yield c
    ops = sc.get('ops')
    if isinstance(ops, list):
        n = len(ops)
        step = n // 2
        while step >= 1:
            for a in range(0, n, step):
                c = copy.deepcopy(sc)
                del c['ops'][a:a + step]
                if c['ops']:
                    yield c
            step //= 2
        for i, op in enumerate(ops):
            for j in range(len(op.get('faults', ()))):
                c = copy.deepcopy(sc)
                del c['ops'][i]['faults'][j]
                yield c
            if op.get('rd'):
                c = copy.deepcopy(sc)
                del c['ops'][i]['rd']
                yield c
    if isinstance(sc.get('docs'), dict):
        for d in shrink_docs(sc['docs'], sc.get('root')):
            c = dict(sc)
            c['docs'] = d
            yield copy.deepcopy(c)


def shrink_docs(docs, root):
    """smaller document sets"""
    import copy
    for u in list(docs):
        st = docs[u].get('style')
        if st and st != {'fmt': 'json'}:
            c = copy.deepcopy(docs)
            c[u]['style'] = {'fmt': 'json'}
            yield c
    for u in list(docs):
        if u != root:
            c = copy.deepcopy(docs)
            del c[u]
            yield c
    for u in list(docs):
        for path in _paths_optional(docs[u]['doc']):
            if path[-1] in KEEP:
                continue
            c = copy.deepcopy(docs)
            try:
                par = _get(c[u]['doc'], path[:-1])
                if isinstance(par, list) and path[-1] != len(par) - 1:
                    continue
                del par[path[-1]]
            except (KeyError, IndexError, TypeError):
                continue
            yield c


KEEP = ('type', 'swagger', 'openapi', 'info', 'title', 'version', '$ref', 'in', 'name', 'paths',
        'responses')


def minimise(p, sc, cls, seconds=45.0):
    """a smaller scenario with the same class of violation"""
    end = time.monotonic() + seconds
    tried = 0
    progress = True
    seen = set()
    while progress and time.monotonic() < end:
        progress = False
        for c in candidates(sc, p):
            if time.monotonic() > end:
                break
            key = hashlib.md5(json.dumps(c, sort_keys=True).encode()).digest()
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            if not p_valid(p, c):
                continue
            try:
                got = classify(isolated(p, normal(c), 10.0))
            except HarnessError:
                continue
            if got and got[0] == cls:
                sc = c
                progress = True
                break
    return sc, tried


def p_valid(p, sc):
    """is the shrunk scenario still one the property speaks about?"""
    try:
        return p.valid(sc)
    except Exception:
        return False


# --------------------------------------------------------------------------
# worker process: python -m sim.engine worker PID SEED GROUP TIER RUNS SECONDS

def worker(pid, seed, group, tier, runs, seconds, known):
    p = props.REG[pid]
    out = sys.stdout

    def say(o):
        out.write(json.dumps(o) + '\n')
        out.flush()

    start = time.monotonic()
    gc.disable()
    gc.collect()
    gc.freeze()
    i = group
    batch = {'runs': 0, 'nt': 0, 'sim': 0.0, 'counts': {}, 'sigs': [], 'extra': {}}

    def flush():
        if batch['runs']:
            say(dict(batch, t='batch'))
            batch.update(runs=0, nt=0, sim=0.0, counts={}, sigs=[], extra={})

    last = start
    first = []
    while i < runs and time.monotonic() - start < seconds:
        sc = normal(p.gen(rng_for(seed, pid, i)))
        res = isolated(p, sc)
        try:
            bad = classify(res)
        except HarnessError as e:
            say({'t': 'error', 'i': i, 'error': str(e)})
            return
        if bad:
            entry = next((k for k in known if k['property'] == pid and p.known(sc, bad, k)), None)
            if entry is not None:
                say({'t': 'known', 'id': entry['id'], 'i': i})
                batch['runs'] += 1
                i += WORKERS
                continue
            flush()
            say({'t': 'violation', 'i': i, 'cls': bad[0], 'msg': bad[1], 'sc': sc})
            return
        batch['runs'] += 1
        batch['nt'] += res['nt']
        batch['sim'] += res['sim']
        for k, v in res['counts'].items():
            batch['counts'][k] = batch['counts'].get(k, 0) + v
        for k, v in res['extra'].items():
            batch['extra'][k] = max(batch['extra'].get(k, v), v) if k.startswith('max_') else v
        batch['sigs'].append([res['sig'], int(res['nt'])])
        if len(first) < 4:
            first.append((i, sc, res['sig']))
            if group == 0 and len(first) <= 2:
                say({'t': 'sample', 'i': i, 'sc': sc})
        i += WORKERS
        now = time.monotonic()
        if now - last > 0.5:
            flush()
            last = now
    flush()
    # determinism: the first runs again, in other children, after everything else
    for j, sc, sig in first:
        again = normal(p.gen(rng_for(seed, pid, j)))
        res = isolated(p, again)
        same = again == sc and res.get('sig') == sig
        say({'t': 'twice', 'i': j, 'same': bool(same), 'a': sig, 'b': res.get('sig')})
    say({'t': 'done'})


def python_env(hashseed):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + os.pathsep + HERE, PYTHONHASHSEED=str(hashseed),
               PYTHONDONTWRITEBYTECODE='1', PYOA_SIM='1', LC_ALL='C.UTF-8')
    return env


REPO = os.environ.get('PYOA_REPO', '/repo')


def spawn_worker(pid, seed, g, tier, runs, seconds):
    return subprocess.Popen(
        [sys.executable, '-B', '-m', 'sim.engine', 'worker', pid, str(seed), str(g), tier,
         str(runs), str(seconds)],
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        cwd=HERE, env=python_env(hashseed_for(seed, g)), start_new_session=True)


def kill_all(ps):
    for q in ps:
        try:
            os.killpg(q.pid, signal.SIGKILL)
        except OSError:
            pass
    for q in ps:
        try:
            q.wait(5)
        except Exception:
            pass


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('findings', [])


def check(pid, seed, tier):
    p = props.REG[pid]
    runs, seconds = p.quick if tier == 'quick' else p.thorough
    if os.environ.get('PYOA_SECONDS'):
        seconds = float(os.environ['PYOA_SECONDS'])
    if os.environ.get('PYOA_RUNS'):
        runs = int(os.environ['PYOA_RUNS'])
    known = load_known()
    t0 = time.monotonic()
    ps = [spawn_worker(pid, seed, g, tier, runs, seconds) for g in range(WORKERS)]
    tot = {'runs': 0, 'nt': 0, 'sim': 0.0, 'counts': {}, 'extra': {}}
    sigs, ntsigs, samples, twice, knowns = set(), set(), [], [], {}
    violations, errors, done = [], [], set()
    bufs = {q.stdout.fileno(): (q, b'') for q in ps}
    errs = {q.stderr.fileno(): (q, b'') for q in ps}
    hard = t0 + seconds + 150
    open_fds = set(bufs) | set(errs)
    stop_at = None
    while open_fds:
        now = time.monotonic()
        if now > hard or (stop_at and now > stop_at):
            break
        rd, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in rd:
            part = os.read(fd, 1 << 16)
            if not part:
                open_fds.discard(fd)
                continue
            if fd in errs:
                q, b = errs[fd]
                errs[fd] = (q, (b + part)[-4000:])
                continue
            q, b = bufs[fd]
            b += part
            *lines, rest = b.split(b'\n')
            bufs[fd] = (q, rest)
            for line in lines:
                o = json.loads(line)
                t = o['t']
                if t == 'batch':
                    tot['runs'] += o['runs']
                    tot['nt'] += o['nt']
                    tot['sim'] += o['sim']
                    for k, v in o['counts'].items():
                        tot['counts'][k] = tot['counts'].get(k, 0) + v
                    for k, v in o['extra'].items():
                        tot['extra'][k] = max(tot['extra'].get(k, v), v) if k.startswith('max_') else v
                    for s, nt in o['sigs']:
                        sigs.add(s)
                        if nt:
                            ntsigs.add(s)
                elif t == 'sample':
                    samples.append(o)
                elif t == 'twice':
                    twice.append(o)
                elif t == 'known':
                    knowns.setdefault(o['id'], []).append(o['i'])
                elif t == 'violation':
                    o['hashseed'] = hashseed_for(seed, ps.index(q))
                    o['group'] = ps.index(q)
                    violations.append(o)
                    # give the others a moment: they may have smaller ones
                    stop_at = stop_at or time.monotonic() + 0.3
                elif t == 'error':
                    errors.append(o)
                    stop_at = stop_at or time.monotonic() + 0.3
                elif t == 'done':
                    done.add(ps.index(q))
    kill_all(ps)
    rc = 0
    if not violations and not errors and len(done) != WORKERS:
        tails = [b.decode('utf-8', 'replace') for _, b in errs.values() if b]
        errors.append({'i': -1, 'error': 'a worker ended early\n' + '\n'.join(tails)[-3000:]})
    for o in twice:
        if not o['same'] and not violations:
            # the code under test behaves differently from one execution to the
            # next although everything around it is the same
            errors.append({'i': o['i'], 'error': 'run %d is not repeatable (%s, %s)' % (
                o['i'], o['a'], o['b'])})
    wall = time.monotonic() - t0
    replay = None
    if violations:
        v = min(violations, key=lambda o: len(json.dumps(o['sc'])))
        replay = report(p, pid, seed, tier, v)
        rc = 1
    elif errors:
        rc = 2
    for k in known:
        if k['property'] == pid and rc == 0:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    evidence(p, pid, seed, tier, tot, sigs, ntsigs, samples, twice, knowns, wall, violations, errors)
    if rc == 1:
        v = min(violations, key=lambda o: len(json.dumps(o['sc'])))
        print('%s: %s: %s' % (pid, v['cls'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    elif rc == 2:
        for e in errors[:3]:
            print('ERROR of the check %s (run %s):\n%s' % (pid, e['i'], e['error']), file=sys.stderr)
    else:
        print('%s: ok, %d runs (%d distinct executions), %d faults, %.0f s of simulated time, %.1f s' % (
            pid, tot['runs'], len(sigs), sum(v for k, v in tot['counts'].items() if k.startswith('fault:')),
            tot['sim'], wall))
    return rc


def report(p, pid, seed, tier, v):
    """minimise in a fresh interpreter and write the replay file"""
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (pid, seed, v['i']))
    body = {'property': pid, 'seed': seed, 'run': v['i'], 'hashseed': v['hashseed'],
            'group': v['group'],
            'violation': {'cls': v['cls'], 'msg': v['msg']}, 'scenario': v['sc']}
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    try:
        r = subprocess.run([sys.executable, '-B', '-m', 'sim.engine', 'minimise', path],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           cwd=HERE, env=python_env(v['hashseed']), timeout=110)
        sys.stdout.write(r.stdout.decode('utf-8', 'replace'))
    except subprocess.TimeoutExpired:
        pass
    return path


def do_minimise(path):
    with open(path) as f:
        body = json.load(f)
    p = props.REG[body['property']]
    sc = body['scenario']
    cls = body['violation']['cls']
    got = classify(isolated(p, normal(sc)))
    if got is None or got[0] != cls:
        print('the violation did not repeat in a fresh interpreter: %s' % (got,))
        body['repeatable'] = False
    else:
        small, tried = minimise(p, sc, cls)
        got = classify(isolated(p, normal(small)))
        if got and got[0] == cls:
            body['original'] = sc
            body['scenario'] = small
            body['violation'] = {'cls': got[0], 'msg': got[1]}
            body['minimise_tried'] = tried
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, ensure_ascii=False)


def do_replay(path):
    with open(path) as f:
        body = json.load(f)
    env = python_env(body['hashseed'])
    if os.environ.get('PYTHONHASHSEED') != str(body['hashseed']) or os.environ.get('PYOA_REPLAY') != '1':
        env['PYOA_REPLAY'] = '1'
        return subprocess.call([sys.executable, '-B', '-m', 'sim.engine', 'replay', path],
                               cwd=HERE, env=env)
    p = props.REG[body['property']]
    got = classify(isolated(p, normal(body['scenario'])))
    if got is None:
        print('%s: the scenario passes' % body['property'])
        return 0
    print('%s: %s: %s' % (body['property'], got[0], got[1]))
    print('VIOLATION property=%s replay=%s' % (body['property'], path))
    return 1


def short(sc, n=2500):
    s = json.dumps(sc, ensure_ascii=False)
    if len(s) <= n:
        return sc
    c = {k: v for k, v in sc.items() if k != 'docs'}
    if 'docs' in sc:
        c['docs'] = {u: '%d bytes, style %s' % (len(json.dumps(d.get('doc'))), json.dumps(d.get('style')))
                     for u, d in sc['docs'].items()}
    if len(json.dumps(c)) > 2 * n:
        return json.dumps(c)[:2 * n]
    return c


def evidence(p, pid, seed, tier, tot, sigs, ntsigs, samples, twice, knowns, wall, violations, errors):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    c = dict(tot['counts'])
    faults = {k[6:]: v for k, v in sorted(c.items()) if k.startswith('fault:')}
    other = {k: v for k, v in sorted(c.items()) if not k.startswith('fault:')}
    ev = {
        'property': pid, 'tier': tier, 'seed': int(seed), 'level': p.level,
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(ntsigs),
            'rule': p.rule + '; distinct: by hash of the complete event log of the execution',
            'samples': [{'run': s['i'], 'scenario': short(s['sc'])} for s in samples[:3]]
            or [{'note': 'stopped before a run completed'}],
            'seeds_per_hour': int(tot['runs'] / max(wall, 0.001) * 3600),
            'simulated_seconds': round(tot['sim'], 1),
            'faults_injected': faults,
            'distinct_executions': len(sigs),
            'measured': other,
            'extra': tot['extra'],
            'repeated_runs_identical': sum(1 for o in twice if o['same']),
            'repeated_runs': len(twice),
            'known_findings_hit': dict({k: len(v) for k, v in knowns.items()}, **{
                k[8:]: v for k, v in tot['counts'].items() if k.startswith('finding:')}),
            'components': {'real': p.real_parts, 'simulated': p.stubs},
        },
        'assumptions': ['pure Python, CPython %s; the interpreter and the standard library are trusted'
                        % sys.version.split()[0],
                        'sampled schedules, faults and inputs: absence of a violation is evidence, not proof'],
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def assert_repo():
    import pyopenapi
    if not os.path.abspath(pyopenapi.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit('pyopenapi comes from %s, not from %s' % (pyopenapi.__file__, REPO))


def main(argv):
    sys.setrecursionlimit(6000)
    if argv[0] == 'worker':
        assert_repo()
        worker(argv[1], argv[2], int(argv[3]), argv[4], int(argv[5]), float(argv[6]), load_known())
        return 0
    if argv[0] == 'twin':
        assert_repo()
        twin_loop(argv[1])
        return 0
    if argv[0] == 'minimise':
        do_minimise(argv[1])
        return 0
    if argv[0] == 'replay':
        assert_repo()
        return do_replay(argv[1])
    raise SystemExit('unknown command %r' % argv)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
