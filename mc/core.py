"""Exhaustive executor, evidence and verdicts.

A property module defines SECTIONS: a list of Section objects.  A section is one
bounded space: `cases(tier)` enumerates it completely (JSON-able values, simplest
first), `check(env, case, ctx)` runs the real code on one case and compares it
with the reference model; it raises Violation (or lets any exception of the code
under test escape, which is a violation as well).

Every section is enumerated by all worker processes; worker k executes the cases
whose block index is k modulo the number of workers.  A worker that crashes or
hangs is a violation of the case it was executing.
"""
import array
import collections
import hashlib
import itertools
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_NPROC') or 0) or max(1, min(8, os.cpu_count() or 1))
BLOCK = 16
HANG_S = int(os.environ.get('VERIF_HANG_S') or 100)
OUTCOME_CAP = 400000


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_eq(got, want, what):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


class Section:
    def __init__(self, name, cases, check, setup=None, note='', block=BLOCK, nproc=None, final=None, hang=HANG_S):
        self.name = name
        self.cases = cases          # tier -> iterable
        self.check = check          # env, case, ctx
        self.setup = setup          # tier -> env   (runs in every worker)
        self.note = note
        self.block = block
        self.nproc = nproc
        self.final = final          # summary dict -> None, may raise Violation
        self.hang = hang


class Ctx:
    """Counters of one worker."""

    def __init__(self, replay=False):
        self.counts = collections.Counter()
        self.outcomes = set()
        self.replay = replay
        self.capped = False
        self.samples = []

    def count(self, name, n=1):
        self.counts[name] += n

    def outcome(self, key):
        if len(self.outcomes) < OUTCOME_CAP:
            self.outcomes.add(hash_key(key))
        else:
            self.capped = True


def hash_key(key):
    return struct.unpack('<q', hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest())[0]


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(i) for i in x), key=repr)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return {'hex': x.hex()}
    return repr(x)


def tuplify(x):
    """JSON lists become tuples again (cases are built from tuples)."""
    if isinstance(x, list):
        return tuple(tuplify(i) for i in x)
    if isinstance(x, dict):
        return {k: tuplify(v) for k, v in x.items()}
    return x


def run_one(section, env, case, ctx):
    """None, or a dict describing the violation."""
    try:
        section.check(env, case, ctx)
        return None
    except Violation as e:
        return {'message': str(e), 'key': e.key}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa
        return {'message': 'unexpected %s: %s' % (type(e).__name__, str(e)[:500]),
                'traceback': traceback.format_exc()[-3000:], 'key': None}


class Scratch:
    """One scratch directory per check run, removed at the end."""
    root = None

    @classmethod
    def get(cls):
        if cls.root is None:
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
            try:
                cls.root = tempfile.mkdtemp(prefix='verif-', dir=base)
            except OSError:
                cls.root = tempfile.mkdtemp(prefix='verif-')
            cls.owner = os.getpid()
        return cls.root

    @classmethod
    def dir(cls, name=None):
        p = tempfile.mkdtemp(prefix=(name or 'd') + '-', dir=cls.get())
        return p

    @classmethod
    def cleanup(cls):
        import shutil
        if cls.root and cls.owner == os.getpid():
            shutil.rmtree(cls.root, ignore_errors=True)
            cls.root = None


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def _worker(section, tier, rank, nproc, slot, wfd, known, deadline, stop):
    ctx = Ctx()
    res = {'rank': rank, 'violations': [], 'known': {}, 'setup_error': None, 'capped_at': None}
    try:
        env = section.setup(tier) if section.setup else None
    except BaseException as e:  # noqa
        res['setup_error'] = {'message': 'setup failed: %s: %s' % (type(e).__name__, str(e)[:800]),
                              'traceback': traceback.format_exc()[-3000:], 'key': None,
                              'violation': True}
        _send(wfd, res, ctx)
        return
    n = 0
    done = 0
    block = section.block
    first = None
    last = None
    try:
        for case in section.cases(tier):
            mine = (n // block) % nproc == rank
            idx = n
            n += 1
            if not mine:
                continue
            if (done & 15) == 0:
                if stop[0]:
                    break
                if time.time() > deadline:
                    res['capped_at'] = idx
                    break
            slot[rank] = idx + 1
            if first is None:
                first = case
            last = case
            v = run_one(section, env, case, ctx)
            done += 1
            if v is not None:
                key = v.get('key')
                if key is not None and key in known:
                    res['known'][key] = res['known'].get(key, 0) + 1
                    continue
                v['case'] = jsonable(case)
                v['index'] = idx
                res['violations'].append(v)
                stop[0] = 1
                break
    except BaseException as e:  # noqa
        res['setup_error'] = {'message': 'enumeration failed: %s: %s' % (type(e).__name__, str(e)[:800]),
                              'traceback': traceback.format_exc()[-3000:], 'key': None}
    slot[rank] = 0
    res['enumerated'] = n
    res['executed'] = done
    res['sample'] = [jsonable(first), jsonable(last)] if first is not None else []
    _send(wfd, res, ctx)


def _send(wfd, res, ctx):
    res['counts'] = dict(ctx.counts)
    res['outcomes'] = array.array('q', ctx.outcomes).tobytes()
    res['outcomes_capped'] = ctx.capped
    res['samples_extra'] = ctx.samples[:3]
    data = pickle.dumps(res)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


def run_section(section, tier, known, deadline):
    nproc = min(section.nproc or NPROC, NPROC)
    shared = mmap.mmap(-1, 8 * (nproc + 2))
    slots = memoryview(shared).cast('q')
    stop = slots[nproc:]
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(nproc):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                for fd, _ in procs.values():
                    os.close(fd)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.setpgid(0, 0)
                _die_with_parent()
                _worker(section, tier, r, nproc, slots, wfd, known, deadline, stop)
            except BaseException:  # noqa
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(wfd)
        procs[r] = (rfd, pid)
    bufs = {r: [] for r in procs}
    open_ = {procs[r][0]: r for r in procs}
    last = {r: (0, time.time()) for r in procs}
    hung = {}
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 1.0)
        for fd in ready:
            d = os.read(fd, 1 << 20)
            if d:
                bufs[open_[fd]].append(d)
            else:
                os.close(fd)
                del open_[fd]
        now = time.time()
        for fd, r in list(open_.items()):
            cur = slots[r]
            if cur != last[r][0]:
                last[r] = (cur, now)
            elif cur > 0 and now - last[r][1] > section.hang:
                hung[r] = cur - 1
                try:
                    os.killpg(procs[r][1], signal.SIGKILL)
                except OSError:
                    pass
                last[r] = (cur, now)
    results = []
    for r, (_, pid) in procs.items():
        _, status = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)   # stray children of the worker
        except OSError:
            pass
        data = b''.join(bufs[r])
        res = None
        if data:
            try:
                res = pickle.loads(data)
            except Exception:
                res = None
        if res is None:
            idx = hung.get(r, slots[r] - 1)
            case = None
            if idx >= 0:
                case = next(itertools.islice(section.cases(tier), idx, None), None)
            what = ('did not finish within %d s' % section.hang) if r in hung else 'crashed the process (status %d)' % status
            res = {'rank': r, 'violations': [], 'known': {}, 'setup_error': None, 'counts': {}, 'outcomes': b'',
                   'enumerated': 0, 'executed': 0, 'sample': [], 'capped_at': None}
            if idx >= 0:
                res['violations'].append({'message': what, 'case': jsonable(case), 'index': idx, 'key': None})
            else:
                res['setup_error'] = {'message': 'worker %d %s outside a case' % (r, what), 'traceback': '', 'key': None}
        results.append(res)
    return results


def load_known(prop):
    """Lines `known: property=<id> key=<key> <what>` of KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith('known:'):
                parts = line.split(None, 3)
                if len(parts) >= 3 and parts[1] == 'property=' + prop and parts[2].startswith('key='):
                    out[parts[2][4:]] = parts[3].strip() if len(parts) > 3 else ''
    return out


def write_replay(prop, section, v, tier):
    d = os.path.join(VERIF, 'replays')
    try:
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s.json' % (prop, section, os.getpid()))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'section': section, 'tier': tier, 'case': v.get('case'),
                       'message': v['message'], 'traceback': v.get('traceback'),
                       'how': 'cd /verif && /opt/venv/bin/python -B check.py %s --replay %s' % (prop, path)},
                      f, ensure_ascii=True, indent=1)
        return path
    except OSError:
        d = tempfile.gettempdir()
        path = os.path.join(d, '%s-%s.json' % (prop, section))
        with open(path, 'w') as f:
            json.dump(v, f, default=repr)
        return path


def run_property(mod, tier, seed, only=None):
    prop = mod.PROPERTY
    t0 = time.time()
    Scratch.get()       # before forking: one directory for all workers, removed at the end
    budget = float(os.environ.get('VERIF_BUDGET_S', '0') or 0) or (560 if tier == 'quick' else 5400)
    deadline = t0 + budget
    known = load_known(prop)
    sections = [s for s in mod.SECTIONS if not only or s.name in only]
    total = collections.Counter()
    outcomes = set()
    samples = []
    per = {}
    violation = None
    known_seen = collections.Counter()
    exhaustive = True
    for s in sections:
        ts = time.time()
        results = run_section(s, tier, known, deadline)
        counts = collections.Counter()
        souts = set()
        executed = 0
        enumerated = 0
        for r in results:
            counts.update(r['counts'])
            souts.update(array.array('q', r['outcomes']))
            executed += r['executed'] if 'executed' in r else 0
            enumerated = max(enumerated, r.get('enumerated', 0))
            for k, c in r['known'].items():
                known_seen[k] += c
            if r['capped_at'] is not None or r.get('outcomes_capped'):
                exhaustive = exhaustive and r['capped_at'] is None
        vs = [v for r in results for v in r['violations']]
        errs = [r['setup_error'] for r in results if r['setup_error']]
        capped = any(r['capped_at'] is not None for r in results)
        if capped:
            exhaustive = False
        info = {'cases': executed, 'distinct_outcomes': len(souts), 'seconds': round(time.time() - ts, 1),
                'space': s.note, 'completed': not capped and not vs and not errs}
        info.update(counts)
        per[s.name] = info
        print('%s/%s: cases=%d %s outcomes=%d %.1fs%s' % (
            prop, s.name, executed, ' '.join('%s=%d' % kv for kv in sorted(counts.items())), len(souts),
            time.time() - ts, ' CAPPED' if capped else ''))
        sys.stdout.flush()
        total.update(counts)
        total['cases'] += executed
        outcomes.update(hash_key((s.name, o)) for o in souts)
        smp = [r['sample'] for r in results if r.get('sample')]
        if smp:
            samples.append({'section': s.name, 'first': trim(smp[0][0]), 'last': trim(smp[-1][1])})
        for r in results:
            for x in r.get('samples_extra') or []:
                if len(samples) < 60:
                    samples.append({'section': s.name, 'sample': trim(jsonable(x))})
        if vs:
            v = min(vs, key=lambda v: v['index'])
            violation = (s.name, v)
            break
        if errs:
            violation = (s.name, errs[0])
            break
        if s.final:
            try:
                s.final(info)
            except Violation as e:
                violation = (s.name, {'message': str(e), 'case': None})
                break
    states = total.get('states') or len(outcomes)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': int(states),
            'transitions': int(total.get('transitions') or total.get('steps') or total['cases']),
            'traces_validated_against_impl': int(total.get('traces') or total['cases']),
            'evaluations': int(total.get('evaluations') or total['cases']),
            'distinct_nontrivial': len(outcomes),
            'rule': getattr(mod, 'RULE', 'every case of the enumerated space is one execution of the real code; '
                            'cases are distinct by construction and are counted here by distinct observed outcome'),
            'samples': samples or [{'none': True}],
            'exhaustive': bool(exhaustive and violation is None),
            'sections': per,
            'counters': {k: int(v) for k, v in total.items()},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    if violation:
        ev['coverage']['violation'] = {'section': violation[0], 'message': violation[1]['message'],
                                       'case': trim(violation[1].get('case'))}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, ensure_ascii=True, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))
    for k, what in known.items():
        print('KNOWN-FINDING: property=%s %s (key=%s, seen %d times)' % (prop, what, k, known_seen.get(k, 0)))
    if violation:
        sname, v = violation
        path = write_replay(prop, sname, v, tier)
        print('section %s: %s' % (sname, v['message'].encode('ascii', 'backslashreplace').decode()))
        if v.get('case') is not None:
            print('case: %s' % trim(json.dumps(v['case'])))
        if v.get('traceback'):
            print(v['traceback'].encode('ascii', 'backslashreplace').decode())
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('OK property=%s tier=%s cases=%d states=%d outcomes=%d %s%.1fs' % (
        prop, tier, total['cases'], states, len(outcomes),
        'exhaustive ' if exhaustive else 'CAPPED ', time.time() - t0))
    return 0


def trim(x, n=600):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + '...(%d)' % len(x)
    s = json.dumps(x, default=repr)
    return x if len(s) <= n else s[:n] + '...(%d)' % len(s)


def replay(mod, path):
    data = json.load(open(path, encoding='utf-8'))
    for s in mod.SECTIONS:
        if s.name == data['section']:
            env = s.setup(data.get('tier', 'quick')) if s.setup else None
            v = run_one(s, env, tuplify(data['case']), Ctx(replay=True))
            if v:
                print('reproduced: %s' % v['message'])
                print(v.get('traceback') or '')
                print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
                return 1
            print('not reproduced')
            return 0
    print('no such section')
    return 2
