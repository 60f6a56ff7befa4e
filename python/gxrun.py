#!/usr/bin/env python3
"""Runner for the Python properties: generated cases -> oracle -> shrink -> replay file.

run PROP:     starts one worker process for each shard, gathers their results, writes the
              evidence file; exit 0, or 1 with a VIOLATION line, or 2 when there is no answer.
replay PROP:  runs the case of a replay file.

Everything is a function of (code under test, seed, tier). A worker that is ended by a signal
left the case it was running in a file; that case is run again in a process of its own and
reduced there.
"""
import argparse
import ctypes
import hashlib
import json
import os
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SHARDS = 8
SHRINK_SECONDS = 60
IDLE_SECONDS = 20
CASE_CPU_SECONDS = 40


def dumps(case):
    return json.dumps(case, separators=(',', ':'))


# The worker's side -----------------------------------------------------------------------

def load(prop_id, pkg, scratch):
    """Imports the package under test from the scratch copy, over the forwarding library."""
    sys.path.insert(0, HERE)
    sys.path.insert(0, pkg)
    sys.dont_write_bytecode = True
    import gxprops
    import graphrox
    gxprops.gx = graphrox
    gxprops.scratch = scratch
    fwd = ctypes.CDLL(os.path.join(pkg, 'graphrox', 'graphrox-x86_64-unknown-linux-gnu.so'))
    for name in ('gxf_error', 'gxf_memory_error'):
        getattr(fwd, name).restype = ctypes.c_char_p
    for name in ('gxf_live', 'gxf_made', 'gxf_released', 'gxf_live_blocks'):
        getattr(fwd, name).restype = ctypes.c_size_t
    fwd.gxf_describe_live.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
    gxprops.fwd = fwd
    if prop_id == 'P26':
        sys.path.insert(0, os.path.join(pkg, 'scripts'))
        import generate_graph
        gxprops.gen = generate_graph
    if prop_id == 'P29':
        sys.setswitchinterval(1e-6)
    sys.unraisablehook = lambda *a: None
    return gxprops, gxprops.PROPS[prop_id]


def warm_up(gxprops):
    """First calls, so that memory the library keeps for good is not taken for a leak."""
    gx = gxprops.gx
    g = gx.Graph(is_undirected=True)
    g.add_edge(1, 2)
    for o in (g.compress(1), g.find_avg_pool_matrix(2), g.approximate(2, 0.1)):
        del o
    bytes(g), g.matrix_string()
    try:
        gx.Graph.from_bytes(b'')
    except ValueError:
        pass
    del g


def arm(seconds):
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def run_case(gxprops, prop, case, ctx):
    """None, or what is wrong."""
    ctx.start()
    gxprops.reset()
    arm(CASE_CPU_SECONDS)
    try:
        prop.check(case, ctx)
        return None
    except gxprops.Bad as e:
        return str(e)
    except Exception as e:  # Anything the package raises on a valid use.
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        where = f'{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}'
        return f'{type(e).__name__}: {str(e)[:300]} (at {where})'
    finally:
        arm(0)


def worker(a):
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    scratch = os.path.join(a.dir, f'w{a.shard}')
    os.makedirs(scratch)
    gxprops, prop = load(a.prop, os.path.join(a.dir, 'pkg'), scratch)
    warm_up(gxprops)
    import gc
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed, settings

    total = int(prop.cases[a.tier] * float(os.environ.get('GX_SCALE', 1)))
    count = total // SHARDS + (1 if a.shard < total % SHARDS else 0)
    progress = os.open(os.path.join(scratch, 'progress'), os.O_RDWR | os.O_CREAT)
    ctx = gxprops.Ctx()
    state = {'runs': 0, 'best': None, 'since': None, 'samples': []}
    seen = set()

    def one(case):
        # Collections within a case look at its own objects only.
        if state['runs'] % 250 == 0:
            gc.unfreeze()
            gc.collect()
        gc.freeze()
        text = dumps(case)
        raw = text.encode()
        os.pwrite(progress, struct.pack('<Q', len(raw)) + raw, 0)
        best = state['best']
        if state['since'] and time.monotonic() - state['since'] > SHRINK_SECONDS:
            # Enough shrinking: only the best reproduction still fails.
            if text != best[0]:
                return
        wrong = run_case(gxprops, prop, case, ctx)
        state['runs'] += 1
        if wrong is None:
            if ctx.nontrivial and not best:
                h = hashlib.blake2b(raw, digest_size=8).digest()
                if h not in seen:
                    seen.add(h)
                    if len(state['samples']) < 3 and len(raw) < 1500:
                        state['samples'].append(case)
            return
        if best is None:
            state['since'] = time.monotonic()
        state['best'] = (text, wrong)
        with open(os.path.join(scratch, 'best.tmp'), 'w') as f:
            json.dump({'case': case, 'wrong': wrong}, f)
        os.replace(os.path.join(scratch, 'best.tmp'), os.path.join(scratch, 'best'))
        raise AssertionError(wrong)

    regress = 0
    gc.disable()
    try:
        if a.shard == 0:
            d = os.path.join(ROOT, 'corpus', a.prop)
            for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                with open(os.path.join(d, f)) as fh:
                    one(json.load(fh)['case'])
                regress += 1
        if hasattr(prop, 'fixed'):
            r = random.Random(a.seed * 1000 + a.shard)
            for _ in range(prop.fixed_cases[a.tier]):
                one(prop.fixed(r))

        t = given(prop.strategy())(lambda case: one(case))
        t = settings(max_examples=count, database=None, deadline=None, derandomize=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=[Phase.generate, Phase.shrink], print_blob=False,
                     verbosity=hypothesis.Verbosity.quiet)(t)
        seed(a.seed * 1000 + a.shard)(t)()
    except AssertionError:
        if not state['best']:
            raise
    except Exception:
        # Hypothesis itself objects, for instance because a failure does not repeat.
        if not state['best']:
            raise
    out = {'runs': state['runs'], 'labels': ctx.labels, 'regress': regress,
           'samples': state['samples'], 'seen': [int.from_bytes(h, 'little') for h in seen]}
    if state['best']:
        out['case'], out['wrong'] = json.loads(state['best'][0]), state['best'][1]
    with open(os.path.join(scratch, 'result'), 'w') as f:
        json.dump(out, f)


class Idle:
    """Ends (SIGUSR2) a process that waits for good: all of its threads asleep for long, none
    having run meanwhile. Load cannot cause that: a thread that could run is not asleep."""

    def __init__(self, pid):
        self.pid, self.last, self.since = pid, None, 0

    def look(self):
        now = []
        try:
            d = f'/proc/{self.pid}/task'
            for t in sorted(os.listdir(d)):
                with open(f'{d}/{t}/status') as f:
                    now.append([t] + [x for x in f if x.startswith('State') or 'ctxt_switches' in x])
        except OSError:
            now = []
        if not now or now != self.last or not all('S (sleeping)' in n[1] for n in now):
            self.last, self.since = now, time.monotonic()
        elif time.monotonic() - self.since > IDLE_SECONDS:
            os.kill(self.pid, signal.SIGUSR2)


def ended(n):
    if n == signal.SIGVTALRM:
        return f'does not finish within {CASE_CPU_SECONDS} s of processor time'
    if n == signal.SIGUSR2:
        return f'waits for good (asleep for {IDLE_SECONDS} s)'
    return f'the process crashes ({signal.Signals(n).name})'


def forked(gxprops, prop, case):
    """Runs the case in a child: '' when it is fine, else what is wrong."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            wrong = None
            for _ in range(getattr(prop, 'tries', 1)):
                wrong = wrong or run_case(gxprops, prop, case, gxprops.Ctx())
            os.write(w, (wrong or '').encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    idle = Idle(pid)
    while not select.select([r], [], [], 1)[0]:
        idle.look()
    with os.fdopen(r, 'rb') as f:
        text = f.read().decode()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        n = os.WTERMSIG(status)
        if n in (signal.SIGKILL, signal.SIGTERM):
            sys.exit(2)
        return ended(n)
    return text


def smaller(case):
    """Cases with parts of one of its lists left out."""
    def at(node, path):
        for k in path:
            node = node[k]
        return node
    paths = []

    def visit(node, path):
        if isinstance(node, list) and len(path) <= 3:
            if node:
                paths.append(path)
            for i, x in enumerate(node):
                visit(x, path + [i])
        elif isinstance(node, dict):
            for k, x in node.items():
                visit(x, path + [k])
    visit(case, [])
    for path in paths:
        n = len(at(case, path))
        if path and isinstance(path[-1], int) and n < 8:
            continue  # An operation, not a list of things.
        size = n
        while size:
            for i in range(0, n, size):
                c = json.loads(dumps(case))
                v = at(c, path)
                del v[i:i + size]
                yield c
            size //= 2


def isolate(a):
    """Confirms and reduces the case in a.case, each run in a child of its own."""
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    scratch = tempfile.mkdtemp(dir=a.dir)
    gxprops, prop = load(a.prop, os.path.join(a.dir, 'pkg'), scratch)
    warm_up(gxprops)
    with open(a.case) as f:
        case = json.load(f)
    wrong = forked(gxprops, prop, case)
    end = time.monotonic() + SHRINK_SECONDS
    again = bool(wrong)
    while again and time.monotonic() < end:
        again = False
        for c in smaller(case):
            if time.monotonic() > end:
                break
            try:
                w = forked(gxprops, prop, c)
            except (KeyError, IndexError, TypeError):
                continue
            if w and ('crashes' in w) == ('crashes' in wrong):
                case, wrong, again = c, w, True
                break
    with open(a.out, 'w') as f:
        json.dump({'case': case, 'wrong': wrong}, f)


# The caller's side -----------------------------------------------------------------------

def prepare(tmp):
    """A copy of the package and scripts under test, with the forwarding library inside."""
    pkg = os.path.join(tmp, 'pkg')
    skip = shutil.ignore_patterns('*.so', '*.dll', '*.dylib', '__pycache__')
    shutil.copytree('/repo/graphrox-py/graphrox', os.path.join(pkg, 'graphrox'), ignore=skip)
    shutil.copytree('/repo/scripts', os.path.join(pkg, 'scripts'), ignore=skip)
    c = os.path.join(ROOT, 'build', 'c')
    shutil.copy(os.path.join(c, 'libpyfwd.so'),
                os.path.join(pkg, 'graphrox', 'graphrox-x86_64-unknown-linux-gnu.so'))
    env = {'PATH': os.environ['PATH'], 'HOME': tmp, 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
           'GX_SCALE': os.environ.get('GX_SCALE') or '1',
           'LD_PRELOAD': os.path.join(c, 'libgxmem.so'),
           'GX_REAL_LIB': os.path.join(c, 'debug', 'libgraphrox.so')}
    return env


def child(a, tmp, mode, *more):
    return [sys.executable, '-X', 'faulthandler=0', os.path.abspath(__file__), mode, a.prop,
            '--tier', a.tier, '--seed', str(a.seed), '--dir', tmp, *more]


def run(a, tmp):
    start = time.monotonic()
    env = prepare(tmp)
    procs = []
    for s in range(SHARDS):
        err = open(os.path.join(tmp, f'err{s}'), 'wb')
        procs.append(subprocess.Popen(child(a, tmp, 'worker', '--shard', str(s)), env=env, cwd=tmp,
                                      stdin=subprocess.DEVNULL, stdout=err, stderr=err))
    idle = [Idle(p.pid) for p in procs]
    polls = 0
    while any(p.poll() is None for p in procs):
        time.sleep(0.02)
        polls += 1
        if polls % 50 == 0:
            for p, i in zip(procs, idle):
                if p.poll() is None:
                    i.look()
    codes = [p.returncode for p in procs]
    runs = regress = 0
    labels, seen, samples, found, broken = {}, set(), [], [], []
    for s, code in enumerate(codes):
        w = os.path.join(tmp, f'w{s}')
        if code == 0:
            with open(os.path.join(w, 'result')) as f:
                r = json.load(f)
            runs += r['runs']
            regress += r['regress']
            seen.update(r['seen'])
            samples += r['samples']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            if 'case' in r:
                found.append((r['case'], r['wrong']))
        elif os.path.exists(os.path.join(w, 'best')):
            # Ended while reducing a failure it had found.
            with open(os.path.join(w, 'best')) as f:
                r = json.load(f)
            found.append((r['case'], r['wrong']))
        elif code < 0 and -code not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
            if found:
                continue
            with open(os.path.join(w, 'progress'), 'rb') as f:
                n, = struct.unpack('<Q', f.read(8))
                case = json.loads(f.read(n))
            c, o = os.path.join(tmp, 'crash.json'), os.path.join(tmp, 'reduced.json')
            with open(c, 'w') as f:
                json.dump(case, f)
            p = subprocess.run(child(a, tmp, 'isolate', '--case', c, '--out', o), env=env, cwd=tmp,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            how = 'a worker process: ' + ended(-code)
            if p.returncode == 0:
                with open(o) as f:
                    r = json.load(f)
                found.append((r['case'], r['wrong'] or how))
            else:
                found.append((case, how))
        else:
            with open(os.path.join(tmp, f'err{s}'), errors='replace') as f:
                broken.append(f'worker {s} ended with {code}:\n{f.read()[-3000:]}')
    if broken and not found:
        print('\n'.join(broken))
        return 2
    if sum(1 for _ in seen) == 0 and not found:
        print('no non-trivial case was generated')
        return 2
    sys.path.insert(0, HERE)
    import gxprops
    prop = gxprops.PROPS[a.prop]
    found.sort(key=lambda f: len(dumps(f[0])))
    ev = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': runs, 'distinct_nontrivial': len(seen), 'rule': prop.rule,
                       'samples': sorted(samples, key=lambda c: len(dumps(c)))[-3:],
                       'labels': dict(sorted(labels.items())), 'shards': SHARDS,
                       'regression_cases': regress},
          'assumptions': prop.assumptions, 'violations': 1 if found else 0,
          'wall_s': round(time.monotonic() - start, 2)}
    with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} {a.tier} seed={a.seed}: {runs} cases, {len(seen)} distinct non-trivial, "
          f"{1 if found else 0} failures, {ev['wall_s']} s")
    if found:
        case, wrong = found[0]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', f'{a.prop}-seed{a.seed}.json')
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'failure': wrong, 'case': case}, f, indent=1)
        print('failure: ' + wrong)
        print('case: ' + dumps(case)[:2000])
        print(f'VIOLATION property={a.prop} replay={path}')
        return 1
    return 0


def replay(a, tmp):
    env = prepare(tmp)
    with open(a.file) as f:
        case = json.load(f)['case']
    c, o = os.path.join(tmp, 'case.json'), os.path.join(tmp, 'out.json')
    with open(c, 'w') as f:
        json.dump(case, f)
    p = subprocess.run(child(a, tmp, 'single', '--case', c, '--out', o), env=env, cwd=tmp, stdin=subprocess.DEVNULL)
    if p.returncode:
        return 2
    with open(o) as f:
        wrong = json.load(f)['wrong']
    if wrong:
        print('failure: ' + wrong)
        print(f'VIOLATION property={a.prop} replay={a.file}')
        return 1
    print('the case passes')
    return 0


def single(a):
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    gxprops, prop = load(a.prop, os.path.join(a.dir, 'pkg'), tempfile.mkdtemp(dir=a.dir))
    warm_up(gxprops)
    with open(a.case) as f:
        wrong = forked(gxprops, prop, json.load(f))
    with open(a.out, 'w') as f:
        json.dump({'wrong': wrong}, f)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('mode')
    p.add_argument('prop')
    p.add_argument('file', nargs='?')
    p.add_argument('--tier', default='quick')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--dir')
    p.add_argument('--shard', type=int)
    p.add_argument('--case')
    p.add_argument('--out')
    a = p.parse_args()
    if a.mode == 'worker':
        worker(a)
        return 0
    if a.mode in ('isolate', 'single'):
        {'isolate': isolate, 'single': single}[a.mode](a)
        return 0
    base = os.path.join(ROOT, 'build', 'scratch')
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f'py-{a.prop}-', dir=base)
    try:
        return run(a, tmp) if a.mode == 'run' else replay(a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
