#!/usr/bin/env python3
"""Mutation campaign over a scratch copy of /repo: how blind are the checks?

mutate.py list SRC                     -> mutants as JSON lines on stdout
mutate.py tests DIR MUTANTS OUT        -> which mutants build and pass the stable tests
mutate.py checks DIR SURVIVORS OUT     -> which of those the checks catch

Every run happens in a mount namespace of its own in which copies stand for /repo and /verif.
A development tool: no check uses it.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys

FILES = {
    'graphrox-rs/src/graph/standard.rs': 'rs', 'graphrox-rs/src/graph/compressed.rs': 'rs',
    'graphrox-rs/src/matrix/csr_adjacency_matrix.rs': 'rs', 'graphrox-rs/src/matrix/csr_square_matrix.rs': 'rs',
    'graphrox-rs/src/matrix/mod.rs': 'rs', 'graphrox-rs/src/graph/mod.rs': 'rs', 'graphrox-rs/src/util/mod.rs': 'rs',
    'graphrox-c/src/lib.rs': 'c', 'graphrox-py/graphrox/__init__.py': 'py', 'scripts/generate_graph.py': 'py',
}
CHECKS = {
    'rs': [f'P{i:02}' for i in (1, 2, 9, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 3, 16, 17, 18)],
    'c': ['P18', 'P19', 'P20', 'P21', 'P22', 'P25'],
    'py': ['P22', 'P23', 'P24', 'P25', 'P26'],
}
SWAPS = [
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' / ', ' % '), (r' % ', ' / '),
    (r' \+= ', ' -= '), (r' -= ', ' += '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' and ', ' or '), (r' or ', ' and '),
    (r'<< ', '>> '), (r'>> ', '<< '), (r' \| ', ' & '), (r' & ', ' | '), (r'\|= ', '&= '), (r' \^ ', ' | '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'),
    (r'\bcol\b', 'row'), (r'\brow\b', 'col'), (r'\bfrom_vertex_id\b', 'to_vertex_id'), (r'\bto_vertex_id\b', 'from_vertex_id'),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b8\b', '7'), (r'\b8\b', '9'), (r'\b64\b', '63'), (r'\b64\b', '65'),
    (r'\b2\b', '3'), (r'to_be\b', 'to_le'), (r'from_be\b', 'from_le'), (r'\bmax\b', 'min'), (r'\bmin\b', 'max'),
    (r'saturating_add', 'wrapping_add'), (r'checked_add', 'checked_sub'), (r'\bu64\b', 'u32'), (r'!self', 'self'),
    (r'if !', 'if '), (r'if ', 'if !'), (r'\bif (?!let)([^{]+) \{', r'if false {'), (r'\bif (?!let)([^{]+) \{', r'if true {'),
    (r'\bif (.+):$', r'if False:'), (r'\bif (.+):$', r'if not (\1):'),
    (r'is_some\(\)', 'is_none()'), (r'\bcontinue;', 'break;'), (r'return (.+);', r'return Default::default();'),
    (r'in_edges', 'out_edges'), (r'out_edges', 'in_edges'), (r'c_uint64', 'c_uint32'), (r'c_size_t', 'c_uint32'),
    (r'in_degree', 'out_degree'), (r'_undirected\b', '_directed'), (r'edge_count', 'vertex_count'), (r'vertex_count', 'edge_count'),
    (r'from_vertex\b', 'to_vertex'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.\.=', '..'), (r'(\d)\.\.(\w)', r'\1..=\2'),
    (r'id_pair\[0\]', 'id_pair[1]'), (r'id_pair\[1\]', 'id_pair[0]'), (r'\.size\b', '.size + 1'), (r'break', 'continue'),
    (r'unwrap_or\(0\)', 'unwrap_or(1)'), (r'as u64', 'as u32 as u64'), (r'as u8', 'as i8 as u8'), (r'f64', 'f32'),
]


def mutants(src):
    out = []
    for path, lang in FILES.items():
        lines = open(f'{src}/{path}').read().split('\n')
        doc = False
        for n, line in enumerate(lines):
            if '#[cfg(test)]' in line:
                break
            s = line.strip()
            if lang == 'py':
                q = s.count('"""')
                if q == 1:
                    doc = not doc
                if doc or q:
                    continue
            if not s or s.startswith(('//', '#', 'use ', 'import ', 'fn ', 'pub fn', 'pub unsafe', 'def ', 'class ')) or '=> Err' in s:
                continue
            for pat, rep in SWAPS:
                for m in re.finditer(pat, line):
                    new = line[:m.start()] + m.expand(rep) + line[m.end():]
                    if new != line:
                        out.append((path, n, line, new))
            if lang != 'py' and s.endswith(';') and not s.startswith(('let ', 'return', '}', 'const', 'static')):
                out.append((path, n, line, ''))
            if lang == 'py' and not s.endswith((':', ',', '(', '[')) and not s.startswith(('return', 'raise', ')', ']', "'")) and '(' in s:
                out.append((path, n, line, re.match(' *', line).group() + 'pass'))
    seen, r = set(), []
    for i, (p, n, a, b) in enumerate(out):
        if (p, n, b) not in seen:
            seen.add((p, n, b))
            r.append({'id': len(r), 'file': p, 'line': n + 1, 'old': a, 'new': b})
    return r


def inside(repo, verif, cmd, timeout):
    mounts = f'mount --bind {repo} /repo'
    if verif:
        mounts += f' && mount --bind {verif} /verif'
    try:
        p = subprocess.run(['unshare', '-Urmpf', '--kill-child', 'bash', '-c', f'{mounts} && cd /repo && {cmd}'], capture_output=True,
                           text=True, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def apply(repo, m):
    p = f'{repo}/{m["file"]}'
    t = open(p).read().split('\n')
    assert t[m['line'] - 1] == m['old'], m
    keep = '\n'.join(t)
    t[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(t))
    return p, keep


def tests(base, todo, out):
    good = json.load(open('/opt/vp/BASELINE.json'))
    workers = list(range(8))
    for w in workers:
        if not os.path.exists(f'{base}/t{w}'):
            subprocess.run(['cp', '-a', '/repo', f'{base}/t{w}'], check=True)
    done = {json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
    todo = [m for m in todo if m['id'] not in done]
    f = open(out, 'a')

    def work(w):
        repo = f'{base}/t{w}'
        for m in todo[w::len(workers)]:
            p, keep = apply(repo, m)
            try:
                rc, _ = inside(repo, None, '. /opt/vp/env.sh; taskset -c %d cargo build --workspace --offline' % w, 200)
                if rc != 0:
                    res = 'nobuild'
                else:
                    o = f'{base}/o{w}.json'
                    if os.path.exists(o):
                        os.unlink(o)
                    rc, txt = inside(repo, None, f'taskset -c {w} bash /opt/vp/test.sh {o}', 500)
                    res = 'error'
                    if rc == 'timeout':
                        res = 'killed'
                    elif '197 passed, 0 failed' in txt:
                        res = 'survives'
                    else:
                        res = 'killed'
            finally:
                open(p, 'w').write(keep)
            f.write(json.dumps({**m, 'tests': res}) + '\n')
            f.flush()
    with cf.ThreadPoolExecutor(len(workers)) as ex:
        list(ex.map(work, workers))


def checks(base, todo, out):
    repo, verif = f'{base}/crepo', f'{base}/cverif'
    for d, s in ((repo, '/repo'), (verif, '/verif')):
        if not os.path.exists(d):
            subprocess.run(['cp', '-a', s, d], check=True)
    done = {json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
    f = open(out, 'a')
    for m in todo:
        if m['id'] in done:
            continue
        p, keep = apply(repo, m)
        res, by = 'MISSED', None
        try:
            for c in CHECKS[FILES[m['file']]]:
                rc, txt = inside(repo, verif, f'VERIF_SEED=1 /verif/check.sh {c}', 900)
                if rc == 1 and f'VIOLATION property={c}' in txt:
                    res, by = 'caught', c
                    break
                if rc != 0:
                    res, by = f'rc {rc}', c + ' ' + txt[-300:]
                    if 'could not compile' in txt:
                        break
        finally:
            open(p, 'w').write(keep)
        f.write(json.dumps({**m, 'checks': res, 'by': by}) + '\n')
        f.flush()


if __name__ == '__main__':
    mode = sys.argv[1]
    if mode == 'list':
        for m in mutants(sys.argv[2]):
            print(json.dumps(m))
    else:
        todo = [json.loads(l) for l in open(sys.argv[3])]
        if mode == 'checks':
            todo = [m for m in todo if m.get('tests') == 'survives']
        os.makedirs(sys.argv[2], exist_ok=True)
        {'tests': tests, 'checks': checks}[mode](sys.argv[2], todo, sys.argv[4])
