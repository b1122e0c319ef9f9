"""Builds a replay harness together with /repo's current sources and runs it.

exit codes of a harness: 0 nothing found, 3 a failing input was found (printed
after FAIL), other: crashed or sanitizer report (the last CASE line names the
input)."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')


def build(ck, d, san):
    src = os.path.join(HERE, 'replay', ck['replay'])
    files = ck.get('replay_sources') or ['Utils.cpp', 'PrefixSum.cpp', 'CSR.cpp', 'COO.cpp', 'Permute.cpp', 'SpMV.cpp',
                                         'MemoryPool.cpp', 'LevelSchedule.cpp', 'SymGS.cpp', 'mm_io.cpp', 'Laplacian.cpp',
                                         'Vector.cpp']
    have = [f for f in files if os.path.exists(os.path.join(REPO, f))]
    extra = []
    if not ck.get('replay_sources'):
        # further sources of the library that the above may need
        for f in sorted(glob.glob(REPO + '/*.cpp') + glob.glob(REPO + '/reordering/*.cpp') + glob.glob(REPO + '/synk/*.cpp')):
            r = os.path.relpath(f, REPO)
            if r not in have and not has_main(f):
                have.append(r)
    flags = ['-std=c++11', '-O1', '-g', '-fopenmp', '-march=native', '-w', '-I' + REPO, '-I' + os.path.join(HERE, 'replay')] + san
    if '-DNDEBUG' not in san and not ck.get('replay_debug'):
        flags.append('-DNDEBUG')
    procs, objs = [], []
    for f in have + [src]:
        o = os.path.join(d, re.sub(r'\W', '_', f) + '.o')
        p = f if os.path.isabs(f) else os.path.join(REPO, f)
        procs.append((f, subprocess.Popen(['g++'] + flags + ['-c', p, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    good = []
    for (f, p), o in zip(procs, objs):
        out, _ = p.communicate()
        if p.returncode != 0:
            raise Exception('compiling %s: %s' % (f, out.decode(errors='replace')[-600:]))
        good.append(o)
    exe = os.path.join(d, 'replay')
    # the library as an archive (as the Makefile builds it): members are linked on demand
    lib = os.path.join(d, 'libspmp.a')
    subprocess.run(['ar', 'qcs', lib] + good[:-1], check=True)
    p = subprocess.run(['g++'] + flags + [good[-1], lib, '-Wl,--wrap=omp_get_thread_num', '-Wl,--wrap=GOMP_barrier', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Exception('linking: ' + p.stdout.decode(errors='replace')[-800:])
    return exe


def has_main(f):
    t = open(f, errors='replace').read()
    return re.search(r'\bint\s+main\s*\(', t) is not None


def run(ck, seed, seconds, validate=False):
    d = tempfile.mkdtemp(prefix='spmp_replay_')
    try:
        exe = build(ck, d, ['-fsanitize=address', '-fno-omit-frame-pointer'])
        plain = build(ck, tempfile.mkdtemp(dir=d), ['-O2'])
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=%d:allocator_may_return_null=1:max_allocation_size_mb=4096' % (1 if ck.get('leaks') else 0)
        env['OMP_WAIT_POLICY'] = 'passive'
        env.pop('OMP_NUM_THREADS', None)
        t_end = time.time() + seconds
        text, n = '', 0
        for k, (e, share) in enumerate(((exe, 0.6), (plain, 0.4))):
            log = os.path.join(d, 'log%d' % k)
            lim = max(5, int((t_end - time.time()) * (share if k == 0 else 1)))
            with open(log, 'wb') as f:
                pr = subprocess.Popen([e, str(seed + 1000 * k), str(lim), d], cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT)
                try:
                    rc = pr.wait(timeout=lim + 40)
                except subprocess.TimeoutExpired:
                    pr.kill()
                    pr.wait()
                    rc = 'hang'
            out = open(log, errors='replace').read()
            cases = re.findall(r'^CASES (\d+)', out, re.M)
            n += int(cases[-1]) if cases else 0
            case = ''
            cf = os.path.join(d, 'case.txt')
            if os.path.exists(cf):
                case = open(cf, errors='replace').read()
            if rc == 0:
                continue
            text = 'harness %s (%s build) seed %d: exit %s\n' % (ck['replay'], 'address-sanitized' if k == 0 else 'optimised', seed + 1000 * k, rc)
            text += out[-6000:] + ('\nlast case started:\n' + case[-6000:] if rc != 3 else '')
            return False, text, n
        return True, 'no failing input in %d cases' % n, n
    finally:
        shutil.rmtree(d, ignore_errors=True)
