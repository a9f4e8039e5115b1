#!/usr/bin/env python3
"""Runs the monitors that decide one property: builds the harnesses from /repo's working tree, runs
their cases on all cores, attributes every abnormal ending to a case, writes the evidence file.

  check.py C01 [--tier quick|thorough] [--seed N] [--scale X] [--only UNIT-SUBSTRING]
  check.py --setup            builds everything for the current tree

Exit: 0 held on everything explored; 1 violated (VIOLATION line); 2 the check itself failed or was
inconclusive.
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
HARNESS = os.path.join(HERE, 'harness')
LIBS = ['-lboost_context', '-lboost_coroutine', '-lboost_system', '-lboost_thread']
NPROC = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from units import PROPS, BUILDS  # noqa: E402


def tree_key():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'sdd'), HARNESS):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def exe_name(u):
    return '%s_%s_%s' % (u['src'], u['build'], u['conf'])


def compile_cmd(u, out):
    b = BUILDS[u['build']]
    cmd = [b['cxx'], '-std=c++1y', '-DVF_CONF=%d' % u['conf'], '-DVF_BUILD="%s"' % u['build'], '-I' + REPO, '-I' + HARNESS, '-I' + os.path.join(HARNESS, 'stubs')]
    cmd += b['flags'] + [os.path.join(HARNESS, u['src'] + '.cc'), os.path.join(HARNESS, b['alloc']), '-o', out] + LIBS
    return cmd


class CheckError(Exception):
    pass


def build_all(units, key):
    """Compile what is missing; returns {exe_name: path}."""
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    # keep the disk small: other trees' executables go
    for o in os.listdir(BUILD):
        if o != key and os.path.isdir(os.path.join(BUILD, o)):
            try:
                if time.time() - os.path.getmtime(os.path.join(BUILD, o)) > 1800:
                    shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
            except OSError:
                pass
    todo = {}
    for u in units:
        todo[exe_name(u)] = u
    res, errors = {}, []

    def one(name, u):
        path = os.path.join(d, name)
        if os.path.exists(path):
            return name, path
        tmp = path + '.tmp%d' % os.getpid()
        r = subprocess.run(compile_cmd(u, tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode != 0 and BUILDS[u['build']]['cxx'] != 'g++':
            # the project is built with g++ here: code only g++ accepts is still code
            cmd = ['g++'] + compile_cmd(u, tmp)[1:]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode != 0:
            # harnesses that look inside some structure have a variant which does not
            cmd = compile_cmd(u, tmp)
            r2 = subprocess.run(cmd[:1] + ['-DVF_REDUCED'] + cmd[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r2.returncode == 0:
                r = r2
                open(path + '.reduced', 'w').close()
        if r.returncode != 0:
            errors.append((name, r.stdout[-3000:]))
            return name, None
        os.rename(tmp, path)
        return name, path

    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(one, n, u) for n, u in sorted(todo.items(), key=lambda x: -BUILDS[x[1]['build']].get('weight', 1))]
        for f in futs:
            n, p = f.result()
            res[n] = p
    if errors:
        raise CheckError('compilation failed: %s\n%s' % errors[0])
    return res


def run_env(u):
    e = dict(os.environ)
    e.update(BUILDS[u['build']].get('env', {}))
    if u.get('leaks'):
        e['ASAN_OPTIONS'] = e.get('ASAN_OPTIONS', '').replace('detect_leaks=0', 'detect_leaks=1')
    for k in ('LD_PRELOAD', 'MALLOC_PERTURB_'):
        e.pop(k, None)
    return e


def wrapper(u):
    return BUILDS[u['build']].get('wrap', [])


class Runner:
    def __init__(self, prop, tier, seed, scale, only):
        self.prop, self.tier, self.seed, self.scale = prop, tier, seed, scale
        self.units = [u for u in PROPS[prop]['units'] if (tier == 'thorough' or not u.get('thorough_only'))
                      and (not only or only in exe_name(u) + u.get('mode', ''))]
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()
        self.failures = []
        self.knowns = []
        self.counters, self.maxima, self.checks = {}, {}, 0
        self.digests, self.samples, self.cases = set(), [], 0
        self.per_unit = {}
        self.work = os.path.join(BUILD, 'run.%d' % os.getpid())
        os.makedirs(self.work, exist_ok=True)

    def cases_of(self, u):
        n = u['cases'] if self.tier == 'quick' else u['cases'] * PROPS[self.prop].get('deeper', 12)
        return max(1, int(n * self.scale)) if u['cases'] > 1 else 1

    def spawn(self, cmd, env, log, timeout):
        with open(log, 'wb') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=self.work, start_new_session=True)
            with self.lock:
                self.procs.add(p)
            try:
                t0 = time.time()
                while True:
                    try:
                        rc = p.wait(timeout=0.5)
                        return rc
                    except subprocess.TimeoutExpired:
                        if self.stop.is_set() and timeout > 0:
                            self.kill(p)
                            return 'stopped'
                        if time.time() - t0 > abs(timeout):
                            self.kill(p)
                            return 'timeout'
            finally:
                with self.lock:
                    self.procs.discard(p)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def shard(self, u, exe, k, n, total):
        if self.stop.is_set():
            return
        base = os.path.join(self.work, '%s_%s_%d' % (exe_name(u), u.get('mode', ''), k))
        prog, out, log = base + '.p', base + '.json', base + '.log'
        cmd = wrapper(u) + [exe, '--seed', str(self.seed), '--from', str(k), '--to', str(total), '--step', str(n),
               '--progress', prog, '--out', out]
        cmd += self.extra(u)
        limit = u.get('timeout', 400 if self.tier == 'quick' else 3000)
        rc = self.spawn(cmd, run_env(u), log, limit)
        if rc == 'stopped':
            return
        text = open(log, errors='replace').read()
        with self.lock:
            for m in re.finditer(r'^KNOWN-CASE key=(\S+) (.*)$', text, re.M):
                self.knowns.append((m.group(1), m.group(2)))
        if rc == 0 and 'SHARD-OK' in text and os.path.exists(out):
            d = json.load(open(out))
            with self.lock:
                self.checks += d['checks']
                for c, v in d['counters'].items():
                    self.counters[c] = self.counters.get(c, 0) + v
                for c, v in d['maxima'].items():
                    self.maxima[c] = max(self.maxima.get(c, 0), v)
                self.digests.update(d['digests'])
                if len(self.samples) < 6:
                    self.samples += ['%s %s: %s' % (exe_name(u), u.get('mode', ''), s) for s in d['samples'][:1]]
                nc = d['counters'].get('cases', 0)
                self.cases += nc
                un = '%s/%s' % (exe_name(u), u.get('mode', ''))
                self.per_unit[un] = self.per_unit.get(un, 0) + nc
            for f in (prog, out, log):
                os.unlink(f)
            return
        idx = None
        try:
            idx = int(open(prog).read().split()[0])
        except (OSError, ValueError, IndexError):
            pass
        self.abnormal(u, exe, k, n, total, rc, idx, text)

    @staticmethod
    def extra(u):
        return (['--mode', u['mode']] if u.get('mode') else []) + (['--lenient', '1'] if u.get('lenient') else [])

    def single(self, u, exe, idx, log, timeout):
        cmd = wrapper(u) + [exe, '--seed', str(self.seed), '--from', str(idx), '--to', str(idx + 1), '--step', '1']
        cmd += self.extra(u)
        return cmd, self.spawn(cmd, run_env(u), log, -timeout)

    def abnormal(self, u, exe, k, n, total, rc, idx, text):
        with self.lock:
            if self.stop.is_set():
                return
            if rc in (3, 4, 126, 127):
                self.stop.set()
                self.failures.append(('error', 'harness failed (exit %s): %s' % (rc, text[-1500:]), None, None))
                return
        if rc == -9 and 'SHARD-OK' not in text:
            # ended from outside (memory): inconclusive unless it happens again alone
            pass
        log = os.path.join(self.work, 'single_%s_%s.log' % (exe_name(u), idx))
        cmd, rc2, text2 = None, None, ''
        if idx is not None:
            cmd, rc2 = self.single(u, exe, idx, log, 120)
            text2 = open(log, errors='replace').read()
        if rc == 'timeout':
            if idx is None or rc2 != 'timeout':
                with self.lock:
                    self.stop.set()
                    self.failures.append(('error', 'watchdog fired on %s, not reproduced on case %s alone: inconclusive' % (exe_name(u), idx), None, None))
                return
            what = 'hang: case %d does not end (cases normally end within a second)' % idx
            final, ftext = cmd, text2
        elif rc == -9 and rc2 != -9 and (rc2 == 0 or rc2 is None):
            with self.lock:
                self.stop.set()
                self.failures.append(('error', 'a process was killed from outside: inconclusive', None, None))
            return
        else:
            rep = rc2 not in (0, None)
            final = cmd if rep else wrapper(u) + [exe, '--seed', str(self.seed), '--from', str(k), '--to', str(total), '--step', str(n)] + self.extra(u)
            ftext = text2 if rep else text
            what = describe(rc2 if rep else rc, ftext)
        with self.lock:
            self.stop.set()
            self.failures.append(('violation', what, dict(unit=exe_name(u), mode=u.get('mode'), case=idx, seed=self.seed, cmd=final,
                                  compile=compile_cmd(u, exe), env={k2: v for k2, v in run_env(u).items() if k2.endswith('SAN_OPTIONS')}), ftext))

    def run(self):
        t0 = time.time()
        key = self.key = tree_key()
        exes = build_all(self.units, key)
        tb = time.time() - t0
        jobs = []
        for u in self.units:
            total = self.cases_of(u)
            n = min(NPROC, total) if not u.get('serial') else 1
            jobs += [(u, exes[exe_name(u)], k, n, total) for k in range(n)]
        # longest first is unknown: interleave the units
        jobs.sort(key=lambda j: (-BUILDS[j[0]['build']].get('weight', 1), j[2]))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for f in [ex.submit(self.shard, *j) for j in jobs]:
                f.result()
        return tb, time.time() - t0


def describe(rc, text):
    m = re.search(r'^CASE-VIOLATION (.*)$', text, re.M)
    if m:
        return m.group(1)
    m = re.search(r'(ERROR: (Address|Leak)Sanitizer:? [^\n]*)', text) or re.search(r'([^\n]*runtime error:[^\n]*)', text) \
        or re.search(r'([^\n]*Assertion [^\n]* failed[^\n]*)', text) or re.search(r'(ALLOC-MONITOR:[^\n]*)', text) or re.search(r'(Error: attempt to [^\n]*)', text) \
        or re.search(r'(terminate called[^\n]*(\n[^\n]*what[^\n]*)?)', text) or re.search(r'(==\d+== (Invalid|Conditional|Use of|Mismatched)[^\n]*)', text)
    tail = m.group(1) if m else text[-300:].strip()
    return 'abnormal end (%s): %s' % (rc, tail)


def known_keys():
    r = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    ap.add_argument('--only', default='')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.setup:
        # The checks build what they need themselves; this only verifies that the tools are there.
        for t in ('g++', 'clang++', 'python3'):
            if not shutil.which(t):
                print('missing tool', t)
                return 2
        print('setup ok')
        return 0
    t0 = time.time()
    P = PROPS[a.prop]
    r = Runner(a.prop, a.tier, a.seed, a.scale, a.only)
    status, lines, violations = 0, [], 0
    tb = 0
    try:
        tb, _ = r.run()
    except CheckError as e:
        print('CHECK-ERROR', e)
        status = 2
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    kk = known_keys()
    seen = set()
    for key, what in r.knowns:
        if key in seen:
            continue
        seen.add(key)
        if (a.prop, key) in kk:
            lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, kk[(a.prop, key)]))
        else:
            r.failures.append(('violation', what, dict(key=key), what))
    for kind, what, rep, text in r.failures:
        if kind == 'error':
            print('CHECK-ERROR', what)
            status = status or 2
            continue
        violations += 1
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d_%d.json' % (a.prop, a.seed, violations))
        with open(path, 'w') as f:
            json.dump(dict(property=a.prop, what=what, replay=rep, output=(text or '')[-20000:]), f, indent=1)
        print('violated:', what[:1500])
        lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
    if violations:
        status = 1
    missing = [c for c in P.get('require', []) if not r.counters.get(c)]
    reduced = sorted(exe_name(u) for u in r.units if os.path.exists(os.path.join(BUILD, r.key, exe_name(u) + '.reduced')))
    if status == 0 and missing and not reduced and not a.only and a.scale >= 1:
        print('CHECK-ERROR inconclusive: never observed', missing)
        status = 2
    evd = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level=P.get('level', 'exploration'),
               coverage=dict(evaluations=r.cases, distinct_nontrivial=len(r.digests), rule=P['rule'], samples=r.samples,
                             conditions_checked=r.checks, observed=r.counters, maxima=r.maxima, cases_per_unit=r.per_unit,
                             known_findings=sorted(seen), reduced=reduced),
               assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    for l in lines:
        print(l)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d conditions, build %.0f s, total %.0f s -> exit %d'
          % (a.prop, a.tier, a.seed, r.cases, len(r.digests), r.checks, tb, time.time() - t0, status))
    return status


if __name__ == '__main__':
    sys.exit(main())
