#!/usr/bin/env python3
"""Checks of rmw_dds_common by monitored execution.

  run.py PROPERTY                   decide one property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  run.py PROPERTY --replay FILE     run one recorded violation again
  run.py --build                    build every harness
  run.py --manifest                 write MANIFEST.json
  REPO=/path run.py ...             use another checkout (development only; default /repo)

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, BINARIES, rule_of  # noqa: E402

REPO = os.path.abspath(os.environ.get('REPO', '/repo'))
PKG = os.path.join(REPO, 'rmw_dds_common')
BUILD = os.path.join(HERE, 'build')
JOBS = 8


class Broken(Exception):
    pass


# ---------------------------------------------------------------- build
def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def header_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub.sort()
            for f in sorted(files):
                if f.endswith(('.h', '.hpp', '.msg', '.inc', '.ipp', '.hh', '.hxx')):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()[:24]


class Builder:
    def __init__(self):
        self.obj = os.path.join(BUILD, 'obj')
        os.makedirs(self.obj, exist_ok=True)
        self.hd_repo = header_digest([os.path.join(PKG, 'include'), os.path.join(PKG, 'src'), os.path.join(PKG, 'msg')])
        self.hd_own = header_digest([os.path.join(HERE, 'harness'), os.path.join(HERE, 'shim')]) + \
            digest(read(os.path.join(HERE, 'gen_msgs.py')))
        self.gen = os.path.join(BUILD, 'gen-' + digest(self.hd_repo, self.hd_own))
        if not os.path.isdir(self.gen):
            tmp = tempfile.mkdtemp(dir=BUILD)
            subprocess.run([sys.executable, os.path.join(HERE, 'gen_msgs.py'), os.path.join(PKG, 'msg'), tmp], check=True)
            try:
                os.rename(tmp, self.gen)
            except OSError:
                shutil.rmtree(tmp)
        self.inc = ['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(HERE, 'shim', 'include'),
                    '-I' + os.path.join(PKG, 'include'), '-I' + os.path.join(PKG, 'src'), '-I' + self.gen]
        self.repo_src = sorted(glob.glob(os.path.join(PKG, 'src', '**', '*.cpp'), recursive=True))
        self.repo_src += sorted(glob.glob(os.path.join(PKG, 'src', '**', '*.c'), recursive=True))
        if not self.repo_src:
            raise Broken('no sources under %s/src' % PKG)

    def plan(self, variant, binary):
        """[(kind, source, object, command)], output, link command"""
        v = VARIANTS[variant]
        steps = []
        prelude = ['-include', os.path.join(HERE, 'harness', 'prelude.hpp')]
        for s in self.repo_src:
            # asserts of the code under test are its own business: NDEBUG as in a release build
            cmd = ['g++', '-std=c++17', '-w', '-DRMW_DDS_COMMON_BUILDING_DLL'] + prelude + v['repo'] + self.inc
            steps.append(('repo', s, cmd))
        for s in ['shim/src/shim.cpp'] + ['harness/%s.cpp' % x for x in BINARIES[binary] + v['extra'] + [binary]]:
            steps.append(('own', os.path.join(HERE, s), ['g++', '-std=c++17', '-w'] + v['own'] + self.inc))
        out = []
        for kind, s, cmd in steps:
            key = digest(kind, os.path.basename(s), read(s), self.hd_repo, self.hd_own, ' '.join(cmd[1:]))
            o = os.path.join(self.obj, '%s-%s-%s.o' % (os.path.basename(s).rsplit('.', 1)[0], variant, key))
            out.append((kind, s, o, cmd + ['-c', s]))
        objs = [o for _, _, o, _ in out]
        exe = os.path.join(BUILD, '%s-%s-%s' % (binary, variant, digest(*objs)))
        return out, exe, ['g++'] + v['own'] + objs + v['link'] + ['-lpthread']

    def build(self, wanted):
        """wanted: set of (variant, binary); returns {(variant, binary): exe}"""
        plans = {w: self.plan(*w) for w in wanted}
        todo = {}
        for steps, exe, _ in plans.values():
            if os.path.exists(exe):
                continue
            for kind, s, o, cmd in steps:
                if not os.path.exists(o):
                    todo[o] = (kind, s, cmd)
        # the slow ones first
        order = sorted(todo, key=lambda o: -os.path.getsize(todo[o][1]) - (20000 if 'graph_cache' in o else 0))

        def compile_one(o):
            kind, s, cmd = todo[o]
            tmp = '%s.%d.%d.tmp' % (o, os.getpid(), threading.get_ident())
            r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Broken('%s does not compile:\n%s' % (s, r.stdout[-4000:]))
            os.rename(tmp, o)

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(compile_one, o) for o in order]:
                f.result()

            def link(w):
                _, exe, cmd = plans[w]
                if os.path.exists(exe):
                    return
                tmp = '%s.%d.tmp' % (exe, os.getpid())
                r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise Broken('%s does not link:\n%s' % (w, r.stdout[-4000:]))
                os.rename(tmp, exe)
            for f in [ex.submit(link, w) for w in plans]:
                f.result()
        return {w: p[1] for w, p in plans.items()}


# ---------------------------------------------------------------- running
ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:'
                    'alloc_dealloc_mismatch=1:check_initialization_order=1:allocator_may_return_null=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4',
    'LSAN_OPTIONS': 'exitcode=77',
    'LC_ALL': 'C', 'MALLOC_PERTURB_': '90',
})
for _v in ('LD_PRELOAD', 'MALLOC_CHECK_'):
    ENV.pop(_v, None)


class Violation:
    def __init__(self, key, detail, variant, mode, case, history=(), report=''):
        self.key, self.detail, self.variant, self.mode, self.case = key, detail, variant, mode, case
        self.history, self.report = list(history), report


def repo_frame(text):
    """The innermost function of the code under test in a sanitizer report (None if there is none)."""
    pats = [r'#\d+\s+(?:0x[0-9a-f]+ in )?(.+?)\s+(%s/\S+?)(?::\d+)*(?:\s|$)' % re.escape(PKG),
            r'(?:at|by) 0x[0-9A-F]+: (.+?) \((\w+\.[ch]pp):\d+\)']
    for m in re.finditer(pats[0], text):
        return re.sub(r'\(.*', '', m.group(1)).strip()
    names = {os.path.basename(p) for p in glob.glob(PKG + '/src/*') + glob.glob(PKG + '/include/rmw_dds_common/*')}
    for m in re.finditer(pats[1], text):
        if m.group(2) in names:
            return re.sub(r'\(.*', '', m.group(1)).strip()
    return None


def called_from_harness(text):
    """The function of the code under test that a race report without a frame of it ran through. A thread sanitizer's
    stack lacks the caller of an uninstrumented library function, so a race inside libstdc++ shows the line of the
    harness that called the code under test, or the global of the code under test that is raced for."""
    m = re.search(r"Location is global '(rmw_dds_common::[^']*)'", text)
    if m:
        return re.sub(r'\(.*\)', '', m.group(1))
    api = set()
    for h in glob.glob(PKG + '/include/rmw_dds_common/*'):
        api |= set(re.findall(r'\b(\w+)\s*\(', open(h).read()))
    lines = text.splitlines()
    for i, l in enumerate(lines[:-1]):
        if '(libstdc++' not in l and '(libc.' not in l:
            continue
        m = re.search(r'(%s/harness/\S+?):(\d+)' % re.escape(HERE), lines[i + 1])
        if m:
            at = int(m.group(2))
            src = ' '.join(open(m.group(1)).read().splitlines()[max(0, at - 2):at + 1])
            for f in re.findall(r'(?:rmw_dds_common::|\.|->)\s*(\w+)\s*\(', src):
                if f in api and f not in ('size', 'begin', 'end', 'clear', 'find', 'erase', 'data'):
                    return f
    return None


def classify(rc, err, variant):
    """(key, first line of the report) of an abnormal end, or raise Broken."""
    fr = repo_frame(err)
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', err)
    if m:
        what = re.sub(r'\s+', '-', m.group(1).strip())
        fr = fr or called_from_harness(err)
        if not fr:
            raise Broken('a %s without the code under test:\n%s' % (what, err[:6000]))
        return 'sanitizer:%s:%s' % (what, fr), m.group(0)
    if 'LeakSanitizer: detected memory leaks' in err:
        return 'sanitizer:leak:%s' % (fr or '?'), 'memory leaked'
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
    if m:
        return 'sanitizer:%s:%s' % (m.group(1), fr or '?'), m.group(0)
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m:
        return 'sanitizer:undefined:%s' % (fr or '?'), m.group(0)
    if 'VH-HEAP:' in err or rc == 98:
        return 'heap-misuse', err[-400:]
    if rc == 99 and '== ' in err:
        return 'memcheck:%s' % (fr or '?'), err[:400]
    if rc < 0 or rc >= 128 or rc == 77:
        return 'crash:%s' % (('signal %d' % -rc) if rc < 0 else 'exit %d' % rc), err[-600:] or 'terminated'
    raise Broken('harness ended with %d:\n%s' % (rc, err[-4000:]))


class Runner:
    def __init__(self, prop, exes, tier, seed, scratch):
        self.prop, self.exes, self.tier, self.seed, self.scratch = prop, exes, tier, seed, scratch
        self.no_aslr = False
        self.no_lsan = False
        self.lock = threading.Lock()
        self.notes = []
        self.stop = False
        self.end = time.time() + (480 if tier == 'quick' else 3 * 3600)

    def command(self, variant, mode, a, b, out, maxviol):
        exe = self.exes[(VARIANTS[variant].get('as', variant), MODE_BIN(mode))]
        cmd = []
        if VARIANTS[variant].get('wrapper'):
            cmd += VARIANTS[variant]['wrapper']
        if self.no_aslr and variant == 'tsan':
            cmd += ['setarch', '-R']
        cmd += [exe, '--mode', mode, '--seed', str(self.seed), '--from', str(a), '--to', str(b), '--tier', self.tier,
                '--out', out, '--maxviol', str(maxviol), '--scratch', self.scratch]
        return cmd

    def once(self, variant, mode, a, b, timeout, maxviol=3):
        """Runs cases a..b-1 of one process; no case may take longer than timeout. Returns (rc, stdout, stderr, result or None, case of a crash, hung)."""
        fd, out = tempfile.mkstemp(dir=self.scratch)
        os.close(fd)
        os.unlink(out)
        env = dict(ENV)
        if self.no_lsan:
            env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
        p = subprocess.Popen(self.command(variant, mode, a, b, out, maxviol), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, start_new_session=True, cwd=self.scratch)
        hung, seen, since = False, None, time.time()
        while True:
            try:
                so, se = p.communicate(timeout=1)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                now = read(out + '.progress')[:8]
            except OSError:
                now = None
            if now != seen:
                seen, since = now, time.time()
            late = time.time() > self.end
            if late or time.time() - since > timeout:
                hung = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                so, se = p.communicate()
                break
        so, se = so.decode(errors='replace'), se.decode(errors='replace')
        case = None
        try:
            n = int.from_bytes(read(out + '.progress')[:8], 'little')
            case = n - 1 if 0 < n < 2 ** 63 else None
        except OSError:
            pass
        res = None
        if os.path.exists(out):
            try:
                res = json.loads(read(out))
            except ValueError:
                pass
        for f in (out, out + '.progress'):
            if os.path.exists(f):
                os.unlink(f)
        return p.returncode, so, se, res, case, hung

    def chunk(self, variant, mode, a, b, timeout):
        """Runs a chunk to its end, past crashes. Returns ([Violation], [result])."""
        viols, results, restarts = [], [], 0
        hung_before = set()
        while a < b and not self.stop and time.time() < self.end:
            rc, so, se, res, case, hung = self.once(variant, mode, a, b, timeout)
            for line in so.splitlines():
                if line.startswith('VIOL '):
                    j = json.loads(line[5:])
                    viols.append(Violation(j['key'], j['detail'], variant, mode, j['case'], j['history']))
            if res:
                results.append(res)
            if hung:
                c = case if case is not None else a
                if time.time() > self.end:
                    self.note('out of time: %s/%s stopped in case %d of %d to %d' % (variant, mode, c, a, b))
                    break
                if case is None:
                    self.note('%s/%s cases %d to %d did not come to an end' % (variant, mode, a, b))
                    break
                if c in hung_before:
                    viols.append(Violation('hang', 'the case did not end within %d s, twice' % timeout, variant, mode, c))
                    break
                else:
                    hung_before.add(c)
                    timeout = max(timeout, 80)
                    self.note('a case was stopped after %d s: %s/%s case %d' % (timeout, variant, mode, c))
                restarts += 1
                if restarts > 4:
                    break
                continue
            if rc == 0 and res:
                break
            if rc == 3 and res:
                if not viols:
                    raise Broken('%s %s: violations were found and not reported' % (variant, mode))
                last = max(v.case for v in viols)
                if len([v for v in viols if v.case >= a]) >= 3 and last + 1 < b and restarts < 4:
                    a = last + 1
                    restarts += 1
                    continue
                break
            if rc == 4 and viols:
                a = viols[-1].case + 1
                restarts += 1
                if restarts > 4:
                    break
                continue
            if 'unexpected memory mapping' in se and not self.no_aslr:
                self.no_aslr = True
                continue
            if 'LeakSanitizer has encountered a fatal error' in se or 'LeakSanitizer does not work under ptrace' in se:
                if self.no_lsan:
                    raise Broken(se[-2000:])
                self.no_lsan = True
                self.note('leak detection by the sanitizer is not possible here; heap accounting of the release build decides leaks')
                continue
            if case is None and 'LeakSanitizer' not in se and rc not in (66, 77, 99) and rc >= 0:
                raise Broken('%s %s ended with %d before its first case or after its last:\n%s\n%s' % (variant, mode, rc, so[-500:], se[-3000:]))
            try:
                if case is not None and not res and rc in (0, 1) and 'Sanitizer' not in se:
                    key, first = 'crash:exit %d' % rc, 'the process ended in the middle of the case'
                else:
                    key, first = classify(rc, se, variant)
            except Broken as e:
                # out of memory or killed from outside is no verdict
                raise Broken('%s %s: %s' % (variant, mode, e))
            if rc == -9:
                raise Broken('%s %s was killed (out of memory?)' % (variant, mode))
            viols.append(Violation(key, first, variant, mode, case if case is not None else a, [], se[:12000]))
            restarts += 1
            if case is None or restarts > 4:
                break
            a = case + 1
        return viols, results

    def note(self, s):
        with self.lock:
            self.notes.append(s)


def MODE_BIN(mode):
    for b, modes in MODES.items():
        if mode in modes:
            return b
    raise Broken('unknown mode ' + mode)


MODES = {
    'h_graph': ['g01', 'g02', 'g03', 'g04', 'g05', 'g06', 'g07', 'g08', 'g10', 'g11', 'g12', 'g13', 'g15'],
    'h_context': ['c01', 'c02', 'c05', 'c06', 'm01'],
    'h_conc': ['g14', 'g13c', 'g08c', 'g09', 'c03', 'c04'],
    'h_misc': ['i01', 'i02', 't01', 'q01', 'q02', 'q03', 'q04', 'q05', 'q06', 'q07', 'q08', 'q09', 'q10'],
    'h_security': ['s01', 's02', 's03', 's04', 's05', 's06'],
}


def known_findings(prop):
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    args = sys.argv[1:]
    if args == ['--build']:
        b = Builder()
        want = set()
        for c in CHECKS.values():
            for t in c['runs']:
                want.add((VARIANTS[t[0]].get('as', t[0]), MODE_BIN(t[1])))
        b.build(want)
        print('built %d harnesses' % len(want))
        return 0
    if args == ['--manifest']:
        return manifest()
    prop = args[0]
    check = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vh-')
    os.chmod(scratch, 0o755)
    try:
        if len(args) >= 3 and args[1] == '--replay':
            return replay(prop, json.load(open(args[2])), scratch)
        return decide(prop, check, tier, seed, scratch, t0)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwX', scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


def manifest():
    props = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
    out = {'version': 1, 'setup_cmd': 'python3 run.py --build',
           'checks': [{'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 run.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': CHECKS[p]['technique'], 'level': CHECKS[p]['level'],
                       'level_note': CHECKS[p]['note']} for p in props],
           'not_applicable': [],
           'notes': 'No hooks: every check compiles the unmodified sources of /repo with instrumentation chosen by compiler and linker flags. '
                    'The sources other than security.cpp need stand-ins for the ROS libraries they use, which are in shim/.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    return 0


def tier_runs(check, tier):
    out = []
    for r in check['runs']:
        variant, mode, quick, thorough = r[0], r[1], r[2], r[3]
        n = quick if tier == 'quick' else thorough
        if n:
            out.append((variant, mode, n))
    return out


def decide(prop, check, tier, seed, scratch, t0):
    runs = tier_runs(check, tier)
    exes = Builder().build({(VARIANTS[v].get('as', v), MODE_BIN(m)) for v, m, _ in runs})
    t1 = time.time()
    runner = Runner(prop, exes, tier, seed, scratch)
    timeout = 40 if tier == 'quick' else 300    # for one case
    tasks = []
    for v, m, n in runs:
        k = min(JOBS if tier == 'quick' else 4 * JOBS, max(1, n))
        cuts = [n * i // k for i in range(k + 1)]
        tasks += [(v, m, cuts[i], cuts[i + 1]) for i in range(k) if cuts[i] < cuts[i + 1]]
    # interleave the runs, so that the long ones start early
    tasks.sort(key=lambda t: (t[2] / max(1, [n for v, m, n in runs if (v, m) == (t[0], t[1])][0])))
    viols, per, broken = [], {}, []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(runner.chunk, v, m, a, b, timeout): (v, m) for v, m, a, b in tasks}
        for f in cf.as_completed(futs):
            try:
                vs, rs = f.result()
            except Broken as e:
                broken.append(e)
                continue
            viols += vs
            d = per.setdefault(futs[f], {'counters': {}, 'distinct': set(), 'samples': []})
            for r in rs:
                for k, n in r['counters'].items():
                    d['counters'][k] = d['counters'].get(k, 0) + n
                d['distinct'].update(r['distinct'])
                d['samples'] += r['samples']
            if vs and tier == 'quick' and not known_findings(prop):
                runner.stop = True
    known = known_findings(prop)
    fresh, listed = [], {}
    for v in viols:
        hit = [k for k in known if k[0] == v.key]
        if hit:
            listed[hit[0]] = listed.get(hit[0], 0) + 1
        else:
            fresh.append(v)
    for k in known:
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    # ---- evidence
    distinct = set()
    samples, total, counters = [], 0, {}
    breakdown = {}
    for (v, m), d in sorted(per.items()):
        distinct |= d['distinct']
        total += d['counters'].get('cases', 0)
        breakdown['%s/%s' % (v, m)] = dict(sorted(d['counters'].items()), distinct=len(d['distinct']))
        samples += [s for s in d['samples'][:2]]
        for k, n in d['counters'].items():
            counters[k] = counters.get(k, 0) + n
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': check['level'],
          'coverage': {'evaluations': total, 'distinct_nontrivial': len(distinct), 'rule': rule_of(prop), 'samples': samples[:6],
                       'observed': dict(sorted(counters.items())), 'per_build': breakdown,
                       'builds': {v: VARIANTS[v]['what'] for v in sorted({r[0] for r in runs})}},
          'assumptions': check['assumptions'], 'wall_s': round(time.time() - t0, 2), 'build_s': round(t1 - t0, 2),
          'violations': len(fresh), 'known_findings_seen': sum(listed.values()), 'notes': runner.notes}
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.rename(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    if fresh:
        seen = set()
        for v in fresh:
            if v.key in seen:
                continue
            seen.add(v.key)
            if len(seen) > 5:
                break
            path = write_replay(prop, v, tier, seed)
            print('  %s (%s build, mode %s, case %d): %s' % (v.key, v.variant, v.mode, v.case, v.detail[:1200]))
            for h in v.history[-12:]:
                print('      ' + h[:300])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if broken:
        raise broken[0]
    # ---- did the monitors see anything?
    for (v, m, n) in runs:
        got = per.get((v, m), {'counters': {}})['counters']
        if got.get('cases', 0) < n:
            raise Broken('%s/%s ran %d of %d cases' % (v, m, got.get('cases', 0), n))
        for name in check['must_see'].get(m, []):
            if not got.get(name):
                raise Broken('%s/%s never observed "%s": the run was vacuous' % (v, m, name))
    if len(distinct) < check.get('min_distinct', 20):
        raise Broken('only %d distinct cases' % len(distinct))
    print('%s held: %d cases, %d distinct, %s, %.1f s (build %.1f s)' % (
        prop, total, len(distinct), ', '.join('%s/%s %d' % r for r in runs), time.time() - t0, t1 - t0))
    return 0


def write_replay(prop, v, tier, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s-%s-%d-%s.json' % (prop, v.variant, v.mode, v.case, digest(v.key)[:8])
    with open(os.path.join(d, name), 'w') as f:
        json.dump({'property': prop, 'key': v.key, 'what_failed': v.detail, 'variant': v.variant, 'mode': v.mode, 'case': v.case,
                   'seed': seed, 'tier': tier, 'history': v.history, 'report': v.report,
                   'command': 'python3 run.py %s --replay replays/%s' % (prop, name)}, f, indent=1)
        f.write('\n')
    return os.path.join(d, name)


def replay(prop, r, scratch):
    v = r['variant']
    exes = Builder().build({(VARIANTS[v].get('as', v), MODE_BIN(r['mode']))})
    runner = Runner(prop, exes, r['tier'], r['seed'], scratch)
    tries = 50 if v == 'tsan' else 1
    for _ in range(tries):
        vs, _res = runner.chunk(v, r['mode'], r['case'], r['case'] + 1, 300)
        if vs:
            for x in vs:
                print('%s: %s' % (x.key, x.detail))
                for h in x.history:
                    print('    ' + h)
                if x.report:
                    print(x.report)
            print('VIOLATION property=%s replay=%s' % (prop, sys.argv[3]))
            return 1
    print('not reproduced')
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('CHECK FAILED: %s' % e)
        sys.exit(2)
