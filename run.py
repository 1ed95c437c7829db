#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's working tree, explores, replays
every violation before it reports it, and writes /verif/evidence/<id>.json.

  run.py ID quick|thorough          run a check
  run.py ID --replay FILE           replay one recorded violation
Exit status: 0 property held on everything explored, 1 violation (VIOLATION line printed).
"""
import sys, os, re, json, subprocess, hashlib, time, tempfile, shutil, array, signal, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS

NCPU = min(8, os.cpu_count() or 1)
CACHE = os.path.join(VERIF, '.cache')
OUT = os.path.join(VERIF, 'out')
EIG = ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/eigen3/unsupported']
BASE = ['-std=gnu++17', '-w', '-g0', '-pthread', '-march=x86-64',
        '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')] + EIG
MODES = {
    'plain': ['-O1'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all',
             '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
    # as asan, without the preconditions of the standard library (std::polar of a NaN is one)
    'san': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,null,pointer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-fsanitize=thread'],
    # a scheduling point at every basic-block edge of the functions that have to do with the library
    'cov': ['-O1', '-fsanitize-coverage=edge,trace-pc-guard', '-fsanitize-coverage-allowlist=' + os.path.join(VERIF, 'tools', 'cov_allow.txt')],
}
CXX = 'clang++'
FAST_ALL = [4, 3, 5, 2, 0, 1]
def note(*a):
    print(*a, file=sys.stderr, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(read(p))
    return h.hexdigest()

class BuildError(Exception):
    pass

class Builder:
    """Compiles with a content-addressed object cache (source text, all headers, flags)."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.hdr = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'python'), os.path.join(REPO, 'matlab')], ('.hpp', '.h', '.hxx', '.inc', '.ipp'))
        self.vh = tree_hash([os.path.join(VERIF, 'harness')], ('.hpp', '.h'))
        self.pool = ThreadPoolExecutor(NCPU)
        self.jobs = {}
        os.makedirs(CACHE, exist_ok=True)

    def flags(self, mode):
        # MC_FLAGS: other code generation, to see that no check depends on rounding (see DESIGN.md)
        fl = BASE + MODES[mode] + os.environ.get('MC_FLAGS', '').split()
        return fl

    def pch(self, mode, fast):
        fl = self.flags(mode)
        src = os.path.join(VERIF, 'harness', 'pchf.hpp' if fast else 'pch.hpp')
        key = sha('pch', ' '.join(fl), src, self.vh if fast else read(src))
        out = os.path.join(CACHE, key + '.pch')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = subprocess.run([CXX] + fl + ['-x', 'c++-header', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(r.stdout.decode(errors='replace')[-4000:])
            os.rename(tmp, out)
        return key, out

    def compile(self, src, mode, extra=(), fast=False):
        fl = self.flags(mode) + list(extra)
        pk, pp = self.pch_for[(mode, fast)]
        inrepo = src.startswith(os.path.join(REPO, 'src'))
        key = sha('obj', pk, ' '.join(fl), src, read(src), self.hdr, '' if inrepo else self.vh)
        out = os.path.join(CACHE, key + '.o')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            cmd = [CXX] + fl + ['-include-pch', pp, '-c', src, '-o', tmp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
            os.rename(tmp, out)
        return out

    def all_sources(self):
        r = []
        for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
            for f in fs:
                if f.endswith(('.cpp', '.cc', '.cxx', '.c')):
                    r.append(os.path.join(root, f))
        # biggest compile times first
        slow = ['relative_pose/modules/main.cpp', 'absolute_pose/modules/main.cpp', 'relative_pose/methods.cpp',
                'sixpt/modules2.cpp', 'absolute_pose/methods.cpp', 'NoncentralRelativePoseSacProblem', 'MultiNoncentralRelative', 'upnp2', 'fivept_nister',
                'fivept_kneip/code']
        def rank(p):
            for i, s in enumerate(slow):
                if s in p:
                    return (i, p)
            return (len(slow), p)
        return sorted(r, key=rank)

    def build(self, parts):
        """parts: list of (harness, mode, libs, extra, ldextra); returns the executables"""
        self.pch_for = {}
        def isfast(p):
            return bool(p.get('fast', p.get('libs', ['*']) == ['*'] and p['mode'] == 'plain'))
        modes = sorted(set((p['mode'], isfast(p)) for p in parts))
        for m, f in [(m, self.pool.submit(self.pch, *m)) for m in modes]:
            self.pch_for[m] = f.result()
        allsrc = self.all_sources()
        jobs = {}
        def want(src, mode, extra=(), fast=False):
            k = (src, mode, tuple(extra), fast)
            if k not in jobs:
                jobs[k] = self.pool.submit(self.compile, src, mode, extra, fast)
            return jobs[k]
        plan = []
        for p in parts:
            libs = p.get('libs', ['*'])
            if libs == ['*']:
                chosen = list(allsrc)
            else:
                chosen = [s for s in allsrc if any(l in s for l in libs)]
            fast = isfast(p)
            slowfirst = [want(s, p['mode'], p.get('libextra', ()), fast) for s in chosen[:3]]
            h = [want(os.path.join(VERIF, 'harness', x), p['mode'], p.get('extra', ()), fast) for x in p['harness']]
            if fast:
                h += [want(os.path.join(VERIF, 'harness', 'fast.cpp'), p['mode'], ['-DFAST_PART=%d' % k], True) for k in p.get('fast', FAST_ALL) or FAST_ALL]
            # other sources of the repository (language bindings), compiled against the stand-ins in harness/mock
            h += [want(os.path.join(REPO, x), p['mode'], list(fl) + ['-I' + os.path.join(VERIF, 'harness', 'mock')], fast) for x, fl in p.get('extsrc', ())]
            objs = slowfirst + [want(s, p['mode'], p.get('libextra', ()), fast) for s in chosen[3:]]
            plan.append((p, h, objs, fast))
        exes = []
        for i, (p, h, objs, fast) in enumerate(plan):
            exe = os.path.join(self.scratch, 'h%d' % i)
            ho = [x.result() for x in h]
            oo = [x.result() for x in objs]
            def link(oo):
                cmd = [CXX] + [f for f in self.flags(p['mode']) if not f.startswith('-I')] + ho + oo + ['-o', exe] + list(p.get('ld', ())) + ['-ldl']
                return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            r = link(oo)
            if r.returncode and p.get('libs', ['*']) != ['*']:
                # code moved to a file that is not on this part's list: take the whole library
                oo = [x.result() for x in [want(s, p['mode'], p.get('libextra', ()), fast) for s in allsrc]]
                r = link(oo)
            if r.returncode:
                raise BuildError(r.stdout.decode(errors='replace')[-4000:])
            exes.append(exe)
        return exes

def prune_cache():
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.isfile(f)), reverse=True)
        tot = 0
        for m, s, f in fs:
            tot += s
            if tot > 6e9 and time.time() - m > 600:
                os.unlink(f)
    except OSError:
        pass

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=1', LC_ALL='C')

def cur_key(prefix):
    try:
        b = read(prefix + '.cur')
        n = struct.unpack('<Q', b[:8])[0]
        return n, b[8:].split(b'\0')[0].decode(errors='replace')
    except Exception:
        return 0, ''

class Shard:
    def __init__(self, exe, args, prefix, hang):
        self.prefix, self.hang = prefix, hang
        self.log = open(prefix + '.log', 'wb')
        self.p = subprocess.Popen([exe] + args + ['--out', prefix], stdout=self.log, stderr=self.log, env=ENV, stdin=subprocess.DEVNULL)
        self.last = time.time(); self.lastn = -1; self.hung = False
    def poll(self):
        r = self.p.poll()
        if r is not None:
            return r
        n, k = cur_key(self.prefix)
        if n != self.lastn:
            self.lastn = n; self.last = time.time()
        elif time.time() - self.last > self.hang:
            self.hung = True
            self.p.kill(); self.p.wait()
            return -9
        return None

def run_shards(exe, args, scratch, tag, nshards, hang, deadline):
    sh = [Shard(exe, args + ['--shard', str(i), str(nshards)], os.path.join(scratch, '%s.%d' % (tag, i)), hang) for i in range(nshards)]
    res = [None] * nshards
    while any(r is None for r in res):
        time.sleep(0.05)
        for i, s in enumerate(sh):
            if res[i] is None:
                res[i] = s.poll()
                if res[i] is None and time.time() > deadline:
                    s.hung = True; s.p.kill(); s.p.wait(); res[i] = -9
    return list(zip(sh, res))

def why(path):
    """What a crashed run says: the line that names the error, and where."""
    t = tail(path, 1000000); L = t.splitlines()
    k = [i for i, l in enumerate(L) if re.search(r'Assertion|ERROR:|runtime error|terminate called|assert', l)]
    return ('\n'.join(L[k[0]:k[0] + 8])[:1200] + '\n...\n' if k else '') + t[-600:]

def tail(path, n=1500):
    try:
        return read(path)[-n:].decode(errors='replace')
    except OSError:
        return ''

def replay_once(exe, args, key, scratch, tag, limit):
    pre = os.path.join(scratch, 'replay.%s' % tag)
    for suf in ('.json',):
        if os.path.exists(pre + suf):
            os.unlink(pre + suf)
    with open(pre + '.log', 'wb') as lg:
        try:
            r = subprocess.run([exe] + args + ['--replay', key, '--out', pre], stdout=lg, stderr=lg, env=ENV, timeout=limit, stdin=subprocess.DEVNULL).returncode
        except subprocess.TimeoutExpired:
            return True, 'hang: no end within %d s' % limit
    if os.path.exists(pre + '.json'):
        j = json.load(open(pre + '.json'))
        if j['violationCount']:
            return True, j['violations'][0]['msg']
        return False, ''
    if r != 0:
        return True, 'crash (status %d): %s' % (r, why(pre + '.log'))
    return False, ''

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get('status') == 'open']

def main():
    cid = sys.argv[1]
    spec = CHECKS[cid]
    scratch = tempfile.mkdtemp(prefix='ogv_%s_' % cid)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            return replay_file(cid, spec, sys.argv[3], scratch)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(cid, spec, tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay_file(cid, spec, path, scratch):
    v = json.load(open(path))
    part = spec['parts'][v['part']]
    exe = Builder(scratch).build([part])[0]
    args = list(part.get('args', [])) + ['--tier', v['tier']]
    bad, msg = replay_once(exe, args, v['key'], scratch, 'r', 300)
    print(('REPRODUCED: ' + msg) if bad else 'not reproduced')
    return 1 if bad else 0

def check(cid, spec, tier, scratch):
    t0 = time.time()
    prune_cache()
    b = Builder(scratch)
    parts = spec['parts']
    try:
        exes = b.build(parts)
    except BuildError as e:
        note('BUILD FAILED\n', str(e)[:2500])
        return 2
    tb = time.time() - t0
    hang = spec.get('hang', 60)
    deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
    tot = dict(casesTotal=0, casesRun=0, evaluations=0, nontrivial=0, transitions=0, traces=0, violationCount=0)
    counters, maxima, samples, viol = {}, {}, [], []
    hashes, states = set(), set()
    capped = []
    for pi, (part, exe) in enumerate(zip(parts, exes)):
        args = list(part.get('args', [])) + ['--tier', tier]
        ns = part.get('shards', NCPU)
        lim = deadline if tier == 'thorough' else t0 + 600
        for sh, rc in run_shards(exe, args, scratch, 'p%d' % pi, ns, hang, lim):
            jp = sh.prefix + '.json'
            if os.path.exists(jp) and not sh.hung:
                j = json.load(open(jp))
                for k in tot:
                    if k != 'casesTotal':
                        tot[k] += j[k]
                tot['casesTotal'] = tot['casesTotal'] + (j['casesTotal'] if sh.prefix.endswith('.0') else 0)
                for k, v in j['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in j['maxima'].items():
                    maxima[k] = max(maxima.get(k, v), v)
                if len(samples) < 8:
                    samples += j['samples'][:2 if ns > 1 else 6]
                viol += [dict(part=pi, key=v['key'], msg=v['msg'], kind='oracle') for v in j['violations']]
                for suf, st in (('.hash', hashes), ('.states', states)):
                    a = array.array('Q'); a.frombytes(read(sh.prefix + suf)); st.update(a)
            else:
                n, key = cur_key(sh.prefix)
                kind = 'hang' if sh.hung else 'crash'
                viol.append(dict(part=pi, key=key, msg='%s (status %s): %s' % (kind, rc, tail(sh.prefix + '.log', 800)), kind=kind))
                tot['violationCount'] += 1
    known = [k for k in load_known() if k['property'] == cid]
    reported, knownhit, unrepro = [], {}, []
    pending = []
    for v in viol:
        kf = next((k for k in known if v['key'] == k['case'] or (k.get('prefix') and v['key'].startswith(k['case']))), None)
        if kf and v['kind'] == 'oracle':
            knownhit[kf['case']] = kf
        else:
            pending.append(v)
    os.makedirs(os.path.join(OUT, cid), exist_ok=True)
    for n, v in enumerate(pending):
        if len(reported) >= 5:
            break
        if len(unrepro) >= 6:
            break
        ok, msg = False, ''
        for attempt in range(3):
            ok, msg = replay_once(exes[v['part']], list(parts[v['part']].get('args', [])) + ['--tier', tier], v['key'], scratch, 'v%d' % n, 240 if v['kind'] == 'hang' else 200)
            if ok:
                break
        if not ok:
            unrepro.append(v)
            continue
        path = os.path.join(OUT, cid, 'replay_%d.json' % len(reported))
        json.dump(dict(property=cid, tier=tier, part=v['part'], key=v['key'], first=v['msg'], replayed=msg,
                       how='python3 %s/run.py %s --replay %s' % (VERIF, cid, path)), open(path, 'w'), indent=1)
        reported.append((path, v, msg))
    wall = time.time() - t0
    cov = dict(rule=spec['rule'], samples=samples[:8], exhaustive=not unrepro and not any(v['kind'] != 'oracle' for v in viol),
               cases_in_bound=tot['casesTotal'], cases_run=tot['casesRun'], evaluations=tot['evaluations'],
               distinct_nontrivial=len(hashes), counters=counters, maxima=maxima, build_s=round(tb, 1), bounds=spec.get('bounds', {}).get(tier, spec.get('bounds', '')) if isinstance(spec.get('bounds'), dict) else spec.get('bounds', ''))
    if spec['level'] == 'model_checking':
        cov.update(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['traces'])
    ev = dict(property=cid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=spec['level'], coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w'), indent=1)
    for k in known:
        if k['case'] in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (cid, k['what']))
        else:
            note('note: listed finding did not occur:', k['case'])
    for v in unrepro:
        note('note: not reproduced on replay, not reported:', v['key'], v['msg'][:300])
    note('%s %s: %d cases, %d evaluations, %d distinct, states %d, %d violations; build %.1f s, total %.1f s' %
         (cid, tier, tot['casesRun'], tot['evaluations'], len(hashes), len(states), tot['violationCount'], tb, wall))
    if os.environ.get('MC_SHOW'):
        note(json.dumps(counters), json.dumps(maxima))
    if tot['casesRun'] == 0 and not reported:
        note('nothing was explored')
        return 2
    if reported:
        for path, v, msg in reported:
            print('VIOLATION property=%s replay=%s' % (cid, path))
            note('   case:', v['key'][:300], '\n   ', msg[:600].replace('\n', ' | '))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
