#!/usr/bin/env python3
"""Builds /repo's current tree with the harness of a property and runs it.

usage: run.py ID [--replay FILE]      (VERIF_SEED, VERIF_TIER in the environment)

Exit 0: held on everything run. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
H = os.path.join(VERIF, 'h')
NCPU = 8
sys.path.insert(0, os.path.join(VERIF, 'vf'))
from spec import PROPS, VARIANTS

BASE = ['-std=c++11', '-w', '-g1', '-fno-omit-frame-pointer', '-pthread', '-Wno-invalid-offsetof',
        '-DREFLECT_USE_EXCEPTIONS=1', '-I' + SRC, '-I' + H]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build

def lib_sources():
    """The sources of the libraries, as the repository's own build lists them."""
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    txt = re.sub(r'#[^\n]*', '', txt)
    out = []
    for m in re.finditer(r'add_library\(\s*(\S+)([^)]*)\)', txt):
        for w in m.group(2).split():
            if w.startswith('src/') and w.endswith('.cpp') and w not in out:
                out.append(w)
    if not out:
        raise CheckError('no library sources found in CMakeLists.txt')
    return [os.path.join(REPO, s) for s in out]


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                h.update(open(p, 'rb').read())
                h.update(b'\0')
    return h.hexdigest()


class Builder:
    def __init__(self, pool):
        self.pool = pool
        self.src_hash = tree_hash(SRC)
        common = hashlib.sha256()
        for f in sorted(os.listdir(H)):
            if f.endswith('.h'):
                common.update(open(os.path.join(H, f), 'rb').read())
        self.common_hash = common.hexdigest()
        self.dir = os.path.join(VERIF, 'build', 'obj')
        os.makedirs(self.dir, exist_ok=True)
        self.futures = {}

    def obj(self, path, variant, extra=()):
        v = VARIANTS[variant]
        cmd = [v['cxx']] + BASE + v['flags'] + list(extra) + ['-c', path]
        key = hashlib.sha256('\0'.join(cmd).encode())
        key.update(self.src_hash.encode())
        if path.startswith(H):
            key.update(self.common_hash.encode())
            key.update(open(path, 'rb').read())
        out = os.path.join(self.dir, key.hexdigest()[:32] + '.o')
        if out not in self.futures:
            self.futures[out] = self.pool.submit(self._compile, cmd, out)
        return out

    def _compile(self, cmd, out):
        if os.path.exists(out):
            os.utime(out)
            return
        tmp = out + '.%d.tmp' % os.getpid()
        p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            txt = p.stdout.decode(errors='replace')
            errs = [l for l in txt.split('\n') if 'error' in l]
            raise CheckError('compilation failed: %s\n%s' % (' '.join(cmd), '\n'.join(errs[:12] or [txt[-3000:]])))
        os.rename(tmp, out)

    def exe(self, unit, out):
        v = VARIANTS[unit['variant']]
        # biggest first
        objs = [self.obj(os.path.join(H, s), unit['variant'], unit.get('flags', ())) for s in unit['src']]
        objs.append(self.obj(os.path.join(H, 'main.cpp'), unit['variant']))
        libs = [self.obj(s, unit['variant']) for s in lib_sources()]
        return libs + objs, v, out, unit.get('ld', ())

    def link(self, job):
        objs, v, out, ld = job
        for o in objs:
            self.futures[o].result()
        cmd = [v['cxx']] + v['flags'] + ['-pthread', '-o', out] + list(ld) + objs
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError('link failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-6000:]))

    def prune(self):
        fs = [os.path.join(self.dir, f) for f in os.listdir(self.dir)]
        fs = sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        for f in fs:
            if total < 3 << 30:
                break
            total -= os.path.getsize(f)
            os.unlink(f)


# ---------------------------------------------------------------- run

def env_for(variant, unit):
    e = dict(os.environ)
    for k in list(e):
        if k.endswith('SAN_OPTIONS'):
            del e[k]
    e.update(VARIANTS[variant].get('env', {}))
    e.update(unit.get('env', {}))
    return e


def classify(err, rc):
    m = re.search(r'ERROR: AddressSanitizer: ([^ \n(]+)', err)
    if m:
        return 'asan:' + m.group(1)
    m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', err)
    if m:
        return 'tsan:' + m.group(1).strip()
    if 'LeakSanitizer: detected memory leaks' in err:
        return 'leak'
    m = re.search(r'runtime error: ([^\n0-9]+)', err)
    if m:
        return 'ubsan:' + m.group(1).strip()
    if 'hard rss limit exhausted' in err:
        return 'memory-exhausted'
    if rc < 0:
        return 'signal:%d' % -rc
    return 'exit:%d' % rc


class Proc:
    def __init__(self, exe, unit, args, tmp, name, seed):
        self.name, self.unit = name, unit
        self.out = os.path.join(tmp, name + '.out')
        self.prog = os.path.join(tmp, name + '.prog')
        self.hashes = os.path.join(tmp, name + '.hash')
        self.err = os.path.join(tmp, name + '.err')
        self.vglog = os.path.join(tmp, name + '.vg')
        wrap = []
        if VARIANTS[unit['variant']].get('valgrind'):
            wrap = ['valgrind', '-q', '--error-exitcode=0', '--undef-value-errors=yes', '--track-origins=no',
                    '--leak-check=no', '--num-callers=30', '--trace-children=no', '--child-silent-after-fork=no',
                    '--log-file=' + self.vglog + '.%p', '--errors-for-leak-kinds=none']
        cmd = wrap + [exe, '--seed', str(seed), '--out', self.out, '--prog', self.prog, '--hashes', self.hashes] + args
        cwd = os.path.join(tmp, name + '.d')
        os.makedirs(cwd, exist_ok=True)
        self.p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=open(self.err + '.stdout', 'wb'),
                                  stderr=open(self.err, 'wb'), env=env_for(unit['variant'], unit), start_new_session=True)
        self.last = (None, time.time())
        self.hung = False
        self.done = False
        self.args = args

    def progress(self):
        try:
            b = open(self.prog, 'rb').read(16)
            if len(b) == 16:
                return struct.unpack('<QQ', b)
        except OSError:
            pass
        return None

    def poll(self, limit):
        if self.done:
            return True
        if self.p.poll() is not None:
            self.done = True
            return True
        pr = self.progress()
        if pr != self.last[0]:
            self.last = (pr, time.time())
        elif time.time() - self.last[1] > limit:
            self.kill()
            self.hung = True
            self.done = True
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def errtext(self):
        try:
            b = open(self.err, 'rb').read()
            return b[:400000].decode(errors='replace')
        except OSError:
            return ''


def wait_all(procs, limit, deadline):
    try:
        while not all([p.poll(limit) for p in procs]):
            if time.time() > deadline:
                return False
            time.sleep(0.03)
        return True
    finally:
        for p in procs:
            if not p.done:
                p.kill()


def read_out(path):
    fails, stats = [], None
    try:
        for line in open(path, errors='replace'):
            f = line.rstrip('\n').split('\t')
            if f[0] == 'FAIL' and len(f) >= 4:
                fails.append((f[1], f[2], f[3]))
            elif f[0] == 'STATS':
                stats = json.loads(f[1])
    except OSError:
        pass
    return fails, stats


VG_HEAD = re.compile(r'==\d+== (Conditional jump or move depends on uninitialised value|Use of uninitialised value|'
                     r'Syscall param \S+ (?:points to|contains) uninitialised byte)')
VG_END = re.compile(r'==\d+== ([A-Z]|$)')


def valgrind_reports(proc):
    """(key, text) of every report; the key names the kind and the innermost frame in the library or harness."""
    out = []
    d = os.path.dirname(proc.vglog)
    for f in sorted(os.listdir(d)):
        if not f.startswith(os.path.basename(proc.vglog) + '.'):
            continue
        txt = open(os.path.join(d, f), errors='replace').read()
        lines = txt.split('\n')
        for i, line in enumerate(lines):
            m = VG_HEAD.match(line)
            if not m:
                continue
            body = [line]
            for l in lines[i + 1:i + 40]:
                if VG_END.match(l):
                    break
                body.append(l)
            text = '\n'.join(body)
            fn = re.search(r'(?:at|by) 0x[0-9A-F]+: (?!std::|operator|mem|str|__|_)(.+?) \(', text)
            kind = m.group(1).split()[0].lower()
            loc = re.search(r'\((?!vg_|main\.cpp|common\.h|stl_|basic_|char_)([\w.]+\.(?:cpp|h|tcc)):\d+\)', text)
            out.append(('valgrind:%s' % kind, (fn.group(1) if fn else '?') + ' ' + (loc.group(1) if loc else ''), text))
    return out


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    keys = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3).strip()
    return keys


# ---------------------------------------------------------------- main

def run(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    spec = PROPS[prop]
    units = spec['units']
    rp = None
    if replay:
        rp = json.load(open(replay))
        tier, seed = rp['tier'], rp['seed']
        os.environ['VERIF_TIER'] = tier
        units = [u for u in units if u['name'] == rp['unit']]
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run-', dir=os.path.join(VERIF, 'build'))
    try:
        return run_in(prop, spec, units, tier, seed, tmp, rp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(prop, spec, units, tier, seed, tmp, rp, t0):
    with cf.ThreadPoolExecutor(NCPU) as pool:
        b = Builder(pool)
        jobs = [b.exe(u, os.path.join(tmp, u['name'])) for u in units]
        list(map(b.link, jobs))
        b.prune()
    # the harnesses also run as if in a country that writes 1,5.
    os.makedirs(os.path.join(tmp, 'locales'))
    if shutil.which('localedef'):
        subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', os.path.join(tmp, 'locales', 'de_DE.UTF-8')],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.environ['LOCPATH'] = os.path.join(tmp, 'locales')
    build_s = time.time() - t0
    deadline = t0 + (850 if tier == 'quick' else 6 * 3600)

    violations = {}   # key -> dict
    events, samples, rules = {}, [], []
    hashes = set()
    known = known_findings(prop)
    evaluations = cases_run = 0
    reruns = 0

    def add(key, unit, idx, msg):
        if unit.get('only') and not key.startswith(unit['only'] + ':'):
            events['failures left to other checks'] = events.get('failures left to other checks', 0) + 1
            return
        if key not in violations:
            violations[key] = {'key': key, 'unit': unit['name'], 'idx': idx, 'msg': msg, 'count': 0}
        violations[key]['count'] += 1

    for u in units:
        exe = os.path.join(tmp, u['name'])
        limit = u.get('hang', 100)
        cases = u[tier] if tier in u else u['quick']
        n = min(u.get('shards', NCPU), cases)
        if rp:
            args = [['--only', str(rp['idx'])]] if rp['idx'] is not None else [['--shard', '0', '--shards', '1', '--cases', '0']]
        else:
            args = [['--shard', str(i), '--shards', str(n), '--cases', str(cases)] for i in range(n)]
        procs = [Proc(exe, u, a, tmp, '%s.%d' % (u['name'], i), seed) for i, a in enumerate(args)]
        if not wait_all(procs, limit, deadline):
            for p in procs:   # what was found by then counts.
                for key, idx, msg in read_out(p.out)[0]:
                    if key not in known:
                        add(key, u, None if idx == str(2**64 - 1) else int(idx), msg)
            if violations:
                break
            raise CheckError('unit %s ran out of time' % u['name'])
        u_eval = 0
        for p in procs:
            fails, stats = read_out(p.out)
            for key, idx, msg in fails:
                add(key, u, None if idx == str(2**64 - 1) else int(idx), msg)
            err = p.errtext()
            pr = p.progress()
            idx = pr[0] if pr else None
            if idx == 2**64 - 1:
                idx = None
            if p.hung:
                # decide on a second, undisturbed run of the very case.
                if 'hang' in violations:
                    violations['hang']['count'] += 1
                    continue
                reruns += 1
                again = Proc(exe, u, ['--only', str(idx)], tmp, p.name + '.again', seed)
                if not wait_all([again], limit * 1.5, deadline):
                    raise CheckError('unit %s ran out of time' % u['name'])
                f2, s2 = read_out(again.out)
                for key, i2, msg in f2:
                    add(key, u, idx, msg)
                if again.hung:
                    add('hang', u, idx, 'case %s does not end' % idx)
                elif s2 is None and not f2:
                    add(classify(again.errtext(), again.p.returncode), u, idx, again.errtext()[-3000:])
                continue
            if stats is None:
                if p.p.returncode == 3:
                    raise CheckError('harness %s failed: %s' % (u['name'], err[-2000:]))
                if p.p.returncode == -9 and not err:
                    raise CheckError('harness %s was killed' % u['name'])
                m = re.search(r'(ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|runtime error)[\s\S]*', err)
                add(classify(err, p.p.returncode), u, idx, (m.group(0)[:3000] if m else err[-3000:]))
                continue
            u_eval += stats['tried']
            cases_run += stats['cases']
            if u.get('only'):
                k = 'under %s: %s' % (u['only'], u['name'][1:])
                stats['events'] = {k + ' cases': stats['cases'], k + ' events': sum(stats['events'].values())}
            for k, v in stats['events'].items():
                events[k] = events.get(k, 0) + v
            for s in stats['samples']:
                if len(samples) < 6:
                    samples.append(s)
            if 'leak' in violations and any(f[0] == 'leak' for f in fails):
                violations['leak']['msg'] += ' ' + err[:3000]
            if VARIANTS[u['variant']].get('valgrind'):
                for key, where, text in valgrind_reports(p):
                    add(key + ':' + re.sub(r'[^\w.:~<>-]+', '_', where.strip()), u, None, text)
            try:
                data = open(p.hashes, 'rb').read()
                hashes.update(struct.unpack('<%dQ' % (len(data) // 8), data))
            except OSError:
                pass
        evaluations += u_eval
        if u.get('rule'):
            rules.append(u['rule'])
        if any(k not in known for k in violations):   # the other units have nothing to add.
            break
        for ev in u.get('need', ()):   # a run that observed nothing decides nothing.
            if not rp and not events.get(ev):
                raise CheckError('inconclusive: unit %s observed no <%s>' % (u['name'], ev))

    new = []
    for key, v in sorted(violations.items()):
        hit = next((k for k in known if key == k), None)
        if hit:
            log('KNOWN-FINDING: property=%s %s: %s' % (prop, hit, known[hit]))
        else:
            new.append(v)

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(hashes),
            'rule': spec['rule'], 'samples': samples or ['(none)'],
            'cases': cases_run, 'events_observed': dict(sorted(events.items())),
            'units': [{'name': u['name'], 'build': u['variant'], 'cases': u.get(tier, u['quick'])} for u in units],
            'build_s': round(build_s, 1), 'hangs_rerun': reruns,
            'known_findings_seen': sorted(k for k in violations if k in known),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if not rp:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')

    for v in new:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        name = re.sub(r'[^\w.-]+', '_', v['key'])[:80]
        path = os.path.join(VERIF, 'replay', '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, **v,
                       'how': 'python3 vf/run.py %s --replay %s' % (prop, path)}, f, indent=1)
        log('VIOLATION property=%s replay=%s' % (prop, path))
        log('  %s (x%d, unit %s, case %s): %s' % (v['key'], v['count'], v['unit'], v['idx'], v['msg'][:1500]))
    log('%s %s seed=%d: %d cases, %d evaluations, %d distinct, %d violations, %.1f s (build %.1f s)' %
        (prop, tier, seed, cases_run, evaluations, len(hashes), len(new), time.time() - t0, build_s))
    return 1 if new else 0


def warm():
    """Compiles everything once so that the checks that follow find it in the cache."""
    tmp = tempfile.mkdtemp(prefix='setup-', dir=os.path.join(VERIF, 'build'))
    try:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            b = Builder(pool)
            jobs = [b.exe(u, os.path.join(tmp, u['name'])) for p in PROPS for u in PROPS[p]['units']]
            for j in jobs:
                for o in j[0]:
                    b.futures[o].result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    try:
        if a == ['--setup']:
            # every check builds for itself from /repo's current tree.
            for t in ('g++', 'valgrind'):
                if not shutil.which(t):
                    raise CheckError(t + ' is missing')
            sys.exit(0)
        if a == ['--warm']:
            os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
            sys.exit(warm())
        rc = run(a[0], a[2] if len(a) > 2 and a[1] == '--replay' else None)
    except CheckError as e:
        log('CHECK-ERROR:', e)
        rc = 2
    sys.exit(rc)
