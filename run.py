#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  python3 run.py --property C05            decide one property (VERIF_SEED, VERIF_TIER)
  python3 run.py --property C05 --replay F run again what a violation file recorded

Builds the library from /repo's working tree with a sanitizer, builds the
harness of the property, runs it in shards and judges what the monitors said.
Exit 0: held on everything explored (known findings are printed).
Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the check itself could not do its work.
"""
import argparse, concurrent.futures as cf, hashlib, importlib, json, os, random, re, shutil
import signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = os.environ.get('VERIF_CXX', '/usr/bin/g++-10')
JOBS = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, os.path.join(VERIF, 'checks'))

SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread'],
    'none': [],
}
BASE = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS',
        '-w', '-pthread']


class BuildError(Exception):
    pass


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', timeout=timeout, **kw)


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.cpp', '.hpp', '.inc')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()


class Builder:
    """Compiles translation units in parallel, with a content-addressed object cache."""

    def __init__(self, flavor, work, opt='-O1', extra=(), shared=False):
        self.flavor, self.work, self.opt, self.shared = flavor, work, opt, shared
        self.extra = list(extra)
        self.cache = os.path.join(VERIF, 'build', 'cache')
        os.makedirs(self.cache, exist_ok=True)
        self.repo_hash = tree_hash(os.path.join(REPO, 'include'), os.path.join(REPO, 'src'))
        self.include_hash = tree_hash(os.path.join(REPO, 'include'))      # all a harness can see
        self.verif_hash = tree_hash(os.path.join(VERIF, 'lib'))
        self.inc = ['-I' + os.path.join(VERIF, 'lib', 'gen'), '-I' + os.path.join(REPO, 'include'),
                    '-I' + os.path.join(VERIF, 'lib')]

    def flags(self, lib):
        f = list(BASE) + [self.opt] + SAN[self.flavor] + self.extra
        if self.shared:
            f += ['-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden'] if lib else ['-fPIC']
            if lib:
                f += ['-DRTTI_EXPORTS', '-Drtti_EXPORTS']
        else:
            f += ['-DRTTI_STATIC']
        if lib:
            f += ['-fno-rtti', '-I' + os.path.join(REPO, 'src', 'private')]
        return f

    def compile(self, src, lib=False, flags=()):
        fl = self.flags(lib) + list(flags)
        with open(src, 'rb') as fh:
            text = fh.read()
        key = hashlib.sha256(repr((CXX, fl, self.repo_hash if lib else self.include_hash, self.verif_hash, src if lib else os.path.basename(src))).encode()
                             + text).hexdigest()
        # a harness may include files lying beside it
        if not lib:
            key = hashlib.sha256((key + tree_hash(os.path.dirname(src))).encode()).hexdigest()
        obj = os.path.join(self.cache, key + '.o')
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + '.%d.tmp' % os.getpid()
        cmd = [CXX] + fl + self.inc + ['-I' + os.path.dirname(src), '-c', src, '-o', tmp]
        last = None
        for attempt in (1, 2):
            try:
                last = sh(cmd, timeout=500)
            except subprocess.TimeoutExpired:
                raise CheckError('compiler timed out on ' + src)
            if last.returncode == 0:
                os.rename(tmp, obj)
                return obj
            if 'error:' in last.stdout and attempt == 1 and 'internal compiler error' not in last.stdout:
                break
        raise BuildError('%s\n%s' % (' '.join(cmd), last.stdout[:6000]))

    def compile_all(self, items):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.compile, *i) for i in items]
            return [f.result() for f in futs]

    def lib_sources(self):
        d = os.path.join(REPO, 'src')
        out = []
        for root, ds, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    out.append(os.path.join(root, f))
        return out

    def link(self, objs, exe, flags=(), tail=()):
        cmd = [CXX] + [self.opt] + SAN[self.flavor] + list(flags) + objs + ['-o', exe, '-pthread'] + list(tail)
        r = sh(cmd)
        if r.returncode != 0:
            raise BuildError('%s\n%s' % (' '.join(cmd)[:600], r.stdout[-6000:]))
        return exe


def prune_cache(limit=3 << 30):
    d = os.path.join(VERIF, 'build', 'cache')
    try:
        es = [(e.stat().st_mtime, e.stat().st_size, e.path) for e in os.scandir(d)]
    except OSError:
        return
    tot = sum(e[1] for e in es)
    for m, s, p in sorted(es):
        if tot <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


def san_env(flavor):
    e = dict(os.environ)
    for k in list(e):
        if k in ('LD_PRELOAD',) or k.endswith('SAN_OPTIONS'):
            e.pop(k)
    e['ASAN_OPTIONS'] = ('abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=0:'
                         'strict_init_order=1:allocator_may_return_null=1:handle_abort=0:new_delete_type_mismatch=1:'
                         'quarantine_size_mb=64:malloc_context_size=12')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=66'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0'
    e['LC_ALL'] = 'C'
    return e


FRAME = re.compile(r'^\s*#\d+ (?:0x[0-9a-f]+ (?:in )?)?(.+?)(?: (/\S+)| \((?:\S+)\+0x[0-9a-f]+\))?\s*$')


def norm_func(f):
    f = re.sub(r'<[^<>]*>', '', f)
    for _ in range(8):
        g = re.sub(r'<[^<>]*>', '', f)
        if g == f:
            break
        f = g
    f = re.sub(r'\(.*', '', f)
    f = re.sub(r'\[abi:[^\]]*\]', '', f)
    return f.strip().split(' ')[-1]


def sanitizer_key(text):
    """A stable key for a sanitizer report or crash: kind plus the first library frames."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', text)
    if m:
        kind = 'asan:' + m.group(1)
    m2 = re.search(r'runtime error: (.*)', text)
    if m2:
        s = re.sub(r'0x[0-9a-f]+', 'ADDR', m2.group(1))
        s = re.sub(r"'[^']*'", 'T', s)
        s = re.sub(r'\d+', 'N', s)
        kind = 'ubsan:' + '-'.join(s.split()[:6])
    m3 = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', text)
    if m3:
        kind = 'tsan:' + m3.group(1).strip().replace(' ', '-')
    m3 = re.search(r'ERROR: ThreadSanitizer: ([^\n(]+)', text)
    if m3:
        kind = 'tsan:' + m3.group(1).strip().replace(' ', '-')
    if not kind:
        return None
    fr = []
    for line in text[text.find('runtime error') if m2 else 0:].splitlines():
        m = FRAME.match(line)
        if m:
            f = norm_func(m.group(1))
            if f.startswith('rtti::') and f not in fr:
                fr.append(f)
                if len(fr) >= 2:
                    break
    return kind + '@' + '/'.join(fr)


class Outcome:
    def __init__(self):
        self.viol = []          # (key, message, run info)
        self.cov = {}
        self.hashes = set()
        self.samples = []
        self.evals = 0
        self.notes = []
        self.inconclusive = []
        self.runs = 0


def parse_output(text, out, info, hashfile=None):
    done = False
    for line in text.splitlines():
        if not line.startswith('@@'):
            continue
        tag, _, rest = line[2:].partition(' ')
        if tag == 'VIOL':
            key, _, msg = rest.partition(' | ')
            out.viol.append((key, msg, info))
        elif tag == 'COV':
            k, _, n = rest.rpartition(' ')
            if k.startswith('max:'):
                out.cov[k] = max(out.cov.get(k, 0), int(n))
            else:
                out.cov[k] = out.cov.get(k, 0) + int(n)
        elif tag == 'EVAL':
            out.evals += int(rest)
        elif tag == 'SAMPLE':
            if len(out.samples) < 12:
                out.samples.append(rest[:600])
        elif tag == 'DONE':
            done = True
    if hashfile and os.path.exists(hashfile):
        with open(hashfile, 'rb') as fh:
            data = fh.read()
        for i in range(0, len(data) - 7, 8):
            out.hashes.add(data[i:i + 8])
    return done


def exec_once(cmd, env, timeout, cwd):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace'), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode(errors='replace'), e.decode(errors='replace'), True


def oom_ended(pid_cmd):
    return False


def run_harness(ctx, exe, args, name, timeout, flavor=None, env_extra=None, out=None):
    """Runs one harness process and folds what it reported into out."""
    flavor = flavor or ctx.flavor
    out = out or ctx.out
    env = san_env(flavor)
    if env_extra:
        env.update(env_extra)
    casefile = os.path.join(ctx.work, name + '.case')
    hashfile = os.path.join(ctx.work, name + '.hash')
    cmd = [exe] + args + ['--case-file', casefile, '--hash-file', hashfile]
    info = dict(name=name, args=args)
    hung = 0
    for attempt in (1, 2):
        rc, o, e, to = exec_once(cmd, env, timeout, ctx.work)
        if flavor == 'tsan' and rc not in (0, 3) and 'unexpected memory mapping' in e:
            cmd = ['setarch', '-R'] + cmd if cmd[0] != 'setarch' else cmd
            continue
        if rc == -9 and attempt == 1:       # ended from outside (memory guard): try once more
            time.sleep(2)
            continue
        if not to:
            break
        hung += 1
    case = ''
    if os.path.exists(casefile):
        with open(casefile, 'rb') as fh:
            case = fh.read(4096).split(b'\0')[0].decode(errors='replace').strip()
    loc = Outcome()
    done = parse_output(o, loc, dict(info, case=case), hashfile)
    for k, m, i in loc.viol:
        i['stderr'] = e[-3000:]
    if hung >= 2 or to:
        loc.viol.append(('hang:' + re.sub(r'[^\w:-]+.*', '', ctx.case_kind(case)), 'no result within %d s, twice; last case: %s' % (timeout, case),
                         dict(info, case=case, stderr=e[-3000:])))
    elif rc == -9:
        loc.inconclusive.append('%s was killed twice' % name)
    elif rc not in (0, 3) or not done:
        key = sanitizer_key(e) or sanitizer_key(o)
        if not key:
            if 'terminate called' in e:
                m = re.search(r"throwing an instance of '([^']+)'", e)
                key = 'terminate:' + (m.group(1) if m else '?') + ':' + ctx.case_kind(case)
            elif rc is not None and rc < 0:
                key = 'signal:%d:%s' % (-rc, ctx.case_kind(case))
            else:
                key = 'exit:%s:%s' % (rc, ctx.case_kind(case))
        loc.viol.append((key, 'process ended abnormally (rc=%s); last case: %s' % (rc, case),
                         dict(info, case=case, stderr=e[-6000:])))
    with ctx.lock:
        out.viol += loc.viol
        out.evals += loc.evals
        out.hashes |= loc.hashes
        for k, v in loc.cov.items():
            if k.startswith('max:'):
                out.cov[k] = max(v, out.cov.get(k, 0))
            else:
                out.cov[k] = out.cov.get(k, 0) + v
        for s in loc.samples:
            if len(out.samples) < 12:
                out.samples.append(s)
        out.inconclusive += loc.inconclusive
        out.runs += 1
    return rc


class Ctx:
    def __init__(self, prop, tier, seed, work):
        import threading
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.out = Outcome()
        self.lock = threading.Lock()
        self.flavor = 'asan'
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.verif, self.repo = VERIF, REPO
        self.thorough = tier == 'thorough'
        self.mod = None

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def case_kind(self, case):
        # "<number> <kind> ..." -> kind
        p = case.split()
        return p[1] if len(p) > 1 else ''

    def build(self, sources, exe='harness', flavor=None, opt='-O1', extra=(), flags=(), tail=()):
        """Library plus harness sources -> one static executable."""
        flavor = flavor or self.flavor
        b = Builder(flavor, self.work, opt, extra)
        try:
            libs = [(s, True) for s in b.lib_sources()]
            items = [(s, False, flags) if isinstance(s, str) else (s[0], False, list(flags) + list(s[1]))
                     for s in sources]
            objs = b.compile_all(items + libs)
        except BuildError:
            # is it the library itself or only a use of its API?
            b.compile_all(libs)
            raise
        return b.link(objs, os.path.join(self.work, exe), tail=tail)

    def builder(self, **kw):
        return Builder(kw.pop('flavor', self.flavor), self.work, **kw)

    def compile(self, b, sources):
        """Objects of the sources and of the library."""
        libs = [(s, True) for s in b.lib_sources()]
        try:
            objs = b.compile_all([(s, False, f) for s, f in sources] + libs)
        except BuildError:
            b.compile_all(libs)
            raise
        return objs[:len(sources)], objs[len(sources):]

    def kinds(self):
        """The translation units of lib/kinds.h."""
        return [(os.path.join(VERIF, 'lib', 'kinds_group.cpp'), ['-DGROUP=%d' % i]) for i in range(7)]

    def src(self, name):
        return os.path.join(VERIF, 'harness', name)

    def shards(self, exe, n, args, timeout=200, flavor=None, env=None, first=0, prefix='s'):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(run_harness, self, exe,
                            ['--seed', str(self.seed), '--shard', str(i), '--shards', str(n),
                             '--tier', self.tier] + list(args),
                            '%s%d' % (prefix, i), timeout, flavor, env) for i in range(first, n)]
            for f in fs:
                f.result()


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def setup():
    """Only looks whether the tools the checks need are there; every check builds for itself."""
    r = sh([CXX, '--version'])
    print(r.stdout.splitlines()[0])
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.setup:
        return setup()
    prop = a.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = None
    if a.replay:
        only = json.load(open(a.replay))
        tier, seed = only['tier'], only['seed']
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='rv-%s-' % prop)
    ctx = Ctx(prop, tier, seed, work)
    ctx.mod = mod
    ctx.only = only
    err = None
    try:
        try:
            mod.run(ctx)
        except BuildError as ex:
            ctx.out.viol.append(('build', 'a use of the public API that this check makes no longer builds',
                                 dict(name='build', args=[], case='', stderr=str(ex))))
        except CheckError as ex:
            err = str(ex)
    finally:
        if a.keep:
            print('work dir kept:', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
        prune_cache()
    out = ctx.out
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    seen_known, fresh = {}, {}
    for key, msg, info in out.viol:
        for k in known:
            if re.fullmatch(k['key'], key):
                seen_known.setdefault(k['key'], [k, 0])[1] += 1
                break
        else:
            fresh.setdefault(key, []).append((msg, info))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=out.evals, distinct_nontrivial=len(out.hashes), rule=mod.RULE,
                            samples=out.samples or ['(none)'], observed=dict(sorted(out.cov.items())),
                            processes=out.runs,
                            known_findings_observed={k: v[1] for k, v in seen_known.items()}),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k, (kf, n) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    if fresh:
        first = None
        for i, (key, lst) in enumerate(sorted(fresh.items())):
            msg, info = lst[0]
            path = os.path.join(VERIF, 'out', '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9]+', '-', key)[:60]))
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, key=key, message=msg, count=len(lst),
                               **{k: v for k, v in info.items()}), fh, indent=1)
            if i < 12:
                print('  %s x%d: %s' % (key, len(lst), msg[:400]))
            first = first or path
        print('VIOLATION property=%s replay=%s' % (prop, first))
        return 1
    if err or out.inconclusive:
        print('INCONCLUSIVE property=%s: %s' % (prop, err or '; '.join(out.inconclusive)))
        return 2
    need = getattr(mod, 'MIN_EVALS', 1)
    if not a.replay and (out.evals < need or not out.hashes):
        print('INCONCLUSIVE property=%s: only %d evaluations observed' % (prop, out.evals))
        return 2
    print('held property=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, out.evals, len(out.hashes), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
