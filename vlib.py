"""Shared machinery of the checks: building from /repo, running TLC, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'


def pick(q, t):
    return t if THOROUGH else q


class MachineryError(Exception):
    pass

class TimedOut(MachineryError):
    pass


class Check:
    """One run of one property's check."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vcheck-%s-' % pid)
        os.chmod(self.tmp, 0o755)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []      # (key, description, detail)
        self.cov = {}
        self.assumptions = []
        self.phases = []

    # ------------------------------------------------------------ building
    def goenv(self, **kw):
        e = dict(os.environ)
        e.update(HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
        e.setdefault('GOCACHE', '/root/.cache/go-build')
        e.update(kw)
        return e

    def fast_dir(self):
        """A scratch directory on tmpfs for the unprivileged user, removed at the end."""
        try:
            d = tempfile.mkdtemp(prefix='vcheck-%s-' % self.pid, dir='/dev/shm')
            atexit.register(shutil.rmtree, d, True)
        except OSError:
            d = tempfile.mkdtemp(prefix='fast-', dir=self.tmp)
        os.chown(d, 65534, 65534)
        return d

    def prep_ui(self):
        """What 'make ui' needs no npm for: ui/bindata.go embeds this (git-ignored) directory."""
        d = os.path.join(REPO, 'ui/.build/ui')
        if not os.path.isdir(d) or not os.listdir(d):
            os.makedirs(d, exist_ok=True)
            subprocess.run('cp -r ui/assets/* ui/.build/ui/', shell=True, cwd=REPO, check=True)

    def instrument(self, *globs):
        """An overlay of the code under test with scheduling points before every statement."""
        d = os.path.join(self.tmp, 'instr')
        if not os.path.isdir(d):
            os.makedirs(d)
            shutil.copy(os.path.join(VERIF, 'harness/instr/vsched.go.txt'), os.path.join(d, 'vsched.go'))
            tool = os.path.join(self.tmp, 'instr.bin')
            self.sh(['go', 'build', '-o', tool, './instr'], cwd=os.path.join(VERIF, 'harness'), env=self.goenv(), what='building instr', timeout=300)
            self.sh([tool, REPO, d, os.path.join(d, 'vsched.go')] + list(globs), env=self.goenv(), what='instrumenting')
        return os.path.join(d, 'overlay.json')

    def build_harness(self, race=False, tags=''):
        self.prep_ui()
        src = os.path.join(self.tmp, 'hsrc')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
            if REPO != '/repo':
                p = os.path.join(src, 'go.mod')
                s = open(p).read().replace('=> /repo', '=> ' + REPO)
                open(p, 'w').write(s)
        out = os.path.join(self.tmp, 'vh' + ('-race' if race else '') + ('-' + tags if tags else ''))
        if not os.path.exists(out):
            over = ['-overlay', self.instrument(*(
                ['web/*.go,api/api.go', 'ui/ui.go', 'searcher/*.go', 'index/index.go'] if self.pid == 'C24' else
                ['searcher/*.go', 'index/index.go', 'vcs/vcs.go', 'web/*.go', 'ui/ui.go', 'api/api.go']))] if tags == 'sched' else []
            cmd = ['go', 'build'] + over + (['-race'] if race else []) + (['-tags', tags] if tags else []) + ['-o', out, '.']
            self.sh(cmd, cwd=src, env=self.goenv(), what='building the driver', timeout=600)
        return out

    def build_repo(self, pkg, name, cgo=None, race=False):
        self.prep_ui()
        out = os.path.join(self.tmp, name)
        if not os.path.exists(out):
            env = self.goenv() if cgo is None else self.goenv(CGO_ENABLED=cgo)
            self.sh(['go', 'build', '-trimpath'] + (['-race'] if race else []) + ['-o', out, pkg], cwd=REPO, env=env,
                    what='building ' + pkg, timeout=600)
        return out

    def sh(self, cmd, what='', timeout=300, check=True, **kw):
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        except subprocess.TimeoutExpired as ex:
            raise TimedOut('%s: timed out after %ss\n%s' % (what or cmd, timeout, (ex.stdout or b'')[-3000:].decode('utf8', 'replace')))
        out = r.stdout.decode('utf8', 'replace')
        self.phases.append((what or str(cmd[:2]), round(time.time() - t, 1)))
        if check and r.returncode != 0:
            raise MachineryError('%s failed (%s):\n%s' % (what or cmd, r.returncode, out[-6000:]))
        return r.returncode, out

    def drive(self, *args, race=False, timeout=500 if not THOROUGH else 3000, env=None, crash_ok=False, out=None, tags='', nobody=False):
        """Runs a driver command; returns its output directory.

        A panic or fatal signal inside the code under test is an observation (returned
        as text), anything else that ends the driver early is an error of ours."""
        vh = self.build_harness(race, tags)
        d = out or tempfile.mkdtemp(prefix='out-', dir=self.tmp)
        os.chmod(d, 0o755)
        e = self.goenv(VH_OUT=d, VERIF_SEED=str(SEED), VERIF_TIER=TIER, TMPDIR=d, **(env or {}))
        kw = {}
        if nobody:
            os.chown(d, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
            e['HOME'] = d
        try:
            rc, text = self.sh([vh] + list(args), env=e, what='driver ' + os.path.basename(' '.join(args[:2])), timeout=timeout, check=False, cwd=d, **kw)
        except TimedOut as ex:
            # many times as long as it takes: something in the code under test does not end
            what = 'the code under test does not come to an end within %d s (%s)' % (timeout, args[0])
            if crash_ok:
                return d, what
            self.violation('hang:' + args[0], what, str(ex)[-6000:])
            return d
        self.last_output = text
        if rc != 0:
            crash = sut_crash(text)
            if rc == 1 and not text.strip():
                # only log.Fatal ends a driver like that, and only the code under test calls it
                last = sorted(glob.glob(os.path.join(d, 'lastlog.*')), key=os.path.getmtime)
                crash = 'log.Fatal: ' + (open(last[-1], errors='replace').read().strip() if last else '?')
                text = 'fatal error: ' + crash
            m = re.search(r'^SUT-FAILED: (.*)', text, re.M)
            if rc == 4 and m:
                if crash_ok:
                    return d, 'it failed at ' + m.group(1)
                self.violation('failed:' + re.sub(r'[0-9a-f]{4,}|/\S+|\d+', '*', m.group(1))[:80], 'the code under test failed at ' + m.group(1)[:400], text[-6000:])
                return d
            if crash and crash_ok:
                return d, crash
            if crash:
                self.violation('crash:' + crash_key(text), 'the code under test crashed: ' + crash, text[-6000:])
                return d
            raise MachineryError('driver %s ended with %s:\n%s' % (args, rc, text[-6000:]))
        return (d, None) if crash_ok else d

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, extra=(), deadlock_ok=True, heap='8g', java=()):
        """Runs TLC; returns its output. Violations of the specification's own
        invariants are errors of the machinery (the specification is ours)."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        for f in glob.glob(os.path.join(VERIF, 'spec', '*')):
            shutil.copy(f, d)
        cfg = cfg or module + '.cfg'
        e = dict(os.environ)
        e.update(env or {})
        e['TMPDIR'] = d
        jar = '/opt/veriftools/tla'
        cp = ':'.join([os.path.join(jar, 'tla2tools.jar')] + sorted(glob.glob(jar + '/*.jar') + glob.glob(jar + '/**/*.jar', recursive=True)))
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-Djava.io.tmpdir=' + d] + list(java) + \
              ['-cp', cp, 'tlc2.TLC', '-config', cfg, '-workers', str(workers), '-metadir', os.path.join(d, 'meta')] + \
              list(extra) + [module + '.tla']
        rc, out = self.sh(cmd, cwd=d, env=e, what='TLC %s/%s' % (module, cfg), timeout=timeout, check=False)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        self.last_states = (gen, dist)
        shutil.rmtree(d, True)
        return rc, out

    def tlc_ok(self, module, cfg=None, **kw):
        """Model checks the specification itself: it must hold."""
        rc, out = self.tlc(module, cfg, **kw)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('TLC on %s (%s) ended with %s:\n%s' % (module, cfg, rc, out[-6000:]))
        return out

    def records(self, module, recs, env=None, cfg=None, describe=None, key=None, workers=8, timeout=800, chunk=None, heap='12g'):
        """Evaluates recorded behaviour of the code, record by record, in TLC."""
        n = sum(1 for _ in open(recs))
        if n == 0:
            raise MachineryError('no records in ' + recs)
        e = {'VREC': recs}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
        gen, dist = self.last_states
        if rc != 0 or dist != 2 * n:
            raise MachineryError('TLC on %s: rc %s, %s distinct states for %s records:\n%s' % (module, rc, dist, n, out[-6000:]))
        self.traces += n
        rej = dict(parse_rejects(out))
        dev = re.findall(r'<<"KNOWN", "([^"]*)", "([^"]*)">>', out)
        about = {}
        if dev:
            about = {x: '' for x, _ in dev}
            for line in open(recs):
                r = json.loads(line)
                if r['id'] in about:
                    about[r['id']] = r.get('about', r['id'])
        for x, what in dev:
            self.violation('deviation:' + what, 'deviates as in "%s": %s' % (what, about[x]), None)
        if rej:
            for line in open(recs):
                r = json.loads(line)
                if r['id'] in rej:
                    k = key(r, rej[r['id']]) if key else r.get('about', r['id'])
                    self.violation(k, describe(r, rej[r['id']]) if describe else r.get('about', str(r['id'])),
                                   {'record': r, 'expected': rej[r['id']]})
        return n, rej

    def traces_ok(self, module, recs, describe=None, timeout=600, workers=8, env=None):
        """Checks that every recorded trace is a behaviour of the specification."""
        want = {}
        for line in open(recs):
            r = json.loads(line)
            want[r['id']] = r
        if not want:
            raise MachineryError('no traces in ' + recs)
        e = {'VREC': recs}
        e.update(env or {})
        rc, out = self.tlc(module, env=e, workers=workers, timeout=timeout)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('TLC on %s ended with %s:\n%s' % (module, rc, out[-6000:]))
        ok = set(re.findall(r'<<"ACCEPT", "([^"]*)">>', out))
        self.traces += len(want)
        self.cov['events'] = self.cov.get('events', 0) + sum(len(r['ev']) for r in want.values())
        bad = [r for i, r in want.items() if i not in ok]
        for r in bad[:4]:
            p = os.path.join(self.tmp, 'one.ndjson')
            with open(p, 'w') as f:
                f.write(json.dumps(r) + '\n')
            e1 = dict(e, VREC=p, VPROG='1')
            rc, out = self.tlc(module, env=e1, workers=1, timeout=timeout)
            at = max([0] + [int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)])
            nxt = r['ev'][at] if at < len(r['ev']) else None
            what = describe(r, at, nxt) if describe else json.dumps(nxt)
            self.violation('trace:%s' % (nxt or {}).get('e'), 'trace %s is not a behaviour of %s: after %d of %d events, nothing explains %s'
                           % (r['id'], module, at, len(r['ev']), what), {'trace': r, 'explained': at})
        for r in bad[4:]:
            self.violation('trace:more', 'trace %s is not a behaviour of %s' % (r['id'], module), {'trace': r})
        return len(want), bad

    def sample_records(self, recs, k=3, width=600):
        lines = open(recs).read().splitlines()
        step = max(1, len(lines) // k)
        for l in lines[step // 2::step][:k]:
            self.samples.append(l[:width])

    # ------------------------------------------------------------- verdict
    def violation(self, key, what, detail=None):
        self.violations.append((key, what, detail))

    def finish(self):
        known = load_known(self.pid)
        new, seen = [], {}
        for key, what, detail in self.violations:
            k = next((x for x in known if re.search(x['match'], key)), None)
            if k:
                seen[k['what']] = seen.get(k['what'], 0) + 1
            else:
                new.append((key, what, detail))
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:8],
                   phases_s=dict(('%02d %s' % (i, n), s) for i, (n, s) in enumerate(self.phases)),
                   known_findings=seen)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write('\n')
        for k in known:
            print('KNOWN-FINDING: property=%s %s%s' % (self.pid, k['what'], ' (seen %d times)' % seen[k['what']] if k['what'] in seen else ' (not exercised in this run)'))
        if new:
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%s-%d.json' % (self.pid, TIER, SEED))
            with open(p, 'w') as f:
                json.dump([dict(key=k, what=w, detail=x) for k, w, x in new[:50]], f, indent=1)
            for k, w, x in new[:5]:
                print('  %s' % (w[:600],))
            print('%d violations' % len(new))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('%s held: %d traces/records of the real code validated, %d states, %.1fs (%s, seed %d)' %
              (self.pid, self.traces, self.states, time.time() - self.t0, TIER, SEED))
        return 0


def parse_rejects(out):
    """<<"REJECT", id, expected>> tuples, possibly over several lines."""
    lines = out.splitlines()
    i = 0
    while i < len(lines):
        if lines[i].startswith('<<"REJECT"') or lines[i].startswith('<< "REJECT"'):
            buf = lines[i]
            while buf.count('<<') > buf.count('>>') and i + 1 < len(lines):
                i += 1
                buf += ' ' + lines[i].strip()
            m = re.match(r'<<\s*"REJECT",\s*"([^"]*)",?\s*(.*)>>$', buf)
            if not m:
                raise MachineryError('unreadable reject: ' + buf[:500])
            yield m.group(1), m.group(2)
        i += 1


def sut_crash(text):
    m = re.search(r'^(panic: .*|fatal error: .*|unexpected fault address.*|\[signal SIG.*|corrupt index.*)$', text, re.M)
    if not m or 'HARNESS-ERROR' in text:
        return None
    # only a crash that goes through the code under test counts
    if 'hound-search/hound' in text:
        return m.group(1)
    return None


def crash_key(text):
    m = re.search(r'(?:panic: |fatal error: |\[signal )(.{0,80})', text)
    f = re.search(r'github.com/hound-search/hound/([\w/.()*]+)', text)
    return '%s in %s' % (m.group(1) if m else '?', f.group(1) if f else '?')


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def main(registry):
    if len(sys.argv) != 2 or sys.argv[1] not in registry:
        print('usage: check.py ' + '|'.join(sorted(registry)))
        sys.exit(2)
    pid = sys.argv[1]
    c = Check(pid)
    try:
        registry[pid](c)
        rc = c.finish()
    except MachineryError as ex:
        print('CHECK-ERROR property=%s: %s' % (pid, ex))
        sys.stdout.flush()
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(rc)
