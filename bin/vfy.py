"""Machinery shared by all checks: compiling harness drivers against /repo,
running TLC, replaying emitted transitions, validating recorded traces,
confirming disagreements, writing evidence."""
import os, sys, json, contextlib, subprocess, threading, time, re, shutil, hashlib, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 8
os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1'


class CheckError(Exception):
    pass


class Slots:
    """counting semaphore with weights: the machine has NCPU of them"""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def acquire(self, w):
        w = min(w, NCPU)
        with self.c:
            while self.n < w:
                self.c.wait()
            self.n -= w
        return w

    def release(self, w):
        with self.c:
            self.n += w
            self.c.notify_all()


class Check:
    def __init__(self, prop, title=''):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = os.path.join(VERIF, '.work', '%s-%d' % (prop, os.getpid()))
        self.replays = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.slots = Slots(NCPU)
        self.pool = ThreadPoolExecutor(max_workers=256)
        self.futs = []
        self.lock = threading.Lock()
        self.violations = []       # dicts
        self.models = {}           # name -> stats
        self.current, self.samples_taken = None, []
        self.replay = {}           # name -> stats
        self.traces = {}           # name -> stats
        self.samples = []
        self.compiles = {}
        self.assumptions = []
        self.notes = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.controls = dict(replays_with_altered_expectations=0, altered_expectations=0, of_these_rejected=0, not_rejected=[], altered_traces=0, altered_traces_rejected=0)

    # ---------------------------------------------------------------- utils
    def submit(self, f, *a, **k):
        fu = self.pool.submit(f, *a, **k)
        with self.lock:
            self.futs.append(fu)
        return fu

    def sh(self, cmd, timeout, weight=1, cwd=None, env=None):
        w = self.slots.acquire(weight)
        try:
            try:
                p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                return p.returncode, p.stdout.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired as e:
                return -999, (e.stdout or b'').decode('utf-8', 'replace')
        finally:
            self.slots.release(w)

    # -------------------------------------------------------------- compile
    def compile(self, src, defs=(), opt='-O0', std='c++17', tag=None):
        """future of an executable (None when the repository's headers do not compile)"""
        key = (src, tuple(defs), opt, std)
        with self.lock:
            if key in self.compiles:
                return self.compiles[key]
            fu = self.pool.submit(self._compile, src, defs, opt, std)
            self.compiles[key] = fu
            self.futs.append(fu)
            return fu

    def _compile(self, src, defs, opt, std):
        h = hashlib.sha1(repr((src, defs, opt, std)).encode()).hexdigest()[:10]
        exe = os.path.join(self.work, 'x_%s_%s' % (os.path.basename(src).replace('.cpp', ''), h))
        cmd = ['g++', '-std=' + std, '-w', opt, '-I' + os.path.join(REPO, 'include'), '-I' + HARN] + \
              [x for d in defs for x in ('-D' + d).split()] + [os.path.join(HARN, src), '-o', exe]
        for attempt in (1, 2):
            rc, out = self.sh(cmd, 600)
            if rc == 0:
                return exe
            if rc == -999 or 'Killed' in out or ' error: ' not in out:
                if attempt == 2:
                    raise CheckError('compiler failed without a diagnostic: %s\n%s' % (' '.join(cmd), out[-2000:]))
        errs = [l for l in out.splitlines() if 'error' in l][:6]
        self.violate('compile', dict(what='the documented interface used by the harness no longer compiles',
                                     command=' '.join(cmd), errors=errs))
        return None

    # ------------------------------------------------------------------ TLC
    def tlc(self, name, module, constants, spec='Spec', invariants=(), properties=(), post=None, workers=2,
            timeout=800, extra='', heap='3g', deadlock=False, count=True, check=True, constraint=None):
        constants = dict(constants or {})
        if module != 'IntervalAlgebra':
            constants.setdefault('SampleFile', '')
        cfgp = os.path.join(self.work, name + '.cfg')
        with open(cfgp, 'w') as f:
            f.write('SPECIFICATION %s\n' % spec)
            if constants:
                f.write('CONSTANTS\n')
                for k, v in constants.items():
                    f.write('  %s = %s\n' % (k, tla(v)))
            for i in invariants:
                f.write('INVARIANT %s\n' % i)
            for i in properties:
                f.write('PROPERTY %s\n' % i)
            if constraint:
                f.write('CONSTRAINT %s\n' % constraint)
            if constants.get('SampleFile'):
                f.write('CONSTRAINT OneStep\n')
            if post:
                f.write('POSTCONDITION %s\n' % post)
            f.write('CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE'))
            f.write(extra)
        md = os.path.join(self.work, 'md_' + name)
        env = dict(os.environ)
        env['JAVA_TOOL_OPTIONS'] = '-XX:+UseParallelGC -Xmx%s -Xss64m -XX:TieredStopAtLevel=4' % heap
        env['JDK_JAVA_OPTIONS'] = '-Xss512m'      # read by the launcher: the main thread computes the initial states
        cmd = ['tlc', '-config', cfgp, '-metadir', md, '-workers', str(workers), module + '.tla']
        t = time.time()
        rc, out = self.sh(cmd, timeout, weight=workers, cwd=SPEC, env=env)
        shutil.rmtree(md, ignore_errors=True)
        m = re.search(r'^([\d,]+) states generated, ([\d,]+) distinct states found', out, re.M)
        d = re.search(r'depth of the complete state graph search is (\d+)', out)
        r = dict(module=module, constants={k: v if isinstance(v, (int, str)) else tla(v) for k, v in constants.items() if k not in ('OutFile', 'TraceFile', 'SampleFile')},
                 transitions=int(m.group(1).replace(',', '')) if m else 0,
                 states=int(m.group(2).replace(',', '')) if m else 0,
                 depth=int(d.group(1)) if d else 0, wall_s=round(time.time() - t, 2),
                 ok='No error has been found' in out and rc == 0)
        r['_out'], r['_rc'] = out, rc
        if check and not r['ok']:
            raise CheckError('TLC failed on %s (%s):\n%s' % (module, name, out[-4000:]))
        if count:
            with self.lock:
                self.models[name] = {k: v for k, v in r.items() if not k.startswith('_')}
        return r

    def sample(self, name, n, states, ranges, predicates=8):
        """a selection of contents, cuts, ranges and predicates over n atoms (Segments.tla, SampleFile)"""
        rnd = random.Random('%s %s %d' % (self.prop, name, self.seed))
        contents, cuts = [[-1] * n, [rnd.randrange(9)] * n], [[], sorted(rnd.sample(range(1, n), n // 2))]
        while len(contents) < states:
            kind, c = len(contents) % 6, []
            longest = (1, 3, 6, 2, 4, n)[kind]
            gaps = (0.5, 0.3, 0.4, 0.0, 0.1, 0.3)[kind]
            while len(c) < n:
                c += [-1 if rnd.random() < gaps else rnd.randrange(9)] * rnd.randint(1, longest)
            contents.append(c[:n])
            cuts.append([b for b in range(1, n) if rnd.random() < (0.1, 0.5, 0.3, 0.9, 0.2, 1.0)[rnd.randrange(6)]])
        rs = [[0, n - 1]]
        while len(rs) < ranges:
            lo = rnd.randrange(n)
            rs.append([lo, min(n - 1, lo + (0, rnd.randrange(4), rnd.randrange(n))[len(rs) % 3])])
        ps = [[], list(range(1, n + 1)), list(range(1, n + 1, 2)), list(range(2, n + 1, 2)), list(range(1, n // 4))]
        while len(ps) < predicates:
            ps.append([i for i in range(1, n + 1) if rnd.random() < 0.6])
        f = os.path.join(self.work, 'sample_%s.json' % name)
        with open(f, 'w') as fh:
            json.dump(dict(contents=contents, cuts=cuts, ranges=rs, predicates=ps[:predicates]), fh)
        return f

    @contextlib.contextmanager
    def large(self, n, states, ranges, predicates=8):
        """the suites inside take a sample of large containers instead of all small ones"""
        self.current = (n, self.sample(str(len(self.samples_taken)), n, states, ranges, predicates), set())
        self.samples_taken.append(dict(atoms=n, contents=states, ranges=ranges))
        try:
            yield
        finally:
            self.current = None

    # --------------------------------------------------- replay (binding A)
    def emit(self, name, module, constants, **kw):
        """future of the file of transitions TLC emits for this model"""
        constants = dict(constants)
        if self.current:
            name += '_large'
            constants.update(N=self.current[0], SampleFile=self.current[1])
            self.current[2].add(name)
        def go():
            out = os.path.join(self.work, name + '.csv')
            c = dict(constants)
            c['OutFile'] = out
            self.tlc(name, module, c, **kw)
            n = sum(1 for _ in open(out))
            if n == 0:
                raise CheckError('model %s emitted nothing' % name)
            with self.lock:
                self.models[name]['emitted'] = n
            with open(out) as f:
                ls = [l.strip() for l in f.readlines()[:4000]]
            rnd = random.Random(self.seed)
            with self.lock:
                self.samples += ['%s: %s' % (name, x) for x in rnd.sample(ls, min(3, len(ls)))]
            return out
        return self.submit(go)

    def drive(self, name, exe, case_file, args=(), shards=1, timeout=800):
        """replay the cases through the driver; disagreements become violations"""
        if self.current:
            name = 'large/' + name
        def go(sh):
            x, f = exe.result(), case_file.result()
            if x is None:
                return
            base = [x, '-f', f] + list(args)
            rc, out = self.sh(base + ['-shard', '%d/%d' % (sh, shards)], timeout)
            self.digest(name, base, f, rc, out)
            if sh == 0:
                self.replay_control(name, base, f)
        return [self.submit(go, i) for i in range(shards)]

    def replay_control(self, name, base, f):
        """a driver fed with wrong expectations has to complain; the outcome is reported in the evidence"""
        rnd = random.Random(self.seed + len(name))
        size = os.path.getsize(f)
        lines = []
        with open(f, 'rb') as fh:
            for i in range(40):                         # forty stretches of the file
                if size > 400000:
                    fh.seek(int(size * i / 40))
                    fh.readline()
                lines += [l.decode().rstrip('\n') for l in fh.readlines(10000)]
        groups = {}
        for l in lines:
            p = l.split(';')
            groups.setdefault((p[0], p[1] if p[1].startswith('"') else '', len(p)), []).append(p)
        bad = []
        for k in sorted(groups):
            g = groups[k]
            for p in rnd.sample(g, min(8, len(g))):
                q = rnd.choice(g)
                j = len(p) - (2 if p[-1].startswith('{') or name.startswith('hints/') else 1)
                if q[j] != p[j]:
                    bad.append(';'.join(p[:j] + [q[j]] + p[j + 1:]))
        if not bad:
            return
        one = os.path.join(self.work, 'control_%s.csv' % hashlib.sha1(name.encode()).hexdigest()[:10])
        with open(one, 'w') as fh:
            fh.write('\n'.join(bad) + '\n')
        cmd = list(base)
        cmd[cmd.index('-f') + 1] = one
        rc, out = self.sh(cmd, 120)
        for l in out.splitlines():
            if l.startswith('STATS '):
                st = json.loads(l[6:])
                with self.lock:
                    self.controls['altered_expectations'] += len(bad)
                    self.controls['replays_with_altered_expectations'] += 1
                    if st['bad']:
                        self.controls['of_these_rejected'] += 1
                    elif st['checks']:
                        self.controls['not_rejected'].append(name)

    def digest(self, name, base, f, rc, out):
        stats = None
        bad = []
        for l in out.splitlines():
            if l.startswith('STATS '):
                stats = json.loads(l[6:])
            elif l.startswith('MISMATCH') or l.startswith('CRASH'):
                bad.append(l)
            elif l.startswith('ERROR'):
                raise CheckError(l)
        if rc == -999:
            raise CheckError('driver %s timed out' % ' '.join(base))
        if stats is None and not bad:
            raise CheckError('driver %s ended with %s and no report:\n%s' % (' '.join(base), rc, out[-2000:]))
        with self.lock:
            r = self.replay.setdefault(name, dict(cases=0, checks=0, disagreements=0, per_op={}, per_variant={}))
            if stats:
                for k, kk in (('cases', 'cases'), ('checks', 'checks'), ('bad', 'disagreements')):
                    r[kk] += stats[k]
                for d in ('per_op', 'per_variant'):
                    for k, v in stats[d].items():
                        r[d][k] = r[d].get(k, 0) + v
        for l in bad:
            self.confirm(name, base, l)

    def confirm(self, name, base, line):
        fields = dict(p.split('=', 1) for p in line.split('\t')[1:] if '=' in p)
        case = fields.get('case', '')
        if self.is_known(fields):
            return
        with self.lock:
            if len(self.violations) > 12:
                return
        one = os.path.join(self.work, 'one_%s.csv' % hashlib.sha1(line.encode()).hexdigest()[:10])
        with open(one, 'w') as fh:
            fh.write(case + '\n')
        cmd = list(base)
        cmd[cmd.index('-f') + 1] = one
        rc, out = self.sh(cmd, 120)
        again = [l for l in out.splitlines() if l.startswith('MISMATCH') or l.startswith('CRASH')]
        if not again and rc == 0:
            # not reproduced on its own: replay the whole file once more
            rc, out = self.sh(list(base), 600)
            again = [l for l in out.splitlines() if l.startswith('MISMATCH') or l.startswith('CRASH')]
            if not again and rc == 0:
                with self.lock:
                    self.notes.setdefault('unconfirmed', []).append(line[:500])
                return
        self.violate('replay', dict(suite=name, transition=case, **{k: v for k, v in fields.items() if k != 'case'},
                                    confirmed=again[:3], case_file=case,
                                    how='write the transition to a file and run the driver (compiled by this check from harness/) with -f <file> ' + ' '.join(cmd[3:])))

    # -------------------------------------------------- traces (binding B)
    def record(self, name, exe, seed, events, args=(), timeout=300):
        """run a random history on the real containers; future of the trace file"""
        def go():
            x = exe.result()
            if x is None:
                return None
            out = os.path.join(self.work, name + '.ndjson')
            cmd = [x, '-o', out, '-seed', str(seed), '-max', str(events)] + list(args)
            rc, txt = self.sh(cmd, timeout)
            crash = [l for l in txt.splitlines() if l.startswith('CRASH') or l.startswith('MISMATCH')]
            if crash:
                rc2, txt2 = self.sh(cmd, timeout)
                again = [l for l in txt2.splitlines() if l.startswith('CRASH') or l.startswith('MISMATCH')]
                if again:
                    f = dict(p.split('=', 1) for p in crash[0].split('\t')[1:] if '=' in p)
                    if not self.is_known(f):
                        self.violate('history', dict(suite=name, what='the real containers failed during a random history', line=crash[0], command=' '.join(cmd)))
                if crash[0].startswith('CRASH'):
                    return None
            elif rc != 0 or not os.path.exists(out):
                raise CheckError('history driver failed: %s -> %s\n%s' % (' '.join(cmd), rc, txt[-1500:]))
            return out
        return self.submit(go)

    def validate(self, name, module, trace, constants, invariants=('TypeOK',), rerecord=None, timeout=800, heap='3g'):
        def go():
            tf = trace.result()
            if tf is None:
                return
            lines = [l for l in open(tf)]
            c = dict(constants)
            c['TraceFile'] = tf
            r = self.tlc(name, module, c, spec='TSpec', invariants=invariants, post='TraceAccepted', workers=1, check=False, count=False, timeout=timeout, heap=heap)
            hist = sum(1 for l in lines if '"e":"reset"' in l)
            if r['ok']:
                kinds = {}
                for l in lines:
                    e = json.loads(l)
                    k = e['e'] + ('.' + str(e['op']) if 'op' in e else '')
                    kinds[k] = kinds.get(k, 0) + 1
                with self.lock:
                    self.traces[name] = dict(events=len(lines), histories=hist, states=r['states'], transitions=r['transitions'], wall_s=r['wall_s'], events_by_kind=kinds)
                    self.samples.append('%s: %s' % (name, lines[min(len(lines) - 1, 20)].strip()[:300]))
                self.trace_control(name, module, lines, constants, heap)
                return
            if 'TraceAccepted' not in r['_out'] and 'is violated' not in r['_out'] and 'POSTCONDITION' not in r['_out'].upper():
                raise CheckError('TLC failed on trace %s:\n%s' % (name, r['_out'][-4000:]))
            # rejected: repeat the validation on the same file and report the event
            r2 = self.tlc(name + '_again', module, c, spec='TSpec', invariants=invariants, post='TraceAccepted', workers=1, check=False, count=False, timeout=timeout, heap=heap)
            if r2['ok'] or r2['depth'] != r['depth']:
                raise CheckError('rejection of trace %s was not repeatable' % name)
            i = r['depth']            # 1-based index of the event that is no step of the specification
            i = min(max(i, 1), len(lines))
            b = max([k for k in range(i) if '"e":"reset"' in lines[k]] or [0])
            ev = lines[i - 1].strip()
            if self.is_known(dict(event=ev, suite=name)):
                return
            self.violate('trace', dict(suite=name, what='the recorded history is not a behaviour of the specification', rejected_event=ev,
                                       event_number=i, history=[l.strip() for l in lines[b:i]]))
        return self.submit(go)

    def trace_control(self, name, module, lines, constants, heap):
        """the same trace with one wrong answer must be rejected at that event"""
        rnd = random.Random(self.seed + len(name))
        judged = re.findall(r'"(\w+)"', str(constants.get('Judged', '')))
        if judged:
            at = [i for i, l in enumerate(lines[:400]) if '"e":"ask"' in l and any('"q":"%s"' % ('cont' if q == 'relate' else q) in l for q in judged)]
        else:
            at = [i for i, l in enumerate(lines[:400]) if '"post":' in l and '"e":"reset"' not in l]
        if not at:
            return
        i = rnd.choice(at)
        e = json.loads(lines[i])
        post = e['post']
        if judged and e['q'] == 'elem':
            e['ans'] = e['ans'][:-1] if e['ans'] else [[0, 0, 1]]
        elif judged:
            j = 2 if e['q'] == 'cont' and 'relate' in judged else 0
            if e['ans'][j] == 99:      # not asked
                return
            e['ans'][j] = 5 if e['ans'][j] != 5 else 6
        elif isinstance(post, dict):
            key = sorted(post)[0]
            post[key] = post[key][:-1] if post[key] else [[0, 0, 1]]
        else:
            e['post'] = post[:-1] if post else [[0, 0, 1]]
        tf = os.path.join(self.work, name + '_altered.ndjson')
        with open(tf, 'w') as f:
            f.write(''.join(lines[:i]) + json.dumps(e, separators=(',', ':')) + '\n')
        c = dict(constants)
        c['TraceFile'] = tf
        r = self.tlc(name + '_altered', module, c, spec='TSpec', post='TraceAccepted', workers=1, check=False, count=False, heap=heap)
        if r['ok']:
            raise CheckError('the trace %s with an altered event %d was accepted' % (name, i + 1))
        with self.lock:
            self.controls['altered_traces'] += 1
            self.controls['altered_traces_rejected'] += 'TraceAccepted' in r['_out'] or 'POSTCONDITION' in r['_out'].upper()

    # ------------------------------------------------------------- verdicts
    def violate(self, kind, info):
        with self.lock:
            os.makedirs(self.replays, exist_ok=True)
            n = len(self.violations) + 1
            p = os.path.join(self.replays, 'violation_%d.json' % n)
            info = dict(property=self.prop, finding=kind, tier=self.tier, seed=self.seed, **info)
            with open(p, 'w') as f:
                json.dump(info, f, indent=1)
            info['_path'] = p
            self.violations.append(info)

    def is_known(self, fields):
        for k in self.known:
            if all(re.search(v, fields.get(f, '')) for f, v in k['match'].items()):
                with self.lock:
                    self.known_hit[k['what']] = self.known_hit.get(k['what'], 0) + 1
                return True
        return False

    def finish(self, level='model_checking'):
        err = None
        i = 0
        while True:
            with self.lock:
                if i >= len(self.futs):
                    break
                fu = self.futs[i]
            i += 1
            try:
                fu.result()
            except CheckError as e:
                err = err or str(e)
            except Exception as e:
                import traceback
                err = err or traceback.format_exc()
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.work, ignore_errors=True)
        cov = dict(
            states=sum(m['states'] for m in self.models.values()) + sum(t['states'] for t in self.traces.values()),
            transitions=sum(m['transitions'] for m in self.models.values()) + sum(t['transitions'] for t in self.traces.values()),
            traces_validated_against_impl=sum(t['histories'] for t in self.traces.values()) + sum(r['cases'] for r in self.replay.values()),
            recorded_histories_validated=sum(t['histories'] for t in self.traces.values()),
            recorded_events_validated=sum(t['events'] for t in self.traces.values()),
            specification_transitions_replayed=sum(r['cases'] for r in self.replay.values()),
            comparisons_with_the_real_code=sum(r['checks'] for r in self.replay.values()),
            models=self.models, replays=self.replay, traces=self.traces, samples=self.samples[:40])
        cov.update(self.notes)
        if self.samples_taken:
            cov['samples_of_large_containers'] = self.samples_taken
        cov['controls'] = self.controls
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, n in self.known_hit.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.violations:
            for v in self.violations[:12]:
                print('VIOLATION property=%s replay=%s' % (self.prop, v['_path']))
                print('   ' + json.dumps({k: x for k, x in v.items() if k in ('suite', 'codec', 'variant', 'transition', 'got', 'want', 'rejected_event', 'errors', 'line')})[:700])
            if err:
                print('note: ' + err[:1500])
            return 1
        if err:
            print('CHECK ERROR: ' + err)
            return 2
        print('%s %s: held on %d model states, %d transitions, %d replayed transitions (%d comparisons), %d recorded events; %.1f s' % (
            self.prop, self.tier, cov['states'], cov['transitions'], cov['specification_transitions_replayed'],
            cov['comparisons_with_the_real_code'], cov['recorded_events_validated'], time.time() - self.t0))
        return 0


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, Raw):
        return v.s
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    raise TypeError(v)


class Raw:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


def load_known(prop):
    """known-findings.txt: lines 'known: property=<id> match=<json> what=<text>'"""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=(\{.*?\}) what=(.*)$', l.strip())
            if m and m.group(1) == prop:
                r.append(dict(match=json.loads(m.group(2)), what=m.group(3)))
    return r
