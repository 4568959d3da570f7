"""Framework of the checks: runs harnesses and TLC, reports violations, writes evidence.

Exit codes: 0 held, 1 violation (and a VIOLATION line), 2 the check itself could not answer."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time
import ioxbuild

VERIF = ioxbuild.VERIF
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
TLCJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ToolError(Exception):
    pass

class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay

class TlcResult:
    pass

def tlc(module, cfg=None, env=None, workers=4, timeout=800, args=(), heap='6g'):
    """runs TLC; returns a result with .code, .out, .states, .distinct"""
    meta = tempfile.mkdtemp(prefix='tlc_')
    try:
        e = dict(os.environ); e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss16m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', TLCJAR, 'tlc2.TLC',
               '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', cfg or module + '.cfg']
        cmd += list(args) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on %s' % module)
        res = TlcResult()
        res.code, res.out, res.cmd = r.returncode, r.stdout, ' '.join(cmd)
        res.states = res.distinct = 0
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', r.stdout)
        if m:
            res.states, res.distinct = (int(x.replace(',', '')) for x in m[-1])
        return res
    finally:
        shutil.rmtree(meta, ignore_errors=True)

class Check:
    def __init__(self, prop, tier, seed, level, rule):
        self.prop, self.tier, self.seed, self.level, self.rule = prop, tier, seed, level, rule
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.lock = threading.Lock()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], evaluations=0,
                        distinct_nontrivial=0, rule=rule, stages=[])
        self.violations = []
        self.known = []
        self.findings = [f for f in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
                         if f['property'] == prop and f.get('status') == 'open']

    def thorough(self):
        return self.tier == 'thorough'

    # ---------------------------------------------------------------- stages
    def stage(self, **kw):
        with self.lock:
            self.cov['stages'].append(kw)

    def model(self, module, cfg=None, workers=4, timeout=800, what='', args=(), env=None, expect=0, heap='6g'):
        """a design-level model: TLC explores all of it; it does not depend on /repo"""
        t = time.time()
        r = tlc(module, cfg, env, workers, timeout, args, heap)
        if r.code != expect:
            raise ToolError('model %s/%s: TLC exit %d, expected %d\n%s' % (module, cfg, r.code, expect, r.out[-3000:]))
        if expect == 0 and r.states == 0:
            raise ToolError('model %s explored nothing' % module)
        with self.lock:
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.states
        self.stage(kind='design model', module=module, cfg=cfg or module + '.cfg', states=r.distinct, transitions=r.states,
                   what=what, wall_s=round(time.time() - t, 1))
        return r

    def run_harness(self, cmd, timeout, env=None):
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e,
                               errors='replace')
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as ex:
            return 'timeout', '', ''

    def replay_file(self, stage, content):
        d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.prop, re.sub(r'[^\w]+', '_', stage)))
        with open(p, 'w') as f:
            json.dump(content, f, indent=1)
        return p

    def harness(self, exe, args, name, timeout=300, env=None):
        """runs a trace-recording harness: `exe args... OUT`; returns (path of the traces, its statistics)"""
        out = os.path.join(self.scratch, re.sub(r'[^\w]+', '_', name) + '.ndjson')
        cmd = [exe] + [str(a) for a in args] + [out]
        for attempt in (1, 2):
            if os.path.exists(out):
                os.unlink(out)
            code, so, se = self.run_harness(cmd, timeout, env)
            if code == 0:
                break
            if code == 2:
                raise ToolError('harness %s: %s' % (cmd, se[-2000:]))
        else:
            # crash or endless loop of the code under test, twice
            p = self.replay_file(name, dict(property=self.prop, kind='execution ended abnormally', command=cmd, exit=code,
                                            stdout=so[-2000:], stderr=se[-4000:]))
            raise Violation('%s: execution ended abnormally (%s)' % (name, code), p)
        try:
            st = json.loads(so.strip().splitlines()[-1])
        except Exception:
            raise ToolError('no statistics from %s: %s' % (cmd, so[-500:]))
        if not st.get('executions'):
            raise ToolError('harness %s executed nothing' % cmd)
        return out, st

    def validate(self, module, traces, name, cmd=None, cfg=None, workers=4, timeout=None, env=None, rerun=None, stats=None,
                 heap='6g'):
        """every recorded execution must be a behaviour of the specification"""
        t = time.time()
        lines = open(traces).read().splitlines()
        if not lines:
            raise ToolError('no traces for ' + name)
        lines, n_known = self.cut_known(lines)
        if n_known:
            traces = os.path.join(self.scratch, re.sub(r'[^\w]+', '_', name) + '_cut.ndjson')
            with open(traces, 'w') as f:
                f.write('\n'.join(lines) + '\n')
        r, off, dropped = self._judge(module, cfg, env, traces, lines, workers, timeout, heap, name)
        if r.code == 12 and 'Explained is violated' in r.out:
            h, i = self._where(r.out)
            h += off
            hist = json.loads(lines[h - 1])
            # repeat it: same execution again, judged alone
            one = os.path.join(self.scratch, re.sub(r'[^\w]+', '_', name) + '_one.ndjson')
            if rerun:
                again, _ = rerun()
                al = self.cut_known(open(again).read().splitlines())[0]
                if lines[h - 1] not in al:
                    raise ToolError('%s: rejected execution did not repeat' % name)
            with open(one, 'w') as f:
                f.write(lines[h - 1] + '\n')
            r1 = tlc(module, cfg, dict(env or {}, TRACE=one), 1, 300, (), heap)
            if r1.code != 12:
                raise ToolError('%s: rejection did not repeat (TLC exit %d)\n%s' % (name, r1.code, r1.out[-2000:]))
            p = self.replay_file(name, dict(
                property=self.prop, kind='recorded execution is not a behaviour of the specification', specification=module,
                command=cmd, cfg=hist.get('cfg'), first_unexplained_event=i, event=hist['ev'][i - 1] if i <= len(hist['ev']) else None,
                history=hist,
                how_to_replay='the src field names the execution (seed and schedule); TRACE=<file with this history on one line> '
                              'tlc -config %s.cfg %s.tla in /verif/spec judges it' % (cfg or module, module)))
            raise Violation('%s: event %d of execution "%s" is not explained by %s: %s'
                            % (name, i, hist.get('src'), module, json.dumps(hist['ev'][i - 1]) if i <= len(hist['ev']) else ''), p)
        if r.code != 0:
            raise ToolError('%s: TLC exit %d\n%s' % (name, r.code, r.out[-3000:]))
        ex = (stats or {}).get('executions', len(lines))
        with self.lock:
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.states
            self.cov['traces_validated_against_impl'] += len(lines) - dropped
            self.cov['evaluations'] += ex
            self.cov['distinct_nontrivial'] += (stats or {}).get('distinct', len(lines))
            if len(self.cov['samples']) < 6:
                s = json.loads(lines[len(lines) // 2]); s['ev'] = s['ev'][:40]
                self.cov['samples'].append(s)
        self.stage(kind='conformance', name=name, specification=module, executions_run=ex, executions_judged_by_tlc=len(lines) - dropped, left_out_too_slow=dropped,
                   harness=stats, states=r.distinct, wall_s=round(time.time() - t, 1))
        return lines

    def _judge(self, module, cfg, env, traces, lines, workers, timeout, heap, name):
        """TLC on all executions; if that takes too long, in portions, leaving out those that take too long"""
        slow = 4 if self.thorough() else 1
        timeout = timeout or 240 * slow
        try:
            return tlc(module, cfg, dict(env or {}, TRACE=traces), workers, timeout, (), heap), 0, 0
        except ToolError:
            pass
        n = max(1, len(lines) // 32)
        def part(k):
            f = os.path.join(self.scratch, '%s_part%d.ndjson' % (re.sub(r'[^\w]+', '_', name), k))
            with open(f, 'w') as o:
                o.write('\n'.join(lines[k:k + n]) + '\n')
            try:
                return k, tlc(module, cfg, dict(env or {}, TRACE=f), 1, 60 * slow, (), '2g')
            except ToolError:
                return k, None
        best, dropped, states, distinct = None, 0, 0, 0
        with cf.ThreadPoolExecutor(6) as ex:
            for k, r in ex.map(part, range(0, len(lines), n)):
                if r is None:
                    dropped += len(lines[k:k + n])
                elif best is None or (r.code != 0 and best[0].code == 0):
                    best = (r, k)
                if r is not None:
                    states += r.states; distinct += r.distinct
        if best is None or (best[0].code == 0 and dropped > len(lines) // 2):
            raise ToolError('%s: TLC timed out' % name)
        if best[0].code == 0:
            best[0].states, best[0].distinct = states, distinct
        return best[0], best[1], dropped

    def corrupted(self, module, lines, corrupt, name, cfg='', workers=4, env=None):
        """binding: executions with one falsified observation must all be rejected"""
        out = []
        for l in lines:
            c = corrupt(json.loads(l))
            if c:
                out.append(json.dumps(c))
            if len(out) >= 200:
                break
        if not out:
            raise ToolError('nothing to corrupt for ' + name)
        f = os.path.join(self.scratch, re.sub(r'[^\w]+', '_', name) + '_corrupt.ndjson')
        base = open(os.path.join(SPEC, (cfg or module + '.cfg'))).read()
        cf_ = os.path.join(self.scratch, re.sub(r'[^\w]+', '_', name) + '_corrupt.cfg')
        open(cf_, 'w').write(base.replace('INVARIANT Explained', 'INVARIANT NeverExplained'))
        # where an answer was not determined by the history, its falsification may be another behaviour: few of them
        accepted = []
        while True:
            open(f, 'w').write('\n'.join(out) + '\n')
            r = tlc(module, cf_, dict(env or {}, TRACE=f), workers)
            if r.code == 0:
                break
            if r.code != 12:
                raise ToolError('%s: TLC exit %d on falsified executions\n%s' % (name, r.code, r.out[-1500:]))
            accepted.append(out.pop(self._where(r.out)[0] - 1))
            if len(accepted) > 8 or len(out) < 3 * len(accepted):
                raise ToolError('%s: falsified executions were accepted: %s' % (name, accepted[0][:3000]))
        self.stage(kind='binding', name=name, falsified_executions_rejected=len(out), not_determined=len(accepted))

    @staticmethod
    def _where(out):
        # the last state of the counterexample
        hs = re.findall(r'^/\\ h = (\d+)', out, re.M) or re.findall(r'\bh = (\d+)', out)
        is_ = re.findall(r'^/\\ i = (\d+)', out, re.M) or re.findall(r'\bi = (\d+)', out)
        if not hs or not is_:
            raise ToolError('cannot read counterexample:\n' + out[-2000:])
        return int(hs[-1]), int(is_[-1]) - 1

    def cut_known(self, lines):
        """executions that end in a listed finding are judged up to it; returns them and how many were cut"""
        out, n = [], 0
        for l in lines:
            h, cut = None, None
            for f in self.findings:
                m = f['match']
                if not re.search(m['src'], l):
                    continue
                h = h or json.loads(l)
                if not re.search(m['src'], h.get('src', '')):
                    continue
                at = [k for k, e in enumerate(h['ev']) if any(all(e.get(x) == y for x, y in v.items()) for v in m['events'])]
                if at and (not cut or at[0] < cut[0]):
                    cut = at[0], f
            if cut:
                h['ev'] = h['ev'][:cut[0]]
                l = json.dumps(h)
                n += 1
                with self.lock:
                    if cut[1]['id'] not in self.known:
                        self.known.append(cut[1]['id'])
                        print('KNOWN-FINDING: property=%s %s' % (self.prop, cut[1]['what']), flush=True)
            out.append(l)
        return out, n

    # ---------------------------------------------------------------- driver
    def parallel(self, fns, n=3):
        errs = []
        with cf.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(f) for f in fns]
            for f in fs:
                try:
                    f.result()
                except Exception as e:  # noqa
                    errs.append(e)
        for e in errs:
            if isinstance(e, Violation):
                raise e
        for e in errs:
            raise e

    def finish(self, code):
        self.cov['samples'] = self.cov['samples'] or ['no execution recorded']
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        if self.violations:
            self.cov['violations_found'] = self.violations
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        return code

def main(prop, level, rule, body):
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    os.environ['LC_ALL'] = 'C'
    c = Check(prop, tier, seed, level, rule)
    try:
        body(c)
        print('OK property=%s tier=%s traces=%d states=%d wall=%.1fs' % (
            prop, tier, c.cov['traces_validated_against_impl'], c.cov['states'], time.time() - c.t0), flush=True)
        return c.finish(0)
    except Violation as v:
        c.violations.append(dict(what=v.what, replay=v.replay))
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, v.replay), flush=True)
        return c.finish(1)
    except ioxbuild.BuildError as e:
        print('ERROR build: %s' % e, file=sys.stderr)
        return c.finish(2)
    except ToolError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return c.finish(2)
