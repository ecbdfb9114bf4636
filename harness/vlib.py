"""Shared machinery of the checks: build the TLC evaluator, run TLC, run drivers
of the real code, collect verdicts, write evidence.

Nothing here decides a property: verdicts come from TLC evaluating the TLA+
modules in /verif/spec on (a) the model's own state space and (b) histories
recorded from the real code in /repo.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('AEOLIS_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
EVID = os.path.join(VERIF, 'evidence')


class Machinery(Exception):
    """The check itself could not give an answer (exit 2)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.tmp = tempfile.mkdtemp(prefix='aeolis-verif-')
        self.cls = os.path.join(self.tmp, 'cls')
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.events = 0
        self.traces = 0
        self.tags = {}
        self.samples = []
        self.violations = []      # dicts: clauses, key, event
        self.notes = []
        self.model_runs = []
        self._n = 0

    # ------------------------------------------------------------------ build
    def build(self):
        os.makedirs(self.cls)
        src = [os.path.join(SPEC, 'java/tlc2/module', f) for f in ('RealValue.java', 'Num.java')]
        r = subprocess.run(['javac', '-nowarn', '-cp', TLAJARS, '-d', self.cls] + src,
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery('javac failed: ' + r.stderr[-2000:])

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        self._n += 1
        return os.path.join(self.tmp, '%03d-%s' % (self._n, name))

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, heap='3g'):
        """Run TLC on spec/<module>.tla with spec/<cfg>; returns its output."""
        meta = self.path('meta')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Dtlc2.tool.queue.IStateQueue=MemStateQueue',
               '-DTLA-Library=' + SPEC, '-cp', self.cls + ':' + TLAJARS, 'tlc2.TLC',
               '-deadlock', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
               '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=self.tmp, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on %s/%s' % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        out = '\n'.join(l for l in (r.stdout + r.stderr).split('\n')
                        if not l.startswith(('Loading ', 'Parsing ', 'Semantic processing')))
        return r.returncode, out

    def model_check(self, module, cfg, workers=4, extra=(), env=None, timeout=800, require=()):
        """Exhaustive check of the design specification.  The specification does
        not depend on /repo, so a failure here is a failure of the machinery."""
        rc, out = self.tlc(module, cfg, env=env, workers=workers, extra=extra, timeout=timeout)
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out.replace(',', ''))
        if rc != 0 or not m:
            raise Machinery('model check %s/%s failed:\n%s' % (module, cfg, out[-4000:]))
        gen, dist = map(int, m[-1])
        for r in require:
            if r not in out:
                raise Machinery('model check %s/%s did not report %r' % (module, cfg, r))
        self.states += dist
        self.transitions += gen
        self.model_runs.append({'module': module, 'cfg': cfg, 'distinct_states': dist, 'transitions': gen})
        return out

    def refute(self, module, cfg, invariant, workers=4, timeout=800):
        """A deliberately broken design for which TLC must find a violation of
        the invariant: shows that the invariant is not vacuous."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout)
        if rc == 0 or 'Invariant %s is violated' % invariant not in out:
            raise Machinery('%s/%s should violate %s:\n%s' % (module, cfg, invariant, out[-3000:]))
        self.model_runs.append({'module': module, 'cfg': cfg, 'refuted': invariant})

    def generate(self, module, cfg, num, depth, env=None, seed=None):
        """Behaviours of the specification (TLC -simulate); the spec appends one
        JSON line per finished behaviour to $SCEN."""
        scen = self.path('scen.ndjson')
        e = {'SCEN': scen}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, env=e, workers=1,
                           extra=['-simulate', 'num=%d' % num, '-depth', str(depth),
                                  '-seed', str(self.seed if seed is None else seed)])
        if rc != 0 or not os.path.exists(scen):
            raise Machinery('generation %s/%s failed:\n%s' % (module, cfg, out[-4000:]))
        lines = []
        seen = set()
        for ln in open(scen):
            if ln not in seen:
                seen.add(ln)
                lines.append(json.loads(ln))
        if len(lines) > num:
            lines = [lines[(k * len(lines)) // num] for k in range(num)]
        self.model_runs.append({'module': module, 'cfg': cfg, 'generated_behaviours': len(lines)})
        return lines

    def dump_scen(self, scen):
        p = self.path('scen.json')
        json.dump(scen, open(p, 'w'))
        return p

    # ---------------------------------------------------------------- drivers
    def driver(self, name, *args, scen=None, timeout=None, n=1, env=None):
        """Run drivers/<name>.py against the real code; returns recorded events."""
        outs = []
        def one(k):
            out = self.path('trace-%s.json' % name)
            work = self.path('work-%s' % name)
            os.makedirs(work)
            cmd = [PY, os.path.join(VERIF, 'drivers', name + '.py'), '--out', out, '--work', work,
                   '--seed', str(self.seed * 1000 + k), '--tier', self.tier, '--part', '%d/%d' % (k, n)]
            if scen is not None:
                cmd += ['--scen', scen]
            cmd += [str(a) for a in args]
            e = dict(os.environ)
            e.update(PYTHONPATH=REPO + ':' + os.path.join(VERIF, 'harness') + ':' + os.path.join(VERIF, 'drivers'),
                     PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
                     MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(self.tmp, 'mpl'),
                     NUMBA_CACHE_DIR=os.path.join(self.tmp, 'numba'),
                     OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
            e.update(env or {})
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, cwd=work, env=e, timeout=timeout or (3600 if self.tier == "thorough" else 600))
            except subprocess.TimeoutExpired:
                raise Machinery('driver %s timed out' % name)
            if r.returncode in (-24, 152):
                # the code under test does not end: an observation
                return [{'key': 'no-answer:%s-%d' % (name, k), 'escaped': True, 'exc': 'no answer within the limit of computing time', 'where': [name]}]
            if r.returncode != 0 or not os.path.exists(out):
                raise Machinery('driver %s failed (%d):\n%s\n%s' % (name, r.returncode, r.stdout[-1500:], r.stderr[-4000:]))
            shutil.rmtree(work, ignore_errors=True)
            return json.load(open(out))
        if n == 1:
            return one(0)
        with cf.ThreadPoolExecutor(n) as ex:
            for o in ex.map(one, range(n)):
                outs.extend(o)
        return outs

    # ----------------------------------------------------------- trace verdict
    def judge(self, module, events, cfg='Trace.cfg', chunks=1, env=None, timeout=800, histories=None, only=None):
        """TLC judges recorded events with spec/<module>.tla (operator Judge).
        only: prefixes of the clauses that belong to this property (clauses
        without a prefix always count)."""
        if not events:
            raise Machinery('no events for %s' % module)
        esc = [e for e in events if isinstance(e, dict) and e.get('escaped')]
        if esc and module != 'Trace_Escaped':
            events = [e for e in events if not e.get('escaped')]
            self.judge('Trace_Escaped', esc)
            if not events:
                return
        only = None if only is None else {o.rstrip(':') for o in only}
        chunks = max(1, min(chunks, len(events)))
        parts = [events[k::chunks] for k in range(chunks)]

        def one(part):
            tr, ver = self.path('events.json'), self.path('verdict.ndjson')
            json.dump(part, open(tr, 'w'))
            e = {'TRACE': tr, 'VERDICT': ver}
            e.update(env or {})
            rc, out = self.tlc(module, cfg, env=e, workers=1, timeout=timeout)
            done = None
            res = []
            if os.path.exists(ver):
                for ln in open(ver):
                    d = json.loads(ln)
                    if 'done' in d:
                        done = d['done']
                    else:
                        res.append(d)
            if done != len(part):
                raise Machinery('TLC did not finish judging %s:\n%s' % (module, out[-4000:]))
            os.remove(tr)
            return part, res
        with cf.ThreadPoolExecutor(chunks) as ex:
            results = list(ex.map(one, parts))
        self.events += len(events)
        self.traces += len(events) if histories is None else histories
        for part, res in results:
            for d in res:
                ev = part[d['idx'] - 1]
                cl = sorted(c for c in d.get('clauses', ())
                            if only is None or ':' not in c or c.split(':')[0] in only)
                if cl:
                    self.violations.append({'module': module, 'clauses': cl, 'event': ev})
                for t in d.get('tags', ()):
                    self.tags[t] = self.tags.get(t, 0) + 1
        self.samples.append(shorten(events[0]))


def shorten(ev, n=600):
    s = json.dumps(ev)
    return s if len(s) <= n else s[:n] + '...'


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def known_match(prop, v):
    """A violation is a known finding iff the file lists this property, this
    very clause set and this very case key."""
    for k in load_known()['known']:
        if k['property'] != prop:
            continue
        if k['key'] == v['event'].get('key') and set(v['clauses']) <= set(k['clauses']):
            return k
    return None


def finish(ctx, spec):
    fresh, known = [], {}
    for v in ctx.violations:
        k = known_match(ctx.prop, v)
        if k:
            known.setdefault(k['what'], []).append(v)
        else:
            fresh.append(v)
    for what in known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, what))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, ctx.prop + '.replay.json')
    if fresh:
        json.dump([{'module': v['module'], 'clauses': v['clauses'], 'event': v['event']} for v in fresh[:10]],
                  open(replay, 'w'), indent=1)
        for v in fresh[:5]:
            print('  clauses %s on %s' % (','.join(v['clauses']), shorten(v['event'].get('key', v['event']), 200)))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': spec.get('level', 'model_checking'),
        'coverage': {
            'states': ctx.states, 'transitions': ctx.transitions,
            'traces_validated_against_impl': ctx.traces,
            'events_judged': ctx.events,
            'model_runs': ctx.model_runs,
            'cases_by_tag': dict(sorted(ctx.tags.items())),
            'samples': ctx.samples[:4] or ['none'],
            'known_findings_reproduced': sorted(known),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(fresh),
    }
    json.dump(ev, open(os.path.join(EVID, ctx.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d model states, %d events judged, %d violations, %.1f s' % (
        ctx.prop, ctx.tier, ctx.states, ctx.events, len(fresh), ev['wall_s']))
    return 1 if fresh else 0
