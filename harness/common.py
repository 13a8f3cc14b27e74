"""Machinery shared by all checks: running TLC, recording traces of the real code, verdicts and evidence."""
import atexit
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
REPO = Path('/repo')
EVID = VERIF / 'evidence'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'

sys.path.insert(0, str(REPO))
warnings.filterwarnings('ignore')

SCRATCH = Path(tempfile.mkdtemp(prefix='verif-'))
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
_classes = None


class Broken(Exception):
    """The machinery (not the code being checked) failed"""


def classes() -> Path:
    """Compile the Java definition of real arithmetic"""
    global _classes
    if _classes is None:
        out = SCRATCH / 'classes'
        out.mkdir()
        r = subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', str(out)] + [str(p) for p in (VERIF / 'java').glob('*.java')],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('javac: ' + r.stderr)
        _classes = out
    return _classes


def tlc(module, cfg=None, env=None, args=(), workers=1, timeout=800, heap='2g'):
    """Run TLC on a module of /verif/spec. Returns its output and statistics"""
    meta = tempfile.mkdtemp(dir=SCRATCH)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', f'-Xmx{heap}', '-Xss64m',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides',
           '-cp', f'{classes()}:{JAR}', 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE', '-metadir', meta,
           '-workers', str(workers), '-config', cfg or f'{module}.cfg', *args, f'{module}.tla']
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})})
    except subprocess.TimeoutExpired:
        raise Broken(f'TLC timed out on {module} ({cfg})')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout + r.stderr
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    gen, distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    return dict(rc=r.returncode, out=out, generated=gen, distinct=distinct, wall=time.time() - t0)


def brief(out):
    """The part of an output of TLC that tells what went wrong"""
    i = max(out.find('Error:'), 0)
    return out[i:i + 1800] + '\n'


def tlc_strings(out, tag):
    """Strings printed by the specification with PrintT(tag \\o ...)"""
    res = []
    for line in out.splitlines():
        if line.startswith(f'"{tag} ') and line.endswith('"'):
            res.append(json.loads(line)[len(tag) + 1:])  # TLA+ strings are quoted like JSON strings
    return res


# ---------------------------------------------------------------- numbers
def num(x) -> str:
    """Exact numeral of a float"""
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return repr(x)


def enc(x):
    """Encode arrays and nested lists as nested lists of numerals"""
    import numpy as np
    if x is None:
        return []
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return num(x)
        return [enc(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return num(x)


# ---------------------------------------------------------------- scenarios
class Scenario:
    """A history of the real code: one line per action"""

    def __init__(self, name, recipe=None):
        self.name = name
        self.recipe = recipe  # enough to run it again
        self.lines = []

    def add(self, ev, **fields):
        self.lines.append({'scn': self.name, 'ev': ev, **fields})

    def call(self, fun, *a, **k):
        """Call the real code. Returns (result, '') or (None, name of the exception)"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return fun(*a, **k), ''
        except (TimeoutScn, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            return None, type(e).__name__


class TimeoutScn(BaseException):
    pass


def _alarm(*_):
    raise TimeoutScn()


def record(name, fun, *args, limit=120, **kwargs) -> Scenario:
    """Run one scenario; an exception which the scenario did not expect becomes a line of the trace"""
    s = Scenario(name, recipe=dict(args=args, kwargs=kwargs))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fun(s, *args, **kwargs)
    except TimeoutScn:
        s.add('crash', what='no answer within %d s' % limit, where='')
    except Broken:
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        if not any(str(REPO) in f.filename for f in tb) and os.environ.get('VERIF_DEBUG'):
            raise
        s.add('crash', what=f'{type(e).__name__}: {e}'[:300].replace('\\', '/'), where=' < '.join(f'{Path(f.filename).name}:{f.name}:{f.lineno}' for f in reversed(tb[-4:])))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    return s


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.lines = 0
        self.samples = []
        self.violations = []
        self.models = []
        self.events = {}

    # -------------------------------------------------- model checking
    def model_check(self, module, cfg=None, workers=4, timeout=700, args=(), env=None, expect=None):
        """Check the invariants of a configuration of the specification itself"""
        r = tlc(module, cfg, workers=workers, timeout=timeout, args=args, env=env)
        if expect is not None:  # a variant of the model with a defect, which the property must find out
            if f'{expect} is violated' not in r['out']:
                raise Broken(f'{module} {cfg}: {expect} holds where it should not')
        elif 'Error:' in r['out'] or 'Exception' in r['out']:
            sys.stderr.write(brief(r['out']))
            raise Broken(f'{module}: the specification does not satisfy its own properties')
        self.states += r['distinct']
        self.transitions += r['generated']
        self.models.append(dict(model=cfg or module, distinct=r['distinct'], generated=r['generated'], wall_s=round(r['wall'], 1)))
        return r

    # -------------------------------------------------- conformance
    def validate(self, module, scenarios, shards=6, timeout=800, cfg=None):
        """Replay recorded scenarios through the trace specification"""
        scenarios = [s for s in scenarios if s.lines]
        if not scenarios:
            raise Broken('no scenario')
        shards = max(1, min(shards, len(scenarios)))
        parts = [[] for _ in range(shards)]
        sizes = [0] * shards
        for s in sorted(scenarios, key=lambda s: -sum(ln.get('_w', 1) for ln in s.lines)):
            i = sizes.index(min(sizes))
            parts[i].append(s)
            sizes[i] += sum(ln.get('_w', 1) for ln in s.lines)
        by_name = {s.name: s for s in scenarios}
        if len(by_name) != len(scenarios):
            raise Broken('scenario names are not unique')
        classes()

        def run(part):
            fd, path = tempfile.mkstemp(suffix='.ndjson', dir=SCRATCH)
            n = 0
            with os.fdopen(fd, 'w') as fp:
                for s in part:
                    fp.write(json.dumps({'scn': s.name, 'ev': 'reset'}) + '\n')
                    n += 1
                    for line in s.lines:
                        fp.write(json.dumps({k: v for k, v in line.items() if k != '_w'}) + '\n')
                        n += 1
            r = tlc(module, cfg, env={'TRACE': path}, timeout=timeout)
            bads = [json.loads(b) for b in tlc_strings(r['out'], 'BAD')]
            done = tlc_strings(r['out'], 'DONE')
            if done != [str(n)]:
                if os.environ.get('VERIF_KEEP'):
                    shutil.copy(path, os.environ['VERIF_KEEP'])
                at = max([int(x) for x in re.findall(r'^/\\ l = (\d+)', r['out'], re.M)] or [0])
                if os.environ.get('VERIF_DEBUG') or not at or not re.search('evaluating|Attempted', r['out']):
                    sys.stderr.write(f'line {at}: ' + brief(r['out']))
                    raise Broken(f'{module}: the trace was not consumed')
                # what was observed has no meaning in the specification
                line = json.loads(Path(path).read_text().splitlines()[at - 1])
                bads.append(dict(scn=line['scn'], ev=line['ev'], line=at, mis=[dict(clause='meaningless observation', expected='', observed=brief(r['out'])[:300])]))
            os.unlink(path)
            return r, bads, n

        with ThreadPoolExecutor(shards) as ex:
            for r, bads, n in ex.map(run, parts):
                self.states += r['distinct']
                self.transitions += r['generated']
                self.lines += n
                for b in bads:
                    self.violations.append((by_name[b['scn']], b))
        self.traces += len(scenarios)
        for s in scenarios:
            for ln in s.lines:
                self.events[ln['ev']] = self.events.get(ln['ev'], 0) + 1
        for s in scenarios[:1] + scenarios[-1:]:
            txt = json.dumps({k: v for k, v in s.lines[min(1, len(s.lines) - 1)].items() if k != '_w'})
            self.samples.append(dict(scenario=s.name, lines=len(s.lines), line=txt[:1500]))

    # -------------------------------------------------- verdict
    def finish(self):
        EVID.mkdir(exist_ok=True)
        known = known_findings(self.prop)
        seen_known = set()
        new = []
        for s, b in self.violations:
            k = next((k for k in known if k['pattern'] in f'{s.name} {b["ev"]} {b["mis"][0]["clause"]} {b["mis"][0]["observed"]}'.replace('"', '')), None)
            if k:
                seen_known.add(k['text'])
            else:
                new.append((s, b))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                trace_lines=self.lines, events=self.events, models=self.models, samples=self.samples[:6]),
                  wall_s=round(time.time() - self.t0, 1), violations=len(new))
        (EVID / f'{self.prop}.json').write_text(json.dumps(ev, indent=1))
        for k in known:
            print(f'KNOWN-FINDING: property={self.prop} {k["text"]}')
        if new:
            s, b = new[0]
            path = EVID / f'replay-{self.prop}.json'
            path.write_text(json.dumps(dict(property=self.prop, scenario=s.name, tier=TIER, seed=SEED, mismatches=b['mis'], event=b['ev'],
                                            rerun=f'VERIF_SEED={SEED} VERIF_TIER={TIER} /verif/check {self.prop} --only {s.name}',
                                            trace=s.lines), indent=1, default=str))
            for s, b in new[:8]:
                m = b['mis'][0]
                print(f'  {s.name}: {b["ev"]}: {m["clause"]}: expected {m["expected"][:300]} observed {m["observed"][:300]}')
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        print(f'{self.prop}: held on {self.traces} histories of the real code ({self.lines} actions), '
              f'{self.states} states, {ev["wall_s"]} s')
        return 0


def known_findings(prop):
    out = []
    f = VERIF / 'known_findings.txt'
    for line in f.read_text().splitlines() if f.exists() else []:
        m = re.match(r'KNOWN-FINDING: property=(\S+) match="([^"]+)" (.*)', line)
        if m and m.group(1) == prop:
            out.append(dict(pattern=m.group(2), text=m.group(3)))
    return out


def rng(*key):
    return random.Random(json.dumps([SEED, *key]))


def some(r, v, digits):
    """Numbers as people write them, or with all their digits"""
    import numpy as np
    return np.round(v, digits) if r.random() < 0.6 else v


def nrng(*key):
    import numpy as np
    return np.random.default_rng(rng(*key).getrandbits(60))


def main(prop, run):
    """Entry point of a check"""
    try:
        import moirae
        if not str(Path(moirae.__file__).resolve()).startswith(str(REPO)):
            raise Broken(f'moirae is imported from {moirae.__file__}')
        res = Result(prop)
        run(res)
        return res.finish()
    except Broken as e:
        print(f'ERROR: {e}', file=sys.stderr)
        return 2
