# -*- coding: utf-8 -*-
"""Explorer and the closed environment of the code under test (Jython 2.7)."""
import os, sys, re
from java.lang import Runtime, Throwable, Thread, Runnable, System
from java.lang.management import ManagementFactory

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def halt(rc):
    sys.stdout.flush(); sys.stderr.flush()
    Runtime.getRuntime().halt(rc)


def fast_imports():
    """Imports inside functions first look for a relative module, in the file system, on every call.
    Recording that there is none (as CPython does) makes them cheap; it changes nothing else."""
    tops = ('request_parser', 'future', 'io', 'os', 're', 'sys', 'six', 'copy', 'email')
    for p in list(sys.modules):
        if p.split('.')[0] in ('future', 'request_parser'):
            q = p.rsplit('.', 1)[0] if '.' in p else p
            for t in tops:
                sys.modules.setdefault(q + '.' + t, None)


class Stop(BaseException):
    pass


class Overrun(object):
    """Watches the CPU time (not the wall time: the machine may be loaded) of one call."""

    def __init__(self, x, limit):
        self.x, self.limit = x, limit * 1000 * 1000 * 1000
        self.bean = ManagementFactory.getThreadMXBean()
        self.tid = Thread.currentThread().getId()
        self.begin = None
        self.token = 0

        me = self

        class R(Runnable):
            def run(self):
                while True:
                    Thread.sleep(500)
                    b = me.begin
                    if b is None:
                        continue
                    used = me.bean.getThreadCpuTime(me.tid)
                    if b == 0:
                        me.begin = used + 1
                        continue
                    if used - b > me.limit and me.begin == b:
                        me.x.hang()
        t = Thread(R())
        t.setDaemon(True)
        t.start()


class Explorer(object):
    CPU_LIMIT = 25      # seconds of CPU for one unit step (they take milliseconds)
    MAX_FAILS = 3

    def __init__(self, pid, shard, shards, tier, seed, work, out):
        self.pid, self.shard, self.shards, self.tier, self.seed = pid, shard, shards, tier, seed
        self.work, self.out = work, out
        self.thorough = tier == 'thorough'
        self.states = self.transitions = self.traces = self.units = 0
        self.scopes, self.counters, self.outcomes = {}, {}, set()
        self.samples, self.fails = [], []
        self.known_seen = set()
        self.unit = self.args = None
        self.doing = ''
        self.known = self._known()
        self.watch = Overrun(self, self.CPU_LIMIT)
        self._dirs = 0
        self.times = {}
        self.t0 = System.nanoTime()

    def _known(self):
        keys = set()
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'KNOWN_FINDINGS.txt')
        for line in open(path):
            if line.startswith('KNOWN: property=%s ' % self.pid):
                keys.add(line.split(' ', 3)[2][len('key='):])
        return keys

    # -- counting
    def did(self, transitions=1, traces=1, states=1):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hash(repr(o)))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            s = repr(s)
            self.samples.append(s if len(s) < 700 else s[:700] + '...')

    # -- failures
    def _emit(self, what, case, key):
        rec = {'unit': self.unit, 'args': repr(self.args), 'what': ascii(what)[:3000], 'case': ascii(case)[:6000],
               'key': ascii(key)}
        self.fails.append(rec)
        f = open(self.out + '.fail.part', 'ab')
        f.write(repr(rec) + '\n')
        f.close()

    def fail(self, what, case=None, key=None):
        if key is None:
            key = re.sub(r'\s', '_', '%s:%r' % (self.unit, self.args))
        if key in self.known:
            self.known_seen.add(key)
            return
        self._emit(what, repr(case) if case is not None else repr(self.args), key)
        if len(self.fails) >= self.MAX_FAILS:
            raise Stop()

    def eq(self, got, want, what, case=None):
        if got != want or type(got) is not type(want) and not (isinstance(got, basestring) and isinstance(want, basestring)):
            self.fail('%s: got %r, expected %r' % (what, got, want), case)
            return False
        return True

    def publish(self):
        if self.fails and os.path.exists(self.out + '.fail.part'):
            os.rename(self.out + '.fail.part', self.out + '.fail')

    def hang(self):
        self._emit('does not terminate (more than %d s of CPU time): %s' % (self.CPU_LIMIT, self.doing), repr(self.args), 'hang')
        self.publish()
        halt(1)

    def import_failed(self):
        import traceback
        self.unit, self.args = 'import', ()
        tb = traceback.format_exc()
        if 'request_parser' in tb.splitlines()[-1] or REPO in tb:
            self._emit('cannot be imported: %s' % tb[-600:], '', 'import')
            self.publish()
            halt(1)

    # -- running
    def step(self, doing=''):
        """A new step begins: the CPU time limit is for each step."""
        self.doing = doing
        self.watch.begin = 0

    def dir(self):
        """A new empty directory of this worker."""
        self._dirs += 1
        d = os.path.join(self.work, 'd%d' % self._dirs)
        os.mkdir(d)
        return d

    def run_unit(self, mod, name, args):
        self.unit, self.args = name, args
        self.units += 1
        self.scopes[name] = self.scopes.get(name, 0) + 1
        self.step('%s%r' % (name, args))
        t0 = System.nanoTime()
        try:
            getattr(mod, 'u_' + name)(self, *args)
        except Stop:
            raise
        except:
            e = sys.exc_info()
            import traceback
            tb = traceback.format_exc()
            if os.environ.get('VERIF_DEBUG'):
                sys.stderr.write(tb)
            self.fail('unexpected %s: %s\n%s' % (getattr(e[0], '__name__', e[0]), saferepr(e[1]), tb[-1200:]))
        finally:
            self.times[name] = self.times.get(name, 0) + (System.nanoTime() - t0) / 1e9

    def run(self, mod):
        fast_imports()
        i = 0
        try:
            for u in mod.units(self):
                # spread neighbours, which cost about the same, over the shards
                if (((i * 2654435761) & 0xffffffff) >> 12 & 0xfff) % self.shards == self.shard:
                    self.run_unit(mod, u[0], u[1:])
                i += 1
        except Stop:
            pass
        self.watch.begin = None

    def replay(self, mod, path):
        import json
        fast_imports()
        rec = json.load(open(path))
        args = eval(rec['args'].encode('ascii'), {}) if rec['args'] != 'None' else ()
        try:
            self.run_unit(mod, rec['unit'].encode('ascii'), args)
        except Stop:
            pass

    def finish(self, mod):
        self.watch.begin = None
        self.publish()
        if os.environ.get('VERIF_DEBUG'):
            System.err.println('TIMES %s total %.1f' % (sorted((round(v, 1), k) for k, v in self.times.items()), (System.nanoTime() - self.t0) / 1e9))
        r = {'states': int(self.states), 'transitions': int(self.transitions),
             'traces_validated_against_impl': int(self.traces), 'units': int(self.units),
             'scopes': self.scopes, 'counters': self.counters, 'outcomes': list(self.outcomes),
             'samples': [ascii(s) for s in self.samples], 'known_seen': [ascii(k) for k in self.known_seen],
             'bounds': mod.BOUNDS[self.tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
             'oracle': mod.ORACLE, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', ()))}
        f = open(self.out + '.part', 'wb')
        f.write(re.sub(r'(?<=[0-9])L\b', '', repr(r)) if 'L' in repr(r['outcomes'][:1]) else repr(r))
        f.close()
        os.rename(self.out + '.part', self.out)


def ascii(s):
    if isinstance(s, unicode):
        s = s.encode('ascii', 'backslashreplace')
    return ''.join(c if 32 <= ord(c) < 127 or c == '\n' else '\\x%02x' % ord(c) for c in s)


def saferepr(o):
    try:
        return ascii(repr(o))[:600]
    except:
        return '<unrepresentable>'
