"""The simulator: nodes (simulated processes), a seeded cooperative scheduler, the simulated clock, the simulated disk
and the fault injector.

Every simulated process ('node') is a greenlet that runs the real, unmodified code of the repository, in module
instances of its own. The operations by which that code meets the outside world (files, directories, the clock, printing,
a progress tick of a long loop, an external program) are seams: each is a 'point' at which the scheduler may switch to
another node, the simulated time passes and a planned fault may strike. Nothing else decides who runs."""

import builtins
import datetime as _datetime_mod
import errno
import hashlib
import importlib
import importlib.abc
import importlib.util
import io
import os
import shutil
import stat as _stat_mod
import subprocess
import sys
import tempfile
import time

import greenlet

from .rng import Rng, mix

REPO = os.environ.get('VERIF_REPO', '/repo')


class SimCrash(BaseException):
    """Unwinds the stack of a node which was killed. The node can't do anything anymore."""


class HarnessError(Exception):
    """The simulator (and not the simulated code) is wrong."""


class StepLimit(BaseException):
    """A node made more simulated steps than any run should."""


# ---------------------------------------------------------------------------------------------------------------------
# originals of everything that's patched
# ---------------------------------------------------------------------------------------------------------------------

real_open = io.open
real = {n: getattr(os, n) for n in ('open', 'close', 'write', 'read', 'listdir', 'scandir', 'mkdir', 'rmdir', 'rename',
                                    'replace', 'remove', 'unlink', 'fsync', 'stat', 'lstat', 'getpid', 'chdir', 'link',
                                    'symlink', 'urandom', 'system')}
real['fdatasync'] = getattr(os, 'fdatasync', os.fsync)
real_time = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'strftime', 'localtime', 'gmtime',
                                           'ctime', 'asctime', 'sleep')}
real_datetime = _datetime_mod.datetime
real_check_output, real_popen, real_run = subprocess.check_output, subprocess.Popen, subprocess.run
real_stdout, real_stderr = sys.stdout, sys.stderr

WORLD = None


def _mode(path):
    try:
        return real['stat'](path).st_mode
    except OSError:
        return 0


def _isfile(path):
    return _stat_mod.S_ISREG(_mode(path))


def _isdir(path):
    return _stat_mod.S_ISDIR(_mode(path))


def _lexists(path):
    try:
        real['lstat'](path)
        return True
    except OSError:
        return False


def _node():
    w = WORLD
    return w.current if w is not None else None


# ---------------------------------------------------------------------------------------------------------------------
# the repository's modules: one set of instances per node
# ---------------------------------------------------------------------------------------------------------------------

class _RepoLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _CODE.get(self.path)
        if code is None:
            with real_open(self.path, 'rb') as f:
                code = compile(f.read(), self.path, 'exec')
            _CODE[self.path] = code
        module.__file__ = self.path
        exec(code, module.__dict__)
        # (patching the datetime module itself would break it, as it's implemented in Python in PyPy)
        for k, v in list(module.__dict__.items()):
            if v is _datetime_mod:
                module.__dict__[k] = DATETIME_SHIM
            elif v is real_datetime:
                module.__dict__[k] = SimDatetime


_CODE = {}
REPO_NAMES = {}


class _RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        p = REPO_NAMES.get(name)
        if p is None:
            return None
        return importlib.util.spec_from_loader(name, _RepoLoader(p))


def setup_repo():
    """Finds the repository's modules and makes them importable."""
    if REPO_NAMES:
        return
    for fn in sorted(real['listdir'](REPO)):
        if fn.endswith('.py'):
            REPO_NAMES[fn[:-3]] = os.path.join(REPO, fn)
    sys.meta_path.insert(0, _RepoFinder())


# ---------------------------------------------------------------------------------------------------------------------
# nodes
# ---------------------------------------------------------------------------------------------------------------------

class Node:
    def __init__(self, world, idx, name, fn, cwd, faults):
        self.world, self.idx, self.name, self.fn, self.cwd = world, idx, name, fn, cwd
        # (in a container, or after a reboot, a process may have the number of one that ended)
        used = {x.pid for x in world.nodes if not x.done}
        self.pid = next(p for p in (1000 + 7 * k for k in range(idx + 1)) if p not in used) if world.reuse_pids \
            else 1000 + idx * 7
        self.faults = {}
        for f in faults or []:
            self.faults.setdefault(f['at'], []).append(f)
        self.npoints = 0
        self.points = [] if world.record_points else None
        self.modules = {}
        self.mp = None
        self.out = []
        self.outbuf = ''
        self.printed = []           # (line, wall and monotonic clocks at its beginning)
        self.line_at = None
        self.dead = False
        self.done = False
        self.booting = True
        self.result = None
        self.files = []
        self.fds = {}
        self.arm = None
        self.lines_left = None      # of an interrupt that didn't fire
        self.arm_guard = None
        self.sites = None           # {(file, line number): how many lines from the arming were left at each visit}
        self.sticky = None
        self.in_seam = False
        self.started_at = None
        self.ended_at = None
        self.gl = None              # (created by the hub, so that the hub is its parent)

    # -- the greenlet's body
    def _main(self):
        w = self.world
        self.started_at = w.wall
        try:
            try:
                import mpmath
                mpmath.mp.dps = 15
                for n in REPO_NAMES:
                    sys.modules.pop(n, None)
                try:
                    self.mod('main')
                except SimCrash:
                    raise
                except BaseException as e:
                    raise HarnessError('the repository cannot be imported: %s: %s' % (type(e).__name__, str(e)[:300]))
                self.booting = False
                val = self.fn(self)
                self._exit_files()
                self.result = ('ok', val)
            except SimCrash:
                self.result = ('crash', None)
            except (HarnessError, StepLimit):
                raise
            except SystemExit as e:
                self._exit_files()
                self.result = ('ok', None) if not e.code else ('exc', 'SystemExit', str(e.code), e)
            except BaseException as e:
                self.disarm()
                self._exit_files()
                self.result = ('exc', type(e).__name__, str(e)[:500], e)
        except SimCrash:
            self.result = ('crash', None)
        except BaseException as e:
            self.result = ('harness', e)
        finally:
            self.disarm()
            self.done = True
            self.ended_at = w.wall
            w.reap(self)

    def _exit_files(self):
        """What an interpreter does at its exit: flushes the files which were left open."""
        for f in self.files:
            if not f.closed:
                try:
                    f.close()
                except (OSError, ValueError):
                    pass
        self.files = []

    def mod(self, name):
        return importlib.import_module(name)

    def disarm(self):
        if self.arm:
            self.lines_left = self.arm[0]
        self.arm = None
        sys.settrace(None)

    def attempt(self, fn, fault=None):
        """Runs fn, with an interrupt ({'type': 'ki' or 'mem', 'lines': after so many lines of the repository's code}).
        -> ('ok', value), ('exc', exception) or ('interrupted', exception)"""
        w = self.world
        w.point('call', '')
        fired = sum(w.fired.values())
        if fault is not None:
            w._apply_fault(self, fault, 'call', '')
        try:
            val = ('ok', fn())
        except (SimCrash, HarnessError, StepLimit):
            raise
        except BaseException as e:
            if type(e).__name__ == 'WallLimit':
                raise
            val = ('interrupted' if fault is not None and sum(w.fired.values()) != fired else 'exc', e)
        finally:
            self.disarm()
        w.note('%s %s\n' % (val[0], type(val[1]).__name__))
        return val

    def finished_ok(self):
        return self.result is not None and self.result[0] == 'ok'

    def text(self):
        return ''.join(self.out)


class _SimOut(io.TextIOBase):
    """stdout of the nodes."""
    encoding = 'utf-8'
    errors = 'strict'

    def write(self, s):
        n = _node()
        if n is None:
            return real_stdout.write(s)
        if n.dead:
            if greenlet.getcurrent() is n.gl:
                raise SimCrash()
            return len(s)
        n.out.append(s)
        if '\n' not in s and not n.outbuf or '\n' in s and s.count('\n') > 1:
            n.line_at = None
        if n.line_at is None:
            n.line_at = (n.world.wall, n.world.mono)        # when the line was begun
        if '\n' in s:
            line = (n.outbuf + s).split('\n')[-2]
            n.outbuf = s[s.rindex('\n') + 1:]
            n.printed.append((line, n.line_at[0], n.line_at[1]))
            n.line_at = None
            if not n.booting:
                n.world.point('print', line[:60])
        else:
            n.outbuf = (n.outbuf + s)[-200:]
        return len(s)

    def flush(self):
        pass

    def writable(self):
        return True

    def isatty(self):
        return False


class _NullErr(io.TextIOBase):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


SIM_OUT, SIM_ERR = _SimOut(), _NullErr()


# ---------------------------------------------------------------------------------------------------------------------
# the world
# ---------------------------------------------------------------------------------------------------------------------

class FileState:
    """durable - the content that survives a power loss for sure (bytes), dirty - whether something else was written."""
    __slots__ = ('durable', 'dirty')

    def __init__(self, durable):
        self.durable, self.dirty = durable, False


IO_FAULTS = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES, 'emfile': errno.EMFILE,
             'erofs': errno.EROFS}
FS_KINDS = ('open', 'read', 'write', 'fsync', 'replace', 'remove', 'mkdir', 'listdir', 'close', 'link')


class World:
    def __init__(self, root, seed, schedule=None, preempt=0.0, record_points=False, max_steps=400000, keep_trace=False):
        self.root = os.path.realpath(root)
        self.seed = seed
        self.nodes = []
        self.current = None
        self.hub = None
        self.steps = 0
        self.max_steps = max_steps
        self.rng = Rng(seed, 'world')
        self.sched_rng = Rng(seed, 'sched')
        self.list_rng = Rng(seed, 'list')
        self.time_rng = Rng(seed, 'time')
        self.replay_schedule = schedule       # {str(step): node index}, or None when the schedule is to be drawn
        self.schedule = {}
        self.preempt = preempt
        self.record_points = record_points
        self.keep_trace = keep_trace
        self.trace = []
        self.hash = hashlib.sha256()
        self.fired = {}
        self.probes = {}
        self.switches = 0
        # clock
        self.t0 = 1700000000.0 + Rng(seed, 't0').below(86400 * 365) + Rng(seed, 't0f').random()
        self.wall = self.t0
        self.mono = 1000.0
        self.dt_scale = [0.0005, 0.02, 0.5][Rng(seed, 'dt').below(3)]
        self.reuse_pids = Rng(seed, 'pids').chance(0.5)
        # disk
        self.bufsize = [64, 512, 4096, 8192][Rng(seed, 'buf').below(4)]
        self.fstate = {}
        self.fslog = []
        self.power_seed = None
        self.launched = []
        self.on_launch = None
        self.tex_mode = 'ok'

    # -- scheduling
    def spawn(self, name, fn, cwd=None, faults=None):
        n = Node(self, len(self.nodes), name, fn, cwd or self.root, faults)
        self.nodes.append(n)
        return n

    def _activate(self, n):
        os_chdir(n.cwd)
        for name in REPO_NAMES:
            sys.modules.pop(name, None)
        sys.modules.update(n.modules)
        import mpmath
        if n.mp is not None:
            mpmath.mp.prec = n.mp[0]
            mpmath.mp._dps = n.mp[1]
        sys.stdout, sys.stderr = SIM_OUT, SIM_ERR
        self.current = n
        if n.arm:
            sys.settrace(n.world._tracer)

    def _deactivate(self, n):
        sys.settrace(None)
        self.current = None
        import mpmath
        n.mp = (mpmath.mp.prec, mpmath.mp._dps)
        n.modules = {name: sys.modules[name] for name in REPO_NAMES if name in sys.modules}
        for name in REPO_NAMES:
            sys.modules.pop(name, None)
        n.cwd = os.getcwd()
        sys.stdout, sys.stderr = real_stdout, real_stderr

    def run(self):
        """Runs all the nodes that aren't done, until they are."""
        global WORLD
        prev, WORLD = WORLD, self
        cwd = os.getcwd()
        self.hub = greenlet.getcurrent()
        try:
            cur = None
            while True:
                alive = [n for n in self.nodes if not n.done]
                if not alive:
                    break
                if cur is None or cur.done:
                    cur = self._choose_next(alive)
                elif self.next_node is not None and not self.next_node.done:
                    cur = self.next_node
                self.next_node = None
                if cur.gl is None:
                    cur.gl = greenlet.greenlet(cur._main)
                self._activate(cur)
                try:
                    if cur.dead and not cur.gl:
                        cur.done = True
                        cur.result = ('crash', None)
                    elif cur.dead:
                        cur.gl.throw(SimCrash)
                    else:
                        cur.gl.switch()
                finally:
                    self._deactivate(cur)
                if cur.result is not None and cur.result[0] == 'harness':
                    raise cur.result[1]
        finally:
            WORLD = prev
            os_chdir(cwd)
        if self.power_seed is not None:
            self._power_loss(self.power_seed)
            self.power_seed = None

    next_node = None

    def _choose_next(self, alive):
        key = '%de' % self.steps
        if self.replay_schedule is not None:
            i = self.replay_schedule.get(key)
            for n in alive:
                if n.idx == i:
                    return n
            return alive[0]
        n = alive[0]
        if len(alive) > 1 and self.preempt:
            n = self.sched_rng.choice(alive)
            if n is not alive[0]:
                self.schedule[key] = n.idx
        return n

    def reap(self, n):
        for fd in list(n.fds):
            try:
                real['close'](fd)
            except OSError:
                pass
        n.fds = {}

    def kill(self, n):
        n.dead = True
        n.arm = None

    # -- the seam
    def note(self, what):
        self.hash.update(what.encode('utf-8', 'replace'))
        if self.keep_trace and len(self.trace) < 200000:
            self.trace.append(what)

    def pass_time(self, kind):
        r = self.time_rng.random()
        dt = self.dt_scale * r * (40 if kind in ('print', 'exec') else 1)
        self.wall += dt
        self.mono += dt

    def point(self, kind, detail=''):
        """An operation of the current node on the outside world. May switch nodes, raise a fault's exception, or return
        a fault that the seam itself has to apply."""
        n = self.current
        if n is None:
            return None
        if n.dead:
            raise SimCrash()
        if n.booting:
            return None
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit('more than %d simulated steps' % self.max_steps)
        at = n.npoints
        n.npoints += 1
        if n.points is not None:
            n.points.append((kind, detail))
        self.pass_time(kind)
        self.note('%d %d %s %s\n' % (self.steps, n.idx, kind, detail))
        # preemption
        to = None
        if self.replay_schedule is not None:
            i = self.replay_schedule.get(str(self.steps))
            if i is not None and i < len(self.nodes) and not self.nodes[i].done and i != n.idx:
                to = self.nodes[i]
        elif self.preempt and self.sched_rng.chance(self.preempt):
            alive = [x for x in self.nodes if not x.done and x is not n]
            if alive:
                to = self.sched_rng.choice(alive)
                self.schedule[str(self.steps)] = to.idx
        if to is not None:
            self.switches += 1
            self.next_node = to
            self.hub.switch()
            if n.dead:
                raise SimCrash()
        ret = None
        if n.sticky and kind in n.sticky[1]:
            self.fire('sticky-' + n.sticky[0])
            raise OSError(IO_FAULTS[n.sticky[0]], os.strerror(IO_FAULTS[n.sticky[0]]), detail)
        if n.arm_stop_kinds and kind in n.arm_stop_kinds and n.arm:
            n.disarm()
        for f in n.faults.get(at, ()):
            r = self._apply_fault(n, f, kind, detail)
            ret = ret or r
        return ret

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1
        self.note('fault %s\n' % what)

    def probe(self, what, k=1):
        self.probes[what] = self.probes.get(what, 0) + k

    def _apply_fault(self, n, f, kind, detail):
        t = f['type']
        if t == 'crash':
            self.fire('crash@' + kind)
            if f.get('partial') and kind == 'write':
                return f
            self.kill(n)
            raise SimCrash()
        if t == 'powerloss':
            self.fire('powerloss@' + kind)
            self.power_seed = f.get('seed', 0)
            for x in self.nodes:
                if not x.done:
                    self.kill(x)
            raise SimCrash()
        if t in IO_FAULTS:
            if kind not in FS_KINDS:
                return None
            if f.get('partial') and kind == 'write':
                return f
            if f.get('sticky'):
                n.sticky = (t, ('write', 'mkdir', 'fsync') if t == 'enospc' else FS_KINDS)
            self.fire(t + '@' + kind)
            raise OSError(IO_FAULTS[t], os.strerror(IO_FAULTS[t]), detail)
        if t == 'shortwrite':
            return f if kind == 'write' else None
        if t in ('ki', 'mem'):
            n.arm = [f.get('lines', 1), KeyboardInterrupt if t == 'ki' else MemoryError, t, kind, f.get('by', 0)]
            n.arm_stop_kinds = tuple(f.get('stop_kinds', ()))
            self.arm(n)
            return None
        if t == 'jump':
            self.fire('clockjump' + ('+' if f['by'] > 0 else '-'))
            self.wall += f['by']
            return None
        if t == 'stall' and 'lines' in f:
            n.arm = [f['lines'], None, f['by'], kind]
            n.arm_stop_kinds = tuple(f.get('stop_kinds', ()))
            self.arm(n)
            return None
        if t == 'stall':
            self.fire('stall')
            self.wall += f['by']
            self.mono += f['by']
            return None
        if t in ('texfail', 'notex'):
            return f if kind == 'exec' else None
        raise HarnessError('unknown fault %r' % (t,))

    # -- interrupts between two lines of the repository's code
    def arm(self, n):
        fr = sys._getframe(1)
        while fr is not None:
            if fr.f_code.co_filename.startswith(REPO):
                fr.f_trace = self._tracer
            fr = fr.f_back
        sys.settrace(self._tracer)

    def _tracer(self, frame, event, arg):
        n = self.current
        if n is None or n.arm is None or not frame.f_code.co_filename.startswith(REPO):
            return None
        if event == 'line':
            n.arm[0] -= 1
            if n.sites is not None:
                n.sites.setdefault((os.path.basename(frame.f_code.co_filename), frame.f_lineno), []).append(n.arm[0])
            if n.arm[0] <= 0 and (n.arm_guard is None or n.arm_guard(frame)):
                exc, t, kind = n.arm[1], n.arm[2], n.arm[3]
                if exc is not None and len(n.arm) > 4:
                    # (after a while)
                    self.wall += n.arm[4]
                    self.mono += n.arm[4]
                n.arm = None
                sys.settrace(None)
                if exc is None:
                    # the computation takes long
                    self.wall += t
                    self.mono += t
                    self.fire('stall@' + os.path.basename(frame.f_code.co_filename)[:-3])
                    return None
                self.fire(t + '@' + os.path.basename(frame.f_code.co_filename)[:-3])
                self.note('%s:%d\n' % (frame.f_code.co_name, frame.f_lineno))
                raise exc()
        return self._tracer

    # -- disk
    def rel(self, path):
        return os.path.relpath(path, self.root)

    def under(self, path):
        """The absolute path, if it's inside the simulated disk."""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if p == self.root or p.startswith(self.root + '/'):
            return p
        return None

    def state(self, path):
        st = self.fstate.get(path)
        if st is None:
            try:
                with real_open(path, 'rb') as f:
                    st = FileState(f.read())
            except OSError:
                st = FileState(b'')
            self.fstate[path] = st
        return st

    def sync_state(self, path, st):
        try:
            with real_open(path, 'rb') as f:
                st.durable = f.read()
        except OSError:
            pass
        st.dirty = False

    def commit(self):
        del self.fslog[:]

    def settle(self):
        """Some quiet minutes pass: everything that was written is on the disk."""
        self.commit()
        self.fstate.clear()
        self.wall += 90 + self.time_rng.random() * 200
        self.mono += 90

    def power_off(self, seed):
        """The power goes off while no program runs."""
        self.fire('powerloss@idle')
        self._power_loss(seed)

    def _power_loss(self, seed):
        r = Rng(seed, 'power')
        # a prefix of the directory operations survives
        cut = len(self.fslog) if r.chance(0.4) else r.below(len(self.fslog) + 1)
        for op in reversed(self.fslog[cut:]):
            self.note('undo %s\n' % (op[0],))
            self.probe('powerloss-undone-' + op[0])
            if op[0] == 'create':
                if _isfile(op[1]):
                    real['remove'](op[1])
                self.fstate.pop(op[1], None)
            elif op[0] == 'mkdir':
                if _isdir(op[1]):
                    shutil.rmtree(op[1])
            elif op[0] == 'replace':
                _, src, dst, old, old_st = op
                if _lexists(dst):
                    real['rename'](dst, src)
                    st = self.fstate.pop(dst, None)
                    if st is not None:
                        self.fstate[src] = st
                if old is not None:
                    with real_open(dst, 'wb') as f:
                        f.write(old)
                    if old_st is not None:
                        self.fstate[dst] = old_st
            elif op[0] == 'remove':
                _, path, old, old_st = op
                if _isdir(os.path.dirname(path)):
                    with real_open(path, 'wb') as f:
                        f.write(old)
                    if old_st is not None:
                        self.fstate[path] = old_st
        for path in sorted(self.fstate):
            st = self.fstate[path]
            if not st.dirty or not _isfile(path):
                continue
            with real_open(path, 'rb') as f:
                cur = f.read()
            how = r.weighted([(3, 'keep'), (3, 'old'), (3, 'torn'), (2, 'zeros')])
            if how == 'keep':
                continue
            if how == 'old':
                new = st.durable
            elif how == 'torn':
                new = cur[:r.below(len(cur) + 1)]
            else:
                k = r.below(len(cur) + 1)
                new = cur[:k] + b'\0' * (len(cur) - k)
            self.probe('powerloss-data-' + how)
            self.note('lost %s %s\n' % (self.rel(path), how))
            with real_open(path, 'wb') as f:
                f.write(new)
        del self.fslog[:]
        self.fstate.clear()
        self.wall += 60 + r.below(600)

    def snapshot(self, sub=''):
        """{relative path: bytes} of the simulated disk (no faults, no steps)."""
        res = {}
        base = os.path.join(self.root, sub)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                with real_open(p, 'rb') as fh:
                    res[os.path.relpath(p, base)] = fh.read()
        return res

    def write_file(self, rel, text):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with real_open(p, 'w' if isinstance(text, str) else 'wb') as f:
            f.write(text)

    def hexdigest(self):
        return self.hash.hexdigest()[:16]


Node.arm_stop_kinds = ()


def os_chdir(p):
    real['chdir'](p)


# ---------------------------------------------------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------------------------------------------------

class SimRaw(io.RawIOBase):
    def __init__(self, world, node, fd, path, readable, writable, appending, name, closefd=True):
        self._w, self._n, self._fd, self._path = world, node, fd, path
        self._r, self._wr, self._closefd = readable, writable, closefd
        self._st = world.state(path)
        self._written = False
        self.name = name
        self.mode = ('ab' if appending else 'rb+' if readable and writable else 'wb' if writable else 'rb')
        node.fds[fd] = (path, self._st)

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def _alive(self):
        return not self._n.dead and not self._n.done and self._w.current is self._n

    def readinto(self, b):
        if self._alive():
            self._w.point('read', self._w.rel(self._path))
        elif self._n.dead:
            raise SimCrash()
        data = os.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        data = bytes(b)
        if self._n.dead or self._fd not in self._n.fds:
            # whatever is flushed by a process that isn't there anymore is lost
            return len(data)
        f = None
        if self._alive():
            f = self._w.point('write', '%s %d' % (self._w.rel(self._path), len(data)))
        self._st.dirty = True
        return _write_with_fault(self._w, self._n, self._fd, data, f)

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if self._n.dead:
            return 0
        size = self.tell() if size is None else size
        if self._alive():
            self._w.point('write', '%s truncate' % self._w.rel(self._path))
        self._st.dirty = True
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        if self._fd in self._n.fds:
            del self._n.fds[self._fd]
            if self._closefd:
                real['close'](self._fd)


def _write_with_fault(w, n, fd, data, f):
    if f is not None:
        k = min(len(data), int(len(data) * f.get('frac', 0.5)))
        if f['type'] == 'shortwrite':
            k = max(1, k)
            w.fire('shortwrite')
            return real['write'](fd, data[:k])
        real['write'](fd, data[:k])
        if f['type'] == 'crash':
            w.kill(n)
            raise SimCrash()
        if f.get('sticky'):
            n.sticky = (f['type'], ('write', 'mkdir', 'fsync'))
        w.fire(f['type'] + '@torn-write')
        raise OSError(IO_FAULTS[f['type']], os.strerror(IO_FAULTS[f['type']]))
    done = 0
    while done < len(data):
        done += real['write'](fd, data[done:])
    return len(data)


def _keep_inside(path):
    """The simulated code may alter nothing but its disk (and temporary files)."""
    try:
        p = os.path.realpath(os.fsdecode(os.fspath(path)))
    except TypeError:
        return
    if p == '/dev/null' or p.startswith(os.path.realpath(tempfile.gettempdir()) + '/'):
        return
    raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(path))


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    n = _node()
    if n is None or n.booting:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = n.world
    from_fd = isinstance(file, int)
    if from_fd:
        if file not in n.fds:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = n.fds[file][0]
    else:
        path = w.under(file)
        if path is None:
            if set(mode) & set('wax+'):
                _keep_inside(file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    if len(m & set('rwax')) != 1 or m - set('rwaxbt+') or ('b' in m and 't' in m):
        raise ValueError('invalid mode: %r' % mode)
    text, updating = 'b' not in m, '+' in m
    reading, writing, appending, creating = 'r' in m, 'w' in m, 'a' in m, 'x' in m
    if not text and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode does not take an encoding, errors or newline argument')
    can_read, can_write = reading or updating, writing or appending or creating or updating
    if from_fd:
        fd = file
    else:
        w.point('open', '%s %s' % (w.rel(path), mode))
        if _isdir(path):
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), str(file))
        flags = (os.O_RDWR if updating else os.O_RDONLY if reading else os.O_WRONLY) | os.O_CLOEXEC
        if writing:
            flags |= os.O_CREAT | os.O_TRUNC
        elif appending:
            flags |= os.O_CREAT | os.O_APPEND
        elif creating:
            flags |= os.O_CREAT | os.O_EXCL
        existed = _lexists(path)
        st = w.state(path) if existed and can_write else None
        if opener is not None:
            fd = opener(str(file), flags)
            n.fds.pop(fd, None)
        else:
            fd = real['open'](path, flags, 0o666)
        if can_write:
            if not existed:
                w.fslog.append(('create', path))
                w.fstate[path] = FileState(b'')
            elif writing:
                st.dirty = True
    raw = SimRaw(w, n, fd, path, can_read, can_write, appending, file, closefd)
    if appending:
        raw.seek(0, 2)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        n.files.append(raw)
        return raw
    size = w.bufsize if buffering < 2 else buffering
    if updating:
        buf = io.BufferedRandom(raw, size)
    elif can_write:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if not text:
        n.files.append(buf)
        return buf
    res = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    res.mode = mode
    n.files.append(res)
    return res


def _wrap_path_op(name, kind):
    orig = real[name]

    def op(path='.', *args, **kwargs):
        n = _node()
        if n is None or n.booting or isinstance(path, int):
            return orig(path, *args, **kwargs)
        w = n.world
        p = w.under(path)
        if p is None or kwargs.get('dir_fd') is not None:
            if p is None and name != 'listdir':
                _keep_inside(path)
            return orig(path, *args, **kwargs)
        w.point(kind, '%s %s' % (name, w.rel(p)))
        if name in ('remove', 'unlink'):
            old = st = None
            if _isfile(p):
                with real_open(p, 'rb') as f:
                    old = f.read()
                st = w.fstate.get(p)
            res = orig(path, *args, **kwargs)
            if old is not None:
                w.fslog.append(('remove', p, old, st))
                w.fstate.pop(p, None)
            return res
        res = orig(path, *args, **kwargs)
        if name == 'mkdir':
            w.fslog.append(('mkdir', p))
        elif name == 'listdir':
            res = w.list_rng.shuffle(sorted(res))
        return res
    op.__name__ = name
    return op


class _ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path='.'):
    n = _node()
    if n is None or n.booting or isinstance(path, int):
        return real['scandir'](path)
    w = n.world
    p = w.under(path)
    if p is None:
        return real['scandir'](path)
    w.point('listdir', 'scandir %s' % w.rel(p))
    return _ScanDir(w.list_rng.shuffle(sorted(real['scandir'](path), key=lambda e: e.name)))


def _wrap_rename(name):
    orig = real[name]

    def op(src, dst, **kwargs):
        n = _node()
        if n is None or n.booting or kwargs:
            return orig(src, dst, **kwargs)
        w = n.world
        s, d = w.under(src), w.under(dst)
        if s is None or d is None:
            for x in [src] * (s is None) + [dst] * (d is None):
                _keep_inside(x)
            return orig(src, dst)
        w.point('replace', '%s %s %s' % (name, w.rel(s), w.rel(d)))
        if not _isfile(s):
            return orig(src, dst)
        old = old_st = None
        if _isfile(d):
            with real_open(d, 'rb') as f:
                old = f.read()
            old_st = w.fstate.get(d)
        st = w.state(s)
        res = orig(src, dst)
        w.fslog.append(('replace', s, d, old, old_st))
        w.fstate.pop(s, None)
        w.fstate[d] = st
        return res
    op.__name__ = name
    return op


def sim_link(src, dst, **kwargs):
    n = _node()
    if n is None or n.booting or kwargs:
        return real['link'](src, dst, **kwargs)
    w = n.world
    s, d = w.under(src), w.under(dst)
    if s is None or d is None:
        if d is None:
            _keep_inside(dst)
        return real['link'](src, dst)
    w.point('link', '%s %s' % (w.rel(s), w.rel(d)))
    st = w.state(s)
    res = real['link'](src, dst)
    w.fslog.append(('create', d))
    w.fstate[d] = st
    return res


def sim_os_open(path, flags, mode=0o777, **kwargs):
    n = _node()
    if n is None or n.booting or kwargs.get('dir_fd') is not None:
        return real['open'](path, flags, mode, **kwargs)
    w = n.world
    p = w.under(path)
    if p is None:
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            _keep_inside(path)
        return real['open'](path, flags, mode)
    w.point('open', 'os.open %s %d' % (w.rel(p), flags))
    existed = _lexists(p)
    writable = flags & (os.O_WRONLY | os.O_RDWR)
    st = w.state(p) if existed and writable else None
    fd = real['open'](path, flags, mode)
    if writable:
        if not existed:
            w.fslog.append(('create', p))
            w.fstate[p] = st = FileState(b'')
        elif flags & os.O_TRUNC:
            st.dirty = True
    n.fds[fd] = (p, st if st is not None else FileState(b''))
    return fd


def sim_os_write(fd, data):
    n = _node()
    if n is None or fd not in n.fds:
        return real['write'](fd, data)
    w = n.world
    path, st = n.fds[fd]
    f = w.point('write', '%s %d' % (w.rel(path), len(data)))
    st.dirty = True
    return _write_with_fault(w, n, fd, bytes(data), f)


def sim_os_close(fd):
    n = _node()
    if n is not None and fd in n.fds:
        del n.fds[fd]
    return real['close'](fd)


def _wrap_fsync(name):
    def op(fd):
        n = _node()
        if n is None:
            return real[name](fd)
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        if fd not in n.fds:
            return real[name](fd)
        w = n.world
        path, st = n.fds[fd]
        w.point('fsync', w.rel(path))
        if _isdir(path):
            w.commit()
            return
        try:
            with real_open('/proc/self/fd/%d' % fd, 'rb') as f:
                st.durable = f.read()
        except OSError:
            w.sync_state(path, st)
        st.dirty = False
        w.commit()
    op.__name__ = name
    return op


def _wrap_stat(name):
    orig = real[name]

    def op(path, *args, **kwargs):
        n = _node()
        if n is not None and not n.booting and not n.dead and not isinstance(path, int) and not kwargs:
            w = n.world
            p = w.under(path)
            if p is not None:
                w.point('stat', w.rel(p))
        return orig(path, *args, **kwargs)
    op.__name__ = name
    return op


# ---------------------------------------------------------------------------------------------------------------------
# clock, processes, progress
# ---------------------------------------------------------------------------------------------------------------------

def _now():
    n = _node()
    return n.world.wall if n is not None else real_time['time']()


def _mono():
    n = _node()
    return n.world.mono if n is not None else real_time['monotonic']()


def _sleep(s):
    n = _node()
    if n is None:
        return real_time['sleep'](s)
    n.world.wall += s
    n.world.mono += s
    n.world.point('sleep', '')


def _strftime(fmt, t=None):
    return real_time['strftime'](fmt, t if t is not None else real_time['localtime'](_now()))


class SimDatetime(real_datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_now(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(_now())

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(_now())


class _SimDate(_datetime_mod.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_now())


DATETIME_SHIM = type(sys)('datetime')
DATETIME_SHIM.__dict__.update(_datetime_mod.__dict__)
DATETIME_SHIM.datetime, DATETIME_SHIM.date = SimDatetime, _SimDate


def _getpid():
    n = _node()
    return n.pid if n is not None else real['getpid']()


def _urandom(k):
    n = _node()
    if n is None:
        return real['urandom'](k)
    return bytes(n.world.rng.below(256) for _ in range(k))


def _exec(cmd, node):
    """An external program is run. Returns (return code, output)."""
    w = node.world
    args = cmd.split() if isinstance(cmd, str) else [str(c) for c in cmd]
    prog = os.path.basename(args[0])
    f = w.point('exec', ' '.join([prog] + [a for a in args[1:] if not a.startswith('/')])[:80])
    if f is not None and f['type'] == 'notex':
        node.no_tex = True
        w.fire('notex')
    if getattr(node, 'no_tex', False):
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args[0])
    if f is not None and f['type'] == 'texfail':
        w.fire('texfail')
        return 1, b'! Emergency stop.'
    if prog in ('latexmk', 'pdflatex'):
        if '-c' in args or '-C' in args:
            return 0, b''
        tex = [a for a in args[1:] if a.endswith('.tex')]
        if not tex:
            return 1, b'no tex file'
        with sim_open(tex[-1], 'rb') as fh:
            content = fh.read()
        if b'\\end{document}' not in content:
            return 1, b'! Incomplete document.'
        pdf = os.path.splitext(os.path.basename(tex[-1]))[0] + '.pdf'
        with sim_open(pdf, 'wb') as fh:
            fh.write(b'%PDF-sim ' + hashlib.sha256(content).hexdigest().encode())
        return 0, b'Output written'
    return 127, b''


def sim_check_output(*popenargs, **kwargs):
    n = _node()
    if n is None:
        return real_check_output(*popenargs, **kwargs)
    rc, out = _exec(popenargs[0] if popenargs else kwargs['args'], n)
    if rc:
        raise subprocess.CalledProcessError(rc, popenargs[0] if popenargs else kwargs['args'], output=out)
    return out


def sim_run(*popenargs, **kwargs):
    n = _node()
    if n is None:
        return real_run(*popenargs, **kwargs)
    cmd = popenargs[0] if popenargs else kwargs['args']
    rc, out = _exec(cmd, n)
    if rc and kwargs.get('check'):
        raise subprocess.CalledProcessError(rc, cmd, output=out)
    return subprocess.CompletedProcess(cmd, rc, out, b'')


def sim_check_call(*popenargs, **kwargs):
    sim_check_output(*popenargs)
    return 0


def sim_popen(*args, **kwargs):
    n = _node()
    if n is None:
        return real_popen(*args, **kwargs)
    raise HarnessError('Popen inside the simulation: %r' % (args[:1],))


def sim_system(cmd):
    n = _node()
    if n is None:
        return real['system'](cmd)
    w = n.world
    w.point('exec', 'system %s' % cmd[:80])
    w.launched.append(cmd)
    if w.on_launch is not None:
        return w.on_launch(n, cmd)
    return 0


class _NullTerm(io.StringIO):
    def write(self, s):
        return len(s)


def _sim_progressbar(orig):
    def progressbar(iterator, *args, **kwargs):
        kwargs.setdefault('fd', _NullTerm())
        kwargs.setdefault('term_width', 80)
        n = _node()
        for x in orig(iterator, *args, **kwargs):
            if n is not None and n is _node():
                n.world.point('tick', '')
            yield x
    return progressbar


_installed = False


def install():
    """Puts the seams in place. Outside of a simulation they pass everything through."""
    global _installed
    if _installed:
        return
    _installed = True
    os.environ['TZ'] = 'UTC'
    time.tzset()
    setup_repo()
    import progressbar
    progressbar.progressbar = _sim_progressbar(progressbar.progressbar)
    import random, uuid, pathlib, mpmath, sympy, dill, pylatex, numpy, scipy.stats  # before patching
    builtins.open = io.open = sim_open
    ops = {}
    for name, kind in (('listdir', 'listdir'), ('mkdir', 'mkdir'), ('rmdir', 'mkdir'), ('remove', 'remove'),
                       ('unlink', 'remove')):
        ops[name] = _wrap_path_op(name, kind)
    ops['rename'], ops['replace'] = _wrap_rename('rename'), _wrap_rename('replace')
    ops['scandir'], ops['link'] = sim_scandir, sim_link
    ops['open'], ops['write'], ops['close'] = sim_os_open, sim_os_write, sim_os_close
    ops['fsync'], ops['fdatasync'] = _wrap_fsync('fsync'), _wrap_fsync('fdatasync')
    ops['stat'], ops['lstat'] = _wrap_stat('stat'), _wrap_stat('lstat')
    ops['getpid'], ops['urandom'], ops['system'] = _getpid, _urandom, sim_system
    for name, f in ops.items():
        setattr(os, name, f)
    acc = getattr(pathlib, '_NormalAccessor', None)
    if acc is not None:
        for name in ('stat', 'lstat', 'listdir', 'scandir', 'mkdir', 'unlink', 'rmdir', 'rename', 'replace', 'open'):
            if hasattr(acc, name) and name in ops:
                setattr(acc, name, staticmethod(ops[name]))
                if hasattr(pathlib, '_normal_accessor'):
                    try:
                        setattr(pathlib._normal_accessor, name, ops[name])
                    except AttributeError:
                        pass
    random._urandom = _urandom
    shutil._USE_CP_SENDFILE = False
    time.time, time.monotonic, time.perf_counter, time.sleep = _now, _mono, _mono, _sleep
    time.strftime = _strftime
    time.localtime = lambda s=None: real_time['localtime'](_now() if s is None else s)
    time.gmtime = lambda s=None: real_time['gmtime'](_now() if s is None else s)
    time.ctime = lambda s=None: real_time['ctime'](_now() if s is None else s)
    time.asctime = lambda t=None: real_time['asctime'](real_time['localtime'](_now()) if t is None else t)
    subprocess.check_output, subprocess.run, subprocess.Popen = sim_check_output, sim_run, sim_popen
    subprocess.check_call = subprocess.call = sim_check_call
