"""Case runner, monitor and verdicts shared by all the checks.

A check is a module in vmon/checks with

    ID, RULE            property id, text describing how cases are made and what makes one non-trivial
    cases(tier, seed)   -> list of JSON-serialisable dicts (each gets a private random stream)
    run(case, rng, mon) executes the real code for one case and judges it through ``mon``
    finish(pool, mon)   optional: judges what the cases put in mon.pool (statistics over many executions)
    FLOORS              {counter: minimum} below which a run is inconclusive (never reported as held)

Verdicts: a Violation (with the case that replays it), held, or inconclusive (exit 2).
"""
import errno
import hashlib
import io
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")
CPU_LIMIT = 90.0       # CPU seconds of one case before it counts as not terminating (normal: below 3)
IDLE_LIMIT = 45        # consecutive seconds in which no process of a case is runnable or uses CPU
WALL_LIMIT = 420.0     # wall seconds of one case before the run is inconclusive
MAX_VIOLATIONS = 3


class Violation(Exception):
    def __init__(self, message, key=None, witness=None):
        super().__init__(message)
        self.message, self.key, self.witness = message, key, witness


class Inconclusive(Exception):
    pass


def short(obj, limit=1500):
    try:
        text = repr(obj)
    except Exception as exc:                                            # pragma: no cover
        text = "<unprintable %s>" % type(exc).__name__
    return text if len(text) <= limit else text[:limit] + "..."


class Monitor(object):
    """Collects what the oracles saw during one case (or, in the parent, during the whole run)."""

    def __init__(self):
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.pool = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def top(self, name, value):
        self.counts[name] = max(self.counts.get(name, 0), int(value))

    def seen(self, *sig):
        """Signature of a non-trivial thing observed: distinct ones are counted."""
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def check(self, ok, message, key=None, **witness):
        self.count("oracle_evaluations")
        if not ok:
            raise Violation(message, key, {k: short(v) for k, v in witness.items()})

    def fail(self, message, key=None, **witness):
        self.check(False, message, key, **witness)

    def eq(self, got, want, message, key=None, **witness):
        self.check(bool(got == want), message, key, got=got, want=want, **witness)


# ---------------------------------------------------------------- which lines of the library were executed

class Lines(object):
    """Lines of the package executed in this process (not in the children it forks), as far as the interpreter can tell."""

    def __init__(self):
        self.new, self.prefix = set(), os.path.join(os.path.realpath(REPO), "PyCTBN", "PyCTBN") + os.sep
        try:
            m = sys.monitoring
            m.use_tool_id(m.COVERAGE_ID, "vmon")
        except Exception:
            return

        def started(code, offset):
            if os.path.realpath(code.co_filename).startswith(self.prefix):
                m.set_local_events(m.COVERAGE_ID, code, m.events.LINE)
                self.new.add((code.co_filename, code.co_firstlineno))
            return m.DISABLE

        def line(code, number):
            self.new.add((code.co_filename, number))
            return m.DISABLE

        m.register_callback(m.COVERAGE_ID, m.events.PY_START, started)
        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        m.set_events(m.COVERAGE_ID, m.events.PY_START)

    def take(self):
        new, self.new = self.new, set()
        return {(os.path.relpath(os.path.realpath(f), self.prefix), n) for f, n in new}


def body_lines():
    """{file: lines inside the functions of the package}"""
    root = os.path.join(os.path.realpath(REPO), "PyCTBN", "PyCTBN")
    out = {}
    for d, _, files in os.walk(root):
        for name in files:
            if not name.endswith(".py"):
                continue
            path = os.path.join(d, name)
            try:
                with open(path, encoding="utf-8") as f:
                    todo = [(compile(f.read(), path, "exec"), False)]
            except (OSError, SyntaxError, ValueError):
                continue
            lines = set()
            while todo:
                code, inside = todo.pop()
                function = inside or bool(code.co_flags & 2)                     # CO_NEWLOCALS: not a class body or module
                if function:
                    lines |= {n for _, _, n in code.co_lines() if n and n != code.co_firstlineno}
                todo += [(c, function) for c in code.co_consts if hasattr(c, "co_code")]
            if lines:
                out[os.path.relpath(path, root)] = lines
    return out


def line_report(seen):
    report, total, hit = {}, 0, 0
    for name, lines in sorted(body_lines().items()):
        got = {n for f, n in seen if f == name} & lines
        total, hit = total + len(lines), hit + len(got)
        if got:
            report[name] = "%d of %d" % (len(got), len(lines))
    return {"all": "%d of %d" % (hit, total), "files": report}


# ---------------------------------------------------------------- running the cases

def stream(prop, seed, index):
    import numpy as np
    return np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(prop.encode()), int(index)])


def seed_globals(rng):
    import numpy as np
    np.random.seed(int(rng.integers(2 ** 31 - 1)))
    random.seed(int(rng.integers(2 ** 31 - 1)))


RESOURCE_ERRNOS = {errno.ENOMEM, errno.ENOSPC, errno.EAGAIN, errno.EMFILE, errno.ENFILE, errno.EDQUOT}


def in_repo(tb):
    frames = traceback.extract_tb(tb)
    return [f for f in frames if os.path.abspath(f.filename).startswith(REPO + os.sep)]


def run_case(check, case, seed, index):
    """Runs one case in this process. Returns a picklable outcome."""
    mon = Monitor()
    rng = stream(check.ID, seed, index)
    seed_globals(rng)
    out = {"index": index, "status": "held", "mon": mon}
    try:
        check.run(case, rng, mon)
    except Violation as v:
        out.update(status="violated", message=v.message, key=v.key, witness=v.witness)
    except Inconclusive as v:
        out.update(status="inconclusive", message=str(v))
    except MemoryError:
        out.update(status="inconclusive", message="MemoryError")
    except Exception as exc:
        if isinstance(exc, OSError) and exc.errno in RESOURCE_ERRNOS:
            out.update(status="inconclusive", message="resource: %r" % exc)
        elif type(exc).__name__ == "BrokenProcessPool" and os.environ.get("VMON_STRICT_POOL") is None:
            out.update(status="violated", message="a worker process of the library died: %r" % exc, key="pool",
                       witness={"traceback": traceback.format_exc()[-3000:]})
        else:
            where = in_repo(exc.__traceback__)
            msg = ("the library raised %r on a valid input (%s:%s)" % (exc, os.path.relpath(where[-1].filename, REPO), where[-1].name)
                   if where else "the result of the library cannot be interpreted: %r" % exc)
            out.update(status="violated", message=msg, key="exception", witness={"traceback": traceback.format_exc()[-3000:]})
    return out


def worker(check, cases, seed, slot, nslots, order, conn_r, conn_w, logpath, scratch):
    os.setsid()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    log = os.open(logpath, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    lines = Lines()
    with os.fdopen(conn_r, "rb") as requests, os.fdopen(conn_w, "wb") as replies:
        while True:
            line = requests.readline()
            if not line or line == b"end\n":
                break
            index = int(line)
            os.ftruncate(log, 0)
            os.lseek(log, 0, os.SEEK_SET)
            before = sum(os.times()[:4])
            out = run_case(check, cases[index], seed, index)
            out["mon"].top("max_case_cpu_ms", (sum(os.times()[:4]) - before) * 1000)
            out["lines"] = lines.take()
            sys.stdout.flush()
            pickle.dump(out, replies)
            replies.flush()
    os._exit(0)


def group_stat(pgid):
    """(cpu ticks, number of processes, number that are running) over the session of a worker."""
    ticks, n, running = 0, 0, 0
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % name) as f:
                text = f.read()
        except OSError:
            continue
        fields = text[text.rindex(")") + 2:].split()
        if int(fields[3]) != pgid:
            continue
        n += 1
        ticks += sum(int(x) for x in fields[11:15])
        running += fields[0] in "RD"
    return ticks, n, running


class Slot(object):
    def __init__(self, number):
        self.number = number
        self.pid = None
        self.index = None


class Pool(object):
    """Forked, non-daemonic workers that take one case at a time and are watched from outside."""

    def __init__(self, check, cases, seed, workers, scratch):
        self.check, self.cases, self.seed, self.scratch = check, cases, seed, scratch
        self.slots = [Slot(i) for i in range(workers)]
        self.hz = os.sysconf("SC_CLK_TCK")

    def start(self, slot):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                for other in self.slots:
                    if other is not slot and other.pid:
                        other.requests.close()
                        other.replies.close()
                os.close(w1)
                os.close(r2)
                worker(self.check, self.cases, self.seed, slot.number, len(self.slots), None, r1, w2,
                       os.path.join(self.scratch, "log.%d" % slot.number), os.path.join(self.scratch, "w%d" % slot.number))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        slot.pid = pid
        slot.requests = os.fdopen(w1, "wb")
        slot.replies = os.fdopen(r2, "rb")
        slot.index = None

    def kill(self, slot):
        if slot.pid:
            for kill in (os.killpg, os.kill):  # a worker just forked may not lead its group yet
                try:
                    kill(slot.pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(slot.pid, 0)
            except OSError:
                pass
            slot.requests.close()
            slot.replies.close()
            slot.pid = None

    def give(self, slot, index):
        slot.index = index
        slot.t0 = time.time()
        slot.last = (time.time(), group_stat(slot.pid)[0])
        slot.base = slot.last[1]
        slot.idle = 0
        slot.requests.write(b"%d\n" % index)
        slot.requests.flush()

    def watch(self, slot):
        """None while nothing is wrong, else an outcome for the case."""
        now = time.time()
        if now - slot.last[0] < 1.0:
            return None
        ticks, n, running = group_stat(slot.pid)
        slot.idle = slot.idle + 1 if (ticks == slot.last[1] and not running) else 0
        slot.last = (now, ticks)
        cpu = (ticks - slot.base) / self.hz
        base = {"index": slot.index, "mon": Monitor()}
        where = self.stack(slot)
        if cpu > CPU_LIMIT:
            return dict(base, status="violated", key="nontermination", message="no result after %.0f s of CPU time (normally below 3)" % cpu, witness={"cpu": cpu, "log": where})
        if slot.idle >= IDLE_LIMIT:
            return dict(base, status="violated", key="deadlock", message="blocked for ever: %d processes, none runnable" % n, witness={"log": where})
        if now - slot.t0 > WALL_LIMIT:
            return dict(base, status="inconclusive", message="wall clock limit")
        return None

    def stack(self, slot):
        try:
            with open(os.path.join(self.scratch, "log.%d" % slot.number), errors="replace") as f:
                return f.read()[-1500:]
        except OSError:
            return ""

    def run(self, deadline=None):
        import select
        todo = list(range(len(self.cases)))[::-1]
        violations = 0
        for slot in self.slots:
            self.start(slot)
        try:
            while True:
                for slot in self.slots:
                    if slot.index is None and todo and violations < MAX_VIOLATIONS and not (deadline and time.time() > deadline):
                        self.give(slot, todo.pop())
                busy = [s for s in self.slots if s.index is not None]
                if not busy or violations >= MAX_VIOLATIONS:
                    break
                ready, _, _ = select.select([s.replies for s in busy], [], [], 1.0)
                for slot in busy:
                    if slot.replies in ready:
                        try:
                            out = pickle.load(slot.replies)
                        except Exception:
                            out = {"index": slot.index, "status": "inconclusive", "mon": Monitor(),
                                   "message": "worker died: " + self.stack(slot)[-500:]}
                            self.kill(slot)
                            self.start(slot)
                    else:
                        out = self.watch(slot)
                        if out is None:
                            continue
                        self.kill(slot)
                        self.start(slot)
                    slot.index = None
                    violations += out["status"] == "violated"
                    yield out
        finally:
            for slot in self.slots:
                self.kill(slot)


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """Lines ``finding: property=<id> key=<mechanism> <what fails>`` of known_findings.txt."""
    found = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: "):
                    parts = line[len("finding: "):].split(None, 2)
                    if parts[0] == "property=" + prop and parts[1].startswith("key="):
                        found[parts[1][4:]] = parts[2].strip() if len(parts) > 2 else ""
    except OSError:
        pass
    return found
