"""Faults and schedules: what happens at each file operation below a directory.

The file operations are observed by an audit hook (PEP 578), whichever function of the code performs them. A hook cannot be removed, so
everything here takes place in a forked child.
"""
import errno
import os
import pickle
import random
import sys
import threading

EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod"}
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
KILLED = 9


def forked(func):
    """Run in a child; (exit status, what it returned or None)."""
    read, write = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(read)
            out = pickle.dumps(func())
            with os.fdopen(write, "wb") as fp:
                fp.write(out)
            code = 0
        except BaseException as err:  # the parent judges
            try:
                with os.fdopen(write, "wb") as fp:
                    fp.write(pickle.dumps(repr(err)))
            except Exception:
                pass
            code = 2
        finally:
            os._exit(code)
    os.close(write)
    with os.fdopen(read, "rb") as fp:
        data = fp.read()
    status = os.waitpid(pid, 0)[1]
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    return code, pickle.loads(data) if data else None


def watch(root, action):
    """Call action(event, path, writing) before each file operation below root."""
    root = os.path.realpath(root) + os.sep
    busy = threading.local()

    def hook(event, args):
        if event not in EVENTS or getattr(busy, "flag", False):
            return
        busy.flag = True
        try:
            path = args[0]
            if not isinstance(path, (str, bytes, os.PathLike)):
                return
            path = os.path.abspath(os.fsdecode(path))
            other = os.path.abspath(os.fsdecode(args[1])) if event == "os.rename" and isinstance(args[1], (str, bytes, os.PathLike)) else path
            if not (path.startswith(root) or other.startswith(root)):
                return
            writing = event != "open" or bool(isinstance(args[2], int) and args[2] & WRITING) or bool(args[1] and set(args[1]) & set("wax+"))
            action(event, path, writing)
        finally:
            busy.flag = False
    sys.addaudithook(hook)


def count(root, func):
    """The number of operations, and of those opening a file to write, when nothing goes wrong."""
    def child():
        seen = [0, 0]

        def action(event, path, writing):
            seen[0] += writing
            seen[1] += writing and event == "open"
        watch(root, action)
        func()
        return seen
    code, res = forked(child)
    return (code, res)


def strike(root, func, at, kind):
    """Kill the process before its operation number *at*, or let the opening (to write) number *at* fail."""
    def child():
        seen = [0]

        def action(event, path, writing):
            if not writing or (kind == "full" and event != "open"):
                return
            seen[0] += 1
            if seen[0] == at + 1:
                if kind == "full":
                    raise OSError(errno.ENOSPC, "No space left on device", path)
                os._exit(KILLED)
        watch(root, action)
        func()
        return True
    return forked(child)


class Turns:
    """Threads take turns at their file operations in a generated order.

    A thread that does not come to its next operation (because it waits for another one) loses its turn after a while.
    """

    def __init__(self, seed, patience=0.2):
        self.rng = random.Random(seed)
        self.cond = threading.Condition()
        self.live, self.turn, self.steps, self.patience = set(), None, 0, patience

    def _choose(self):
        self.turn = self.rng.choice(sorted(self.live)) if self.live else None
        self.steps += 1
        self.cond.notify_all()

    def step(self):
        me = threading.current_thread().name
        if me not in self.live:
            return
        with self.cond:
            if self.turn == me or self.turn is None:
                self._choose()
            while self.turn != me and me in self.live:
                before = self.steps
                if not self.cond.wait(self.patience) and before == self.steps:
                    self.turn = me

    def run(self, funcs):
        """The results of the functions: (True, value) or (False, error)."""
        out = [None] * len(funcs)
        gate = threading.Barrier(len(funcs))

        def work(k, func):
            gate.wait()
            self.step()
            try:
                out[k] = (True, func())
            except Exception as err:
                out[k] = (False, repr(err))
            finally:
                with self.cond:
                    self.live.discard(threading.current_thread().name)
                    self._choose()
        threads = [threading.Thread(target=work, args=(k, f), name=f"turn-{k}") for k, f in enumerate(funcs)]
        self.live = {t.name for t in threads}
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return out


def interleaved(root, funcs, seed, invariant=None):
    """Run the functions in threads, switching at each file operation below root."""
    def child():
        turns = Turns(seed)
        broken = []

        def action(event, path, writing):
            turns.step()
            if invariant is not None and not broken:
                res = invariant()
                if res:
                    broken.append((event, path, res))
        watch(root, action)
        return turns.run(funcs), broken, turns.steps
    return forked(child)
