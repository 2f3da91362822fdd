"""Forked tasks with time limits; results come back through files."""
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Task:
    def __init__(self, key, fn, timeout, group=""):
        self.key, self.fn, self.timeout, self.group = key, fn, timeout, group
        self.pid = None
        self.result = None
        self.state = "queued"       # queued running done timeout died
        self.wall = 0.0


def _child(task, path):
    os.setsid()
    null = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VC_NOISY'):
        os.dup2(null, 1)                # library banners
    code = 0
    try:
        r = ("ok", task.fn())
    except BaseException as e:       # noqa: B902 - reported by the parent
        r = ("error", f"{type(e).__name__}: {e}\n" + traceback.format_exc())
        code = 3
    try:
        with open(path + ".tmp", "wb") as f:
            pickle.dump(r, f)
    except Exception as e:
        with open(path + ".tmp", "wb") as f:
            pickle.dump(("error", f"unpicklable result: {e}"), f)
        code = 3
    os.rename(path + ".tmp", path)
    sys.stdout.flush()
    os._exit(code)


def run_tasks(tasks, slots, deadline=None, on_done=None, stop=None):
    """Run tasks, at most ``slots`` at once.  ``stop(task)`` -> True ends
    the remaining ones early."""
    scratch = tempfile.mkdtemp(prefix="vctasks")
    queue, running = list(tasks), []
    stopped = False
    try:
        while queue or running:
            while queue and len(running) < slots and not stopped:
                t = queue.pop(0)
                now = time.time()
                if deadline is not None and now >= deadline:
                    t.state = "timeout"
                    continue
                t.path = os.path.join(scratch, f"{id(t)}")
                t.start = now
                sys.stdout.flush()
                sys.stderr.flush()
                t.pid = os.fork()
                if t.pid == 0:
                    _child(t, t.path)
                t.state = "running"
                running.append(t)
            if stopped:
                for t in queue:
                    t.state = "stopped"
                queue = []
            time.sleep(0.02)
            for t in list(running):
                pid, status = os.waitpid(t.pid, os.WNOHANG)
                now = time.time()
                if pid == 0:
                    late = now - t.start > t.timeout or (
                        deadline is not None and now > deadline) or stopped
                    if late:
                        try:
                            os.killpg(t.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            try:
                                os.kill(t.pid, signal.SIGKILL)
                            except ProcessLookupError:
                                pass
                        os.waitpid(t.pid, 0)
                        t.state = "stopped" if stopped else "timeout"
                    else:
                        continue
                elif os.path.exists(t.path):
                    with open(t.path, "rb") as f:
                        kind, t.result = pickle.load(f)
                    t.state = "done" if kind == "ok" else "error"
                else:
                    t.state = "died"
                    t.result = f"process ended with status {status}"
                t.wall = now - t.start
                running.remove(t)
                if on_done is not None:
                    on_done(t)
                if stop is not None and stop(t):
                    stopped = True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return tasks
