"""A simulated disk: real files in a scratch tree, with the operating system's failures injected.

An action runs in a forked child. Every point at which the tree could be caught is counted: lines of
the program, creations, renames and removals of files (audit events), and fsync. At the chosen point
the child is killed, loses power (un-synced data of changed files is cut), is interrupted, or the
operation fails with an OSError; a byte limit instead makes the kernel itself cut a write short and
refuse the rest (EFBIG), or kill the process at that byte (SIGXFSZ)."""
from __future__ import annotations

import errno
import json
import os
import resource
import shutil
import signal
import sys
import tempfile

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ERRORS = {"full": errno.ENOSPC, "io": errno.EIO, "denied": errno.EACCES}
OPS = {"os.rename", "os.remove", "os.truncate", "os.mkdir", "os.link", "os.symlink", "os.rmdir"}


def snapshot(root):
    """Contents of every file below root."""
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            path = os.path.join(d, n)
            if os.path.islink(path):
                out[os.path.relpath(path, root)] = ("link", os.readlink(path))
                continue
            with open(path, "rb") as fh:
                out[os.path.relpath(path, root)] = fh.read()
    return out


def restore(root, was, now=None):
    """Bring the tree back to a snapshot."""
    now = snapshot(root) if now is None else now
    for rel in now:
        if rel not in was:
            os.remove(os.path.join(root, rel))
    for rel, data in was.items():
        if now.get(rel) != data:
            path = os.path.join(root, rel)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if os.path.lexists(path):
                os.remove(path)
            with open(path, "wb") as fh:
                fh.write(data)


class _Machine:
    """The fault machinery inside the forked child."""

    def __init__(self, root, attack, out):
        self.root, self.out = os.path.realpath(root), out
        self.kind = attack["kind"] if attack else None
        self.target = attack["at"] if attack else -1
        self.error = attack.get("error") if attack else None
        self.points = {"any": 0, "io": 0}
        self.synced = {}
        self.armed = False
        self.where = None

    def ours(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        p = os.fsdecode(p)
        return os.path.realpath(p).startswith(self.root + os.sep)

    def point(self, label, io):
        if not self.armed:
            return
        n = self.points["io" if self.kind == "error" else "any"]
        self.points["any"] += 1
        if io:
            self.points["io"] += 1
        elif self.kind == "error":
            return
        if n != self.target:
            return
        self.armed = False
        self.where = label
        if self.kind in ("kill", "power"):
            self.report("stopped")
            os._exit(0)
        if self.kind == "interrupt":
            raise KeyboardInterrupt("injected")
        raise OSError(ERRORS[self.error], os.strerror(ERRORS[self.error]))

    def report(self, how, error=None):
        msg = {"how": how, "points": self.points, "synced": {str(k): v for k, v in self.synced.items()},
               "where": self.where, "error": error}
        os.write(self.out, json.dumps(msg).encode())

    def audit(self, event, args):
        if not self.armed:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return
            writing = (isinstance(flags, int) and flags & WRITE_FLAGS) or (mode and set(mode) & set("wax+"))
            if writing and self.ours(path):
                self.point("open " + os.path.basename(os.fsdecode(path)), True)
        elif event in OPS:
            paths = [a for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))]
            if event in ("os.rename", "os.link"):
                self.refuse(paths)
            if any(self.ours(p) for p in paths):
                self.point(event, True)

    def refuse(self, paths):
        """The machine's temporary directory is another file system."""
        if len({self.ours(p) for p in paths if isinstance(p, (str, bytes, os.PathLike))}) == 2:
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV))

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root + os.sep):
            return None
        if event == "line":
            self.point(f"line {frame.f_code.co_name}", False)
        return self.trace

    def sync(self, real):
        def fsync(fd):
            self.point("fsync", True)
            real(fd)
            n = fd if isinstance(fd, int) else fd.fileno()
            st = os.fstat(n)
            self.synced[st.st_ino] = st.st_size
        return fsync


def run(root, action, attack=None):
    """Run action() in a child under the attack; returns its report.

    attack: {"kind": kill|power|interrupt|error, "at": point} or {"kind": short|cut, "bytes": n}."""
    safe = stats(root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            signal.alarm(0)
            os.umask(0o022)
            other = root.rstrip(os.sep) + ".tmp"
            os.makedirs(other, exist_ok=True)
            tempfile.tempdir = os.environ["TMPDIR"] = other
            m = _Machine(root, attack if attack and "at" in attack else None, w)
            for name in ("fsync", "fdatasync"):
                if hasattr(os, name):
                    setattr(os, name, m.sync(getattr(os, name)))
            sys.addaudithook(m.audit)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if attack and "bytes" in attack:
                resource.setrlimit(resource.RLIMIT_FSIZE, (attack["bytes"], attack["bytes"]))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if attack["kind"] == "cut" else signal.SIG_IGN)
            m.armed = True
            sys.settrace(m.trace)
            try:
                action()
                how, err = "done", None
            except BaseException as e:  # noqa: BLE001
                how, err = "raised", f"{type(e).__name__}: {e}"
            sys.settrace(None)
            m.armed = False
            m.report(how, err)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root.rstrip(os.sep) + ".tmp", ignore_errors=True)
    if os.WIFSIGNALED(status):
        return {"how": "cut", "points": None, "synced": {}, "where": "byte limit", "error": None}
    if not data:
        raise RuntimeError(f"simulated machine gave no report ({status})")
    rep = json.loads(data)
    if attack and attack["kind"] == "power" and rep["how"] == "stopped":
        rep["lost"] = lose_power(root, safe, rep["synced"], attack.get("keep", 0.0))
    return rep


def stats(root):
    """(inode, mtime, size) of every file: what is already safe on the disk."""
    out = set()
    for d, _, names in os.walk(root):
        for n in names:
            st = os.lstat(os.path.join(d, n))
            out.add((st.st_ino, st.st_mtime_ns, st.st_size))
    return out


def lose_power(root, safe, synced, keep):
    """Data written since the last fsync of a file is lost (all but a fraction `keep` of it)."""
    lost = 0
    for d, _, names in os.walk(root):
        for n in names:
            path = os.path.join(d, n)
            st = os.lstat(path)
            if (st.st_ino, st.st_mtime_ns, st.st_size) in safe:
                continue
            have = synced.get(str(st.st_ino), 0)
            if have < st.st_size:
                os.truncate(path, have + int(keep * (st.st_size - have)))
                lost += 1
    return lost
