"""Append-only event logs written by the processes of one hypersearch."""
import json
import os
import tempfile
import time


class EventLog:
    def __init__(self, directory=None):
        self.dir = directory or tempfile.mkdtemp(prefix="mp-", dir=os.environ.get("HPMON_TMP"))
        self.pid = None
        self.fd = None

    def add(self, kind, **data):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.fd = os.open(
                os.path.join(self.dir, f"{self.pid}.log"), os.O_CREAT | os.O_APPEND | os.O_WRONLY
            )
        data.update(kind=kind, t=time.monotonic(), pid=self.pid)
        os.write(self.fd, (json.dumps(data) + "\n").encode())

    def read(self):
        """{pid: [events]}; an incomplete last line (killed writer) is dropped."""
        out = {}
        for f in os.listdir(self.dir):
            if not f.endswith(".log"):
                continue
            events = []
            with open(os.path.join(self.dir, f)) as fh:
                for line in fh:
                    if line.endswith("\n"):
                        events.append(json.loads(line))
            out[int(f[:-4])] = events
        return out

    def size(self):
        """Changes whenever any process writes an event."""
        total = 0
        for f in os.listdir(self.dir):
            try:
                total += os.stat(os.path.join(self.dir, f)).st_size
            except FileNotFoundError:
                pass  # renamed or removed meanwhile
        return total

    def close(self):
        if self.fd is not None and self.pid == os.getpid():
            os.close(self.fd)
        for f in os.listdir(self.dir):
            try:
                os.unlink(os.path.join(self.dir, f))
            except FileNotFoundError:
                pass
        os.rmdir(self.dir)
