"""A driver process: length-prefixed requests and answers over stdin/stdout."""
import os
import select
import struct as st
import subprocess
import time

from common import CheckError

TICK = os.sysconf("SC_CLK_TCK")
HANG_CPU = 15.0       # seconds of processor time one request may burn (requests take milliseconds)


class Crash(Exception):
    """The process died of a signal while it handled a request."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Hang(Crash):
    """One request burnt HANG_CPU seconds of processor time without an answer."""


class Proc:
    def __init__(self, cmd, env=None, cwd=None):
        self.cmd, self.env, self.cwd = cmd, env, cwd
        self.p = None
        self.patience = 1

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env, cwd=self.cwd)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.p = None

    def cpu(self):
        with open(f"/proc/{self.p.pid}/stat") as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / TICK

    def asleep(self):
        with open(f"/proc/{self.p.pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] == "S"

    def _read(self, n, t0, cpu0):
        b = b""
        cpu1, idle = cpu0, 0
        while len(b) < n:
            if not select.select([self.p.stdout], [], [], 2.0)[0]:
                if self.cpu() - cpu0 > HANG_CPU * self.patience:
                    raise Hang(f"no answer after {HANG_CPU * self.patience:.0f} s of processor time")
                idle = idle + 1 if self.asleep() and self.cpu() == cpu1 else 0
                cpu1 = self.cpu()
                if idle > 40 * self.patience:
                    raise Hang("no answer, and nothing is being done: it waits for what never happens")
                if time.time() - t0 > 240 * self.patience:
                    raise CheckError("the driver did not answer in time")
                continue
            c = os.read(self.p.stdout.fileno(), n - len(b))
            if not c:
                raise EOFError
            b += c
        return b

    def call(self, payload):
        if self.p is None:
            self.start()
        try:
            cpu0, t0 = self.cpu(), time.time()
            self.p.stdin.write(st.pack("<I", len(payload)) + payload)
            self.p.stdin.flush()
            n = st.unpack("<I", self._read(4, t0, cpu0))[0]
            r = self._read(n, t0, cpu0)
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            self.stop()
            if rc in (-6, -11, -4, -7, -5, 134, 139):
                raise Crash(f"the process died of signal {-rc if rc < 0 else rc - 128}")
            if rc in (0, 1, 2, 7, 13, 101):
                raise Crash(f"the process ended with status {rc} instead of an answer")
            raise CheckError(f"the driver ended unexpectedly: rc={rc}")
        except (CheckError, Hang):
            self.stop()
            raise
        return r
