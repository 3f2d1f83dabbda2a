"""Serial ports of pyserial without hardware: each one is a link to the end of a pty, which can be unplugged"""
import os
import select
import shutil
import tempfile
import threading
import time
import tty

import serial


class Socket(object):
    """where a port is plugged. name stays the same when another pty is plugged"""

    def __init__(self):
        self.folder = tempfile.mkdtemp(prefix="vp-tty-")
        self.name = os.path.join(self.folder, "ttyV0")
        self.fd = self.other = None
        self.plug()

    def plug(self):
        fd, other = os.openpty()
        tty.setraw(fd)
        tty.setraw(other)
        os.symlink(os.ttyname(other), self.name)
        # (a pty is over when nobody has its other end)
        self.fd, self.other = fd, other

    def unplug(self):
        if self.fd is not None:
            os.unlink(self.name)
            fd, other, self.fd, self.other = self.fd, self.other, None, None
            os.close(other)
            os.close(fd)

    def port(self, timeout=1.0, baudrate=115200, **kwargs):
        return serial.Serial(self.name, baudrate, timeout=timeout, **kwargs)

    def write(self, data):
        data = bytes(data)
        while data:
            data = data[os.write(self.fd, data):]

    def read(self, limit):
        """what has come, b"" when nothing comes before the limit"""
        if not select.select([self.fd], [], [], limit)[0]:
            return b""
        try:
            return os.read(self.fd, 4096)
        except OSError:
            return b""

    def close(self):
        self.unplug()
        shutil.rmtree(self.folder, ignore_errors=True)


class Cable(object):
    """joins two sockets; mangle(direction, data) gives what is transmitted instead of data"""

    def __init__(self):
        self.ends = (Socket(), Socket())
        self.mangle = None
        self.carried = ([], [])
        self.over = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def _run(self):
        while not self.over:
            fds = [end.fd for end in self.ends]
            try:
                ready = select.select([fd for fd in fds if fd is not None], [], [], 0.05)[0]
            except (OSError, ValueError):
                time.sleep(0.001)
                continue
            for k in (0, 1):
                if fds[k] in ready:
                    try:
                        data = os.read(fds[k], 4096)
                        self.carried[k].append(data)
                        if self.mangle is not None:
                            data = self.mangle(k, data)
                        if data:
                            self.ends[1 - k].write(data)
                    except (OSError, TypeError):
                        pass

    def close(self):
        self.over = True
        self.thread.join(5)
        for end in self.ends:
            end.close()
