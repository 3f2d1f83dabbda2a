"""A RtuMaster and a RtuServer of modbus_tk joined by a serial line without wires"""
import time

from vp.fakeserial import FakeSerial, GAP

PATIENCE = 20.0


class MasterPort(FakeSerial):
    """the side of the master: the first read after a write waits for the answer, whatever the load of the machine"""
    patience = PATIENCE
    expect = False

    def write(self, data):
        with self.cond:
            self.expect = True
        return FakeSerial.write(self, data)

    def read(self, size=1):
        with self.cond:
            if self.expect and not self.rx and self.is_open:
                self.cond.wait_for(lambda: self.rx or not self.expect, self.patience)
            self.expect = False
        return FakeSerial.read(self, size)


class Line(object):
    """the two ends. Frames go through as one chunk followed by a silence"""

    def __init__(self, name="line"):
        self.master = MasterPort(name=name + "-m")
        self.server = FakeSerial(name=name + "-s")
        self.frames = []
        self.master.on_write = self._to_server
        self.server.on_write = self._to_master
        self.silent = None      # tells if a request gets no answer

    def _to_server(self, data):
        self.frames.append(("->", data))
        del self.frames[:-200]
        if self.silent is not None and self.silent(data):
            with self.master.cond:
                self.master.expect = False
        self.server.feed([data, GAP])

    def _to_master(self, data):
        self.frames.append(("<-", data))
        self.master.feed([data, GAP])


def rtu_pair(lib, databank=None, name="line"):
    """(line, server (started), master)"""
    line = Line(name)
    server = lib.modbus_rtu.RtuServer(line.server, databank=databank)
    server.start()
    master = lib.modbus_rtu.RtuMaster(line.master)
    return line, server, master


def wait(cond, limit=20):
    end = time.monotonic() + limit
    while time.monotonic() < end:
        if cond():
            return True
        time.sleep(0.001)
    return False
