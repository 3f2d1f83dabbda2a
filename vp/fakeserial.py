"""A serial port with the interface of pyserial, without wires and (nearly) without time.

What arrives on the port is a queue of items: bytes (one chunk: what one read may return at once) or GAP (silence long
enough for any timeout to expire) or an exception (raised by the read which meets it). An empty queue is silence too. read(n) with a timeout returns at most n bytes of the
first chunk, and b"" for a GAP (which it consumes) or for an empty queue; with timeout None it waits for the next byte,
whatever the time it takes, or for cancel_read().
"""
import threading as real_threading
import time as real_time

GAP = object()


class SerialException(IOError):
    """what pyserial raises"""


class TooManyReads(BaseException):
    """the reader does not stop"""


class FakeSerial(object):
    def __init__(self, threading=None, name="fake0", baudrate=115200, timeout=0.01, is_open=True, on_write=None):
        self._th = threading or real_threading
        self.cond = self._th.Condition()
        self.name = self.port = name
        self.baudrate = baudrate
        self._timeout = timeout
        self.write_timeout = None
        self.inter_byte_timeout = None
        self.bytesize, self.parity, self.stopbits = 8, "N", 1
        self.is_open = is_open
        self.rx = []               # what is to be read
        self.log = []              # ("write", bytes), ("open",), ("close",), ("reset",) in order
        self.writes = []
        self.on_write = on_write   # called with the written bytes, returns None or the items to be received
        self.cancelled = 0
        self.waiting = 0           # threads blocked in a read without timeout
        self.empty_reads = 0       # reads which have returned nothing since the last byte or write
        self.reads = 0
        self.faults = []           # exceptions to be raised by the next calls: (method, exception)
        self.opened = 1 if is_open else 0
        self.poll = 0.05
        self.echo = False
        self.closing = False
        self.flush_on_open = False
        self.gather = False        # a read with timeout goes on until it has what it wants or a silence, as pyserial
        self.max_reads = None      # TooManyReads is raised over it
        self.delay = 0             # duration of each read
        self.dead = None           # an exception raised by every call until the port is closed and opened again
        self.babble = None         # a function which gives what comes when there is nothing else

    # -- the side of the test

    def feed(self, items):
        """everything becomes available at once"""
        with self.cond:
            self.rx.extend(i if i is GAP or isinstance(i, Exception) else bytes(i) for i in items)
            self.empty_reads = 0
            self.cond.notify_all()

    def idle(self):
        """the reader has consumed everything and is waiting for more"""
        return not self.rx and (self.waiting > 0 or self.empty_reads >= 2)

    def wait_idle(self, timeout=30):
        with self.cond:
            return self.cond.wait_for(self.idle, timeout)

    def fault(self, method, exc):
        with self.cond:
            self.faults.append((method, exc))
            self.cond.notify_all()

    def _fault(self, method):
        for k, (name, exc) in enumerate(self.faults):
            if name == method:
                del self.faults[k]
                raise exc

    # -- the interface of pyserial

    def open(self):
        with self.cond:
            self._fault("open")
            if self.is_open:
                raise SerialException("Port is already open.")
            self.is_open = True
            self.dead = None
            self.cancelled = 0
            if self.flush_on_open:
                del self.rx[:]
            self.opened += 1
            self.log.append(("open",))

    def close(self):
        with self.cond:
            self._fault("close")
            self.closing = self.is_open
        # (its descriptors are closed first: another thread can see that)
        with self.cond:
            self.is_open = self.closing = False
            self.log.append(("close",))
            self.cond.notify_all()

    @property
    def timeout(self):
        return self._timeout

    @timeout.setter
    def timeout(self, value):
        # the port is configured again, as pyserial does
        self._timeout = value
        if self.is_open and self.dead is not None:
            raise self.dead

    def isOpen(self):
        return self.is_open

    @property
    def in_waiting(self):
        with self.cond:
            self._check_open()
            return sum(len(i) for i in self.rx if isinstance(i, bytes))

    def inWaiting(self):
        return self.in_waiting

    def _check_open(self):
        if not self.is_open:
            raise SerialException("Attempting to use a port that is not open")
        if self.dead is not None:
            raise self.dead

    def kill(self, exc):
        with self.cond:
            self.dead = exc
            self.cond.notify_all()

    def read(self, size=1):
        with self.cond:
            self._check_open()
            self.reads += 1
            if self.max_reads is not None and self.reads > self.max_reads:
                raise TooManyReads("%d reads" % self.reads)
            if self.delay:
                real_time.sleep(self.delay)
            if self.babble is not None and not self.rx:
                self.rx.append(self.babble())
            self._fault("read")
            self._meet()
            if self.timeout is None:
                # wait for the first byte
                while True:
                    while self.rx and (self.rx[0] is GAP or not self.rx[0]):
                        self.rx.pop(0)
                    if self.rx:
                        self._meet()
                        break
                    if self.cancelled:
                        self.cancelled = 0
                        return b""
                    self._check_open()
                    self._fault("read")
                    self.waiting += 1
                    self.cond.notify_all()
                    try:
                        self.cond.wait(self.poll)
                    finally:
                        self.waiting -= 1
            while self.rx and self.rx[0] == b"":
                self.rx.pop(0)
            if self.cancelled:
                self.cancelled = 0
                return b""
            if not self.rx or self.rx[0] is GAP:
                if self.rx:
                    self.rx.pop(0)
                else:
                    self.empty_reads += 1
                    if self.empty_reads >= 2:
                        # nothing to do: let the others work
                        self.cond.notify_all()
                        self.cond.wait(0.001)
                return b""
            if self.gather:
                while len(self.rx) > 1 and len(self.rx[0]) < size and isinstance(self.rx[1], bytes):
                    self.rx[0:2] = [self.rx[0] + self.rx[1]]
            chunk = self.rx[0]
            data, rest = chunk[:size], chunk[size:]
            if rest:
                self.rx[0] = rest
            else:
                self.rx.pop(0)
            self.empty_reads = 0
            return data

    def _meet(self):
        if self.rx and isinstance(self.rx[0], Exception):
            raise self.rx.pop(0)

    def read_all(self):
        return self.read(self.in_waiting)

    def write(self, data):
        data = bytes(data)
        with self.cond:
            self._check_open()
            self._fault("write")
            self.log.append(("write", data))
            self.writes.append(data)
            self.empty_reads = 0
            if self.echo:
                self.rx.append(data)
            self.cond.notify_all()
            cback = self.on_write
        if cback is not None:
            items = cback(data)
            if items:
                self.feed(items)
        return len(data)

    def flush(self):
        self._check_open()

    def reset_input_buffer(self):
        with self.cond:
            self._check_open()
            del self.rx[:]
            self.log.append(("reset",))

    def reset_output_buffer(self):
        self._check_open()

    flushInput, flushOutput = reset_input_buffer, reset_output_buffer

    def cancel_read(self):
        with self.cond:
            if self.closing:
                raise OSError(9, "Bad file descriptor")
            # as the pipe of pyserial on POSIX: when no read is pending, the next one is cancelled
            self.cancelled = 1
            self.cond.notify_all()

    def cancel_write(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
