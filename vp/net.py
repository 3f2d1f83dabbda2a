"""TCP helpers: servers of modbus_tk on the loopback, raw clients, scripted peers"""
import errno
import fcntl
import os
import select
import socket
import struct
import termios
import threading
import time

from vp.core import Violation, Inconclusive

WAIT = 30.0       # generous: only reached when something is really stuck


def free_port(address="127.0.0.1"):
    sock = socket.socket()
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    sock.bind((address, 0))
    port = sock.getsockname()[1]
    sock.close()
    return port


def tcp_server(lib, address="127.0.0.1", start=True, **kwargs):
    """a running TcpServer on a free port: returns (server, port)"""
    for _ in range(20):
        port = free_port(address)
        server = lib.modbus_tcp.TcpServer(port=port, address=address, **kwargs)
        if not start:
            return server, port
        server.start()
        if wait_listening(port, address):
            return server, port
        server.stop()
    raise Inconclusive("the TCP server can not be started")


def wait_listening(port, address="127.0.0.1", limit=10.0):
    """wait that something accepts connections"""
    end = time.monotonic() + limit
    while time.monotonic() < end:
        try:
            sock = socket.create_connection((address, port), 5)
            sock.close()
            return True
        except OSError:
            time.sleep(0.002)
    return False


def stop_server(server, limit=60):
    """stop a server, which must not last"""
    thread = threading.Thread(target=server.stop, daemon=True)
    thread.start()
    thread.join(limit)
    if thread.is_alive():
        raise Violation("stop() does not return", timing=True)


def delivered(sock, limit=1.0):
    """wait that what was sent on the socket is in the queue of the other side"""
    end = time.monotonic() + limit
    try:
        while struct.unpack("i", fcntl.ioctl(sock.fileno(), termios.TIOCOUTQ, b"\0\0\0\0"))[0] > 0:
            if time.monotonic() > end:
                return
            time.sleep(0.0005)
    except (OSError, ValueError):
        pass


class RawClient(object):
    """a TCP client which knows only about sockets and headers"""

    def __init__(self, port, address="127.0.0.1", rcvbuf=None):
        self.sock = socket.socket()
        if rcvbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.sock.settimeout(WAIT)
        self.sock.connect((address, port))
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def send(self, data):
        self.sock.sendall(bytes(data))

    def frame(self, limit=WAIT, what="an answer"):
        """the next complete frame: b"" when the connection is closed"""
        end = time.monotonic() + limit
        while True:
            if len(self.buf) >= 6:
                length = 6 + struct.unpack(">H", self.buf[4:6])[0]
                if len(self.buf) >= length:
                    frame, self.buf = self.buf[:length], self.buf[length:]
                    return frame
            left = end - time.monotonic()
            if left <= 0:
                raise Violation("%s does not come (received: %s)" % (what, self.buf.hex()), timing=True)
            self.sock.settimeout(left)
            try:
                data = self.sock.recv(4096)
            except socket.timeout:
                continue
            except OSError as exc:
                if exc.errno in (errno.ECONNRESET, errno.EPIPE):
                    data = b""
                else:
                    raise
            if not data:
                if self.buf:
                    raise Violation("the connection is closed in the middle of a frame: %s" % self.buf.hex())
                return b""
            self.buf += data

    def quiet(self, delay=0.0):
        """True when nothing else has been received"""
        if self.buf:
            return False
        return not select.select([self.sock], [], [], delay)[0]

    def closed(self, limit=WAIT):
        """wait for the end of the connection; the bytes received before it are returned"""
        end = time.monotonic() + limit
        data = self.buf
        while True:
            left = end - time.monotonic()
            if left <= 0:
                return None
            self.sock.settimeout(left)
            try:
                more = self.sock.recv(4096)
            except socket.timeout:
                continue
            except OSError:
                return data
            if not more:
                return data
            data += more

    def reset(self):
        """close with a RST"""
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.sock.close()

    def close(self):
        self.sock.close()


class Peer(object):
    """A TCP peer for masters: handler(conn) is called in a thread for each connection, conn being a Conn"""

    def __init__(self, handler, address="127.0.0.1"):
        self.handler = handler
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((address, 0))
        self.port = self.sock.getsockname()[1]
        self.sock.listen(20)
        self.conns = []
        self.errors = []
        self.over = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def _run(self):
        while not self.over:
            try:
                sock, _ = self.sock.accept()
            except OSError:
                return
            sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            conn = Conn(self, sock, len(self.conns))
            self.conns.append(conn)
            threading.Thread(target=self._serve, args=(conn,), daemon=True).start()

    def _serve(self, conn):
        try:
            self.handler(conn)
        except (OSError, EOFError):
            pass
        except Exception as exc:  # noqa
            self.errors.append(exc)
        finally:
            conn.close()

    def close(self):
        self.over = True
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        for conn in list(self.conns):
            conn.close()


class Conn(object):
    def __init__(self, peer, sock, num):
        self.peer, self.sock, self.num = peer, sock, num

    def read(self, count):
        data = b""
        while len(data) < count:
            more = self.sock.recv(count - len(data))
            if not more:
                raise EOFError()
            data += more
        return data

    def request(self):
        """the next request of a TCP master: (header, pdu)"""
        head = self.read(7)
        (tid, proto, length, unit) = struct.unpack(">HHHB", head)
        return (tid, proto, length, unit), self.read(length - 1)

    def send(self, data):
        self.sock.sendall(bytes(data))

    def reset(self):
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.sock.close()

    def close(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()


def nfds():
    return len(os.listdir("/proc/self/fd"))
