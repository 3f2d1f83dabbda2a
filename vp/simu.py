"""A running simulator of modbus_tk: console on a pseudo terminal, RPC on a free port, a TCP server"""
import os
import pty
import socket
import socketserver
import sys
import termios
import threading
import time

from vp.core import Violation, Inconclusive
from vp.net import free_port, wait_listening

RPC_PORT = 2711
_bound = []


def redirect_rpc():
    """the port of the RPC is fixed: several simulators (of several checks) must be able to run at the same time"""
    bind = socketserver.TCPServer.server_bind
    if getattr(bind, "redirected", False):
        return

    def server_bind(self):
        _bound.append((self.server_address, self))
        self.server_address = ("127.0.0.1", 0)
        self.allow_reuse_address = True
        return bind(self)
    server_bind.redirected = True
    socketserver.TCPServer.server_bind = server_bind


class Output(object):
    """what the simulator writes on the console"""

    def __init__(self):
        self.cond = threading.Condition()
        self.text = ""
        self.encoding = "utf-8"

    def write(self, text):
        with self.cond:
            self.text += text
            self.cond.notify_all()
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def line(self, limit=30):
        """the next line, or None"""
        with self.cond:
            if not self.cond.wait_for(lambda: "\r\n" in self.text, limit):
                return None
            line, self.text = self.text.split("\r\n", 1)
            return line + "\r\n"


class Host(object):
    """a simulator with its threads"""

    def __init__(self, lib, server=None, terminal=True):
        redirect_rpc()
        self.lib = lib
        del _bound[:]
        self.tcp_port = None
        if server is None:
            self.tcp_port = free_port()
            server = lib.modbus_tcp.TcpServer(port=self.tcp_port, address="127.0.0.1")
        self.server = server
        self.saved = (sys.stdin, sys.stdout, sys.stderr)
        self.out = Output()
        sys.stdout = self.out
        self.err = Output()
        sys.stderr = self.err
        self.terminal = terminal
        if terminal:
            self.master_fd, slave_fd = pty.openpty()
            attrs = termios.tcgetattr(slave_fd)
            attrs[3] &= ~(termios.ECHO | termios.ISIG)
            attrs[1] &= ~termios.OPOST
            termios.tcsetattr(slave_fd, termios.TCSANOW, attrs)
        else:
            slave_fd, self.master_fd = os.pipe()
        sys.stdin = os.fdopen(slave_fd, "r", encoding="utf-8", errors="replace")
        self.stdin = sys.stdin
        self.simulator = lib.simulator.Simulator(server)
        if len(_bound) != 1:
            raise Violation("the simulator listens on %d RPC ports" % len(_bound))
        self.asked, self.rpc_server = _bound[0]
        self.rpc_port = self.rpc_server.server_address[1]
        self.ended = threading.Event()
        self.error = None
        self.thread = threading.Thread(target=self._main, name="simulator", daemon=True)

    def _main(self):
        try:
            self.simulator.start()
        except BaseException as exc:  # noqa
            self.error = exc
        self.ended.set()

    def start(self):
        self.thread.start()
        if self.tcp_port and not wait_listening(self.tcp_port):
            raise Inconclusive("the server of the simulator does not start")
        return self

    def type(self, text):
        data = text.encode("utf-8")
        while data:
            data = data[os.write(self.master_fd, data):]

    def client(self, timeout=30):
        return self.lib.simulator_rpc_client.SimulatorRpcClient("127.0.0.1", self.rpc_port, timeout)

    def rpc(self, command, pieces=None, newline=True, limit=30):
        """a raw RPC call: returns all what is received"""
        sock = socket.create_connection(("127.0.0.1", self.rpc_port), limit)
        try:
            sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            data = command if isinstance(command, bytes) else command.encode("utf-8")
            if newline:
                data += b"\n"
            pos = 0
            for piece in pieces or ():
                sock.sendall(data[pos:pos + piece])
                pos += piece
            sock.sendall(data[pos:])
            out = b""
            end = time.monotonic() + limit
            while True:
                sock.settimeout(max(0.01, end - time.monotonic()))
                more = sock.recv(65536)
                if not more:
                    return out.decode("utf-8")
                out += more
        finally:
            sock.close()

    def close(self, limit=30):
        """ends the simulator as its main program does"""
        try:
            if self.thread.is_alive():
                self.simulator.inq.put("quit")
                if not self.ended.wait(limit):
                    raise Violation("the simulator does not end after quit", timing=True)
            thread = threading.Thread(target=self.simulator.close, daemon=True)
            thread.start()
            thread.join(limit)
            if thread.is_alive():
                raise Violation("Simulator.close() does not return", timing=True)
        finally:
            sys.stdin, sys.stdout, sys.stderr = self.saved
            try:
                os.close(self.master_fd)
            except OSError:
                pass
