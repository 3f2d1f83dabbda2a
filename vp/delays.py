"""Delays injected between the lines of the library, in the threads started while a Delays is installed"""
import random
import threading
import time

from vp import boot


class Delays(object):
    """each line of the given files is preceded by a short sleep, with some probability"""

    def __init__(self, names=("modbus.py", "hooks.py"), seed=0):
        self.names = tuple(boot.PKG + name for name in names)
        self.rng = random.Random(seed)
        self.probability = 0.0
        self.length = 0.0003
        self.count = 0

    def __enter__(self):
        threading.settrace(self._trace)
        return self

    def __exit__(self, *args):
        threading.settrace(None)

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename in self.names:
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line" and self.probability and self.rng.random() < self.probability:
            self.count += 1
            time.sleep(self.length)
        return self._line
