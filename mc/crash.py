"""Crash points: an exception at any source line of the package under test."""
import sys


class Injected(MemoryError):
    pass


class Crasher:
    """`points`: first visits of the lines; with `at`, crash at that point"""

    def __init__(self, prefix, at=None, visits=1):
        self.prefix, self.at, self.visits = prefix, at, visits
        self.n, self.seen, self.where = 0, {}, None

    def _local(self, frame, event, arg):
        if event == "line":
            key = (frame.f_code.co_filename, frame.f_lineno)
            k = self.seen.get(key, 0)
            if k < self.visits:
                self.seen[key] = k + 1
                self.n += 1
                if self.n == self.at:
                    self.where = "%s:%d" % (key[0][len(self.prefix):], key[1])
                    raise Injected("injected at " + self.where)
        return self._local

    def _glob(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(
                self.prefix):
            return self._local
        return None

    def run(self, f):
        """-> True if it crashed"""
        old = sys.gettrace()
        sys.settrace(self._glob)
        try:
            f()
            return False
        except Injected:
            return True
        finally:
            sys.settrace(old)
