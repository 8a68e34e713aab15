"""Take the clock out of OSQP.

OSQP adapts its step size after an interval measured in seconds, so the same
problem has different answers (up to its tolerance) on a loaded machine.  The
checks fix the interval to a number of iterations: the solver is third-party
and stays the real one, but its answer is a function of its input.
"""


def install():
    import osqp
    cls = osqp.OSQP
    if getattr(cls, "_verif", False):
        return
    setup = cls.setup

    def fixed(self, *a, **kw):
        kw.setdefault("adaptive_rho_interval", 25)
        return setup(self, *a, **kw)
    cls.setup = fixed
    cls._verif = True
