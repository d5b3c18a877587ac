"""Helpers shared by the harnesses (public interfaces of specula only)."""
import contextlib
import io


def simul_params(**k):
    from specula.data_objects.simul_params import SimulParams
    a = dict(pixel_pupil=4, pixel_pitch=1.0, time_step=1.0)
    a.update(k)
    return SimulParams(**a)


def value(c, v=None, **k):
    """a BaseValue holding v"""
    from specula.base_value import BaseValue
    return BaseValue(value=v, target_device_idx=-1, **k)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def step(objs, t):
    """one loop iteration at integer time t over objects given in execution order, each its own group"""
    for o in objs:
        o.check_ready(t)
        if o.inputs_changed:
            o.trigger()
            o.post_trigger()


def rejects(fn, *exc):
    """True if fn() raises (one of) the given exceptions"""
    try:
        fn()
    except (exc or (Exception,)):
        return True
    return False
