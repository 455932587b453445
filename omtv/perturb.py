"""Schedule perturbation: the order in which omtools visits the nodes of its
graph depends on hashes of objects; make that order seeded and varied."""
import contextlib


@contextlib.contextmanager
def node_order(rng):
    """Give every expression object a random (seeded) hash.  Objects keep
    identity semantics, only set/dict iteration order changes."""
    from omtools.core.variable import Variable
    if '__hash__' in Variable.__dict__ or '__eq__' in Variable.__dict__:
        yield False             # the package defines its own order
        return
    key = '_omtv_h'

    def h(self):
        d = self.__dict__
        v = d.get(key)
        if v is None:
            v = d[key] = int(rng.integers(1 << 60))
        return v
    Variable.__hash__ = h
    try:
        yield True
    finally:
        del Variable.__hash__
