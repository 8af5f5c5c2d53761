"""One class per claimed property."""
from . import storage, compute

_ALL = {}
for _m in (storage, compute):
    for _n in dir(_m):
        _c = getattr(_m, _n)
        if isinstance(_c, type) and getattr(_c, 'id', None):
            _ALL[_c.id] = _c


def get(pid):
    return _ALL[pid]()


def ids():
    return sorted(_ALL)
