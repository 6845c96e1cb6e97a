"""The attributes an object holds, whether in its __dict__ or in slots."""
import types
from collections.abc import MutableMapping

_slots = {}


def slots(tp):
    r = _slots.get(tp)
    if r is None:
        r = {}
        for k in reversed(tp.__mro__):
            if '__slots__' in k.__dict__:
                for n, d in k.__dict__.items():
                    if isinstance(d, types.MemberDescriptorType):
                        r[n] = d
        _slots[tp] = r
    return r


class Slotted(MutableMapping):
    def __init__(self, obj, tp):
        self.obj, self.s = obj, slots(tp)
        self.d = getattr(obj, '__dict__', {})

    def __getitem__(self, n):
        m = self.s.get(n)
        if m is None:
            return self.d[n]
        try:
            return m.__get__(self.obj)
        except AttributeError:
            raise KeyError(n)

    def __setitem__(self, n, v):
        m = self.s.get(n)
        if m is None:
            self.d[n] = v
        else:
            m.__set__(self.obj, v)

    def __delitem__(self, n):
        m = self.s.get(n)
        if m is None:
            del self.d[n]
            return
        try:
            m.__delete__(self.obj)
        except AttributeError:
            raise KeyError(n)

    def __iter__(self):
        for n in self.s:
            if n in self:
                yield n
        yield from self.d

    def __contains__(self, n):
        try:
            self[n]
        except KeyError:
            return False
        return True

    def __len__(self):
        return sum(1 for _ in self)


def attrs(obj):
    """a mapping of the attributes of an instance; writing it bypasses __setattr__"""
    tp = type(obj)
    if isinstance(obj, type) or not slots(tp):
        return obj.__dict__
    return Slotted(obj, tp)


def has_attrs(obj):
    return hasattr(obj, '__dict__') or bool(slots(type(obj)))
