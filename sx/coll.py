"""dicts and sets whose keys are symbolic: lookups compare the keys one by one (each comparison may split the path)"""
import collections
from . import sym, strs
from .sym import S, SymC, Unsupported
from .strs import SymStr
from .dt import SymDT, SymTD

DICTS = (dict, collections.defaultdict, collections.OrderedDict, collections.Counter)


def symkey(k):
    if isinstance(k, S):
        return not k.is_const()
    if isinstance(k, (SymC, SymStr, SymDT, SymTD)):
        return True
    if isinstance(k, (tuple, frozenset)):
        return any(symkey(x) for x in k)
    return False


def same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (S, SymC)) and not isinstance(y, (int, float, complex, S, SymC)):
            return False
        if isinstance(x, SymStr) and not isinstance(y, (str, SymStr)):
            return False
    try:
        return bool(a == b)
    except TypeError:
        return False


def find(d, k):
    """(found, the key as stored)"""
    if not symkey(k) and not any(symkey(q) for q in d):
        return k in d, k
    for q in d:
        if same(q, k):
            return True, q
    return False, k


class Hashing:
    def __enter__(self):
        sym.HASHOK[0] += 1

    def __exit__(self, *a):
        sym.HASHOK[0] -= 1


HASHING = Hashing()


class DictSub:
    """the subscript operations of a dict"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        f, q = find(self.d, k)
        with HASHING:
            if f:
                return dict.__getitem__(self.d, q)
            if symkey(k) and not isinstance(self.d, (collections.defaultdict, collections.Counter)):
                raise KeyError(k)
            return self.d[q]

    def __setitem__(self, k, v):
        _, q = find(self.d, k)
        with HASHING:
            self.d[q] = v

    def __delitem__(self, k):
        _, q = find(self.d, k)
        with HASHING:
            del self.d[q]


def dict_in(k, d):
    return find(d, k)[0]


def dict_meth(d, name, a, k):
    """get, setdefault, pop, update on a dict"""
    if name == 'update':
        items = list(a[0].items()) if a and hasattr(a[0], 'items') else list(a[0]) if a else []
        if not any(symkey(q) for q, _ in items) and not any(symkey(q) for q in d):
            return d.update(dict(items), **k)
        for q, v in items + list(k.items()):
            DictSub(d)[q] = v
        return None
    f, q = find(d, a[0])
    with HASHING:
        return getattr(d, name)(q, *a[1:], **k)


def make_dict(items):
    d = {}
    sub = DictSub(d)
    for q, v in items:
        sub[q] = v
    return d


class SymSet:
    """a set of distinct values"""

    def __init__(self, xs=()):
        self.xs = []
        for x in xs:
            self.add(x)

    def __contains__(self, x):
        if not symkey(x) and not any(symkey(q) for q in self.xs):
            return x in self.xs
        return any(same(q, x) for q in self.xs)

    def add(self, x):
        if not symkey(x):
            hash(x)
        if x not in self:
            self.xs.append(x)

    def update(self, *o):
        for y in o:
            for x in y:
                self.add(x)

    def discard(self, x):
        for i, q in enumerate(self.xs):
            if same(q, x):
                del self.xs[i]
                return

    def remove(self, x):
        n = len(self.xs)
        self.discard(x)
        if len(self.xs) == n:
            raise KeyError(x)

    def clear(self): self.xs.clear()
    def copy(self): return SymSet(self.xs)
    def __len__(self): return len(self.xs)
    def __bool__(self): return bool(self.xs)
    def __iter__(self): return iter(list(self.xs))
    def union(self, *o):
        r = SymSet(self.xs)
        r.update(*o)
        return r
    def intersection(self, *o):
        o = [SymSet(y) for y in o]
        return SymSet([x for x in self.xs if all(x in y for y in o)])
    def difference(self, *o):
        o = [SymSet(y) for y in o]
        return SymSet([x for x in self.xs if not any(x in y for y in o)])
    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self.xs)
    def issuperset(self, o): return all(x in self for x in o)
    def isdisjoint(self, o): return not any(x in self for x in o)
    def __or__(self, o): return self.union(o)
    __ror__ = __or__
    def __and__(self, o): return self.intersection(o)
    __rand__ = __and__
    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return SymSet(o).difference(self)
    def __ior__(self, o):
        self.update(o)
        return self
    def __xor__(self, o):
        o = SymSet(o)
        return self.difference(o).union(o.difference(self))
    __rxor__ = __xor__
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)
    def __eq__(self, o):
        return isinstance(o, (SymSet, set, frozenset)) and len(self) == len(o) and self.issubset(o)
    def __ne__(self, o): return not self == o
    __hash__ = None

    def pop(self):
        raise Unsupported('set.pop: arbitrary element')


def make_set(*a):
    """set(...): an ordinary one if all values are concrete"""
    if not a:
        return SymSet()
    xs = list(a[0])
    return SymSet(xs) if any(symkey(x) for x in xs) else set(xs)
