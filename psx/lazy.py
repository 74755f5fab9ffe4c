"""A dictionary whose members are decided when they are looked at."""

ABSENT = object()


class LazyDict(dict):
    _lazy = True

    def __init__(self, slots):
        """slots: (name, thunk) pairs; a thunk returns a value or ABSENT."""
        dict.__init__(self)
        self.slots = dict(slots)
        self.seen = {}              # name -> value as decided

    def decide(self, name):
        t = self.slots.pop(name, None)
        if t is not None:
            v = t()
            self.seen[name] = v
            if v is not ABSENT:
                dict.__setitem__(self, name, v)

    def decide_all(self):
        for n in list(self.slots):
            self.decide(n)

    def get(self, k, d=None):
        self.decide(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.decide(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.decide(k)
        return dict.__contains__(self, k)

    def __delitem__(self, k):
        self.decide(k)
        dict.__delitem__(self, k)

    def __setitem__(self, k, v):
        self.slots.pop(k, None)
        dict.__setitem__(self, k, v)

    def pop(self, k, *a):
        self.decide(k)
        return dict.pop(self, k, *a)

    def setdefault(self, k, d=None):
        self.decide(k)
        return dict.setdefault(self, k, d)

    def __iter__(self):
        self.decide_all()
        return dict.__iter__(self)

    def __len__(self):
        self.decide_all()
        return dict.__len__(self)

    def __bool__(self):
        self.decide_all()
        return dict.__len__(self) > 0

    def keys(self):
        self.decide_all()
        return dict.keys(self)

    def values(self):
        self.decide_all()
        return dict.values(self)

    def items(self):
        self.decide_all()
        return dict.items(self)

    def popitem(self):
        self.decide_all()
        return dict.popitem(self)

    def copy(self):
        self.decide_all()
        return dict(dict.items(self))

    def update(self, *a, **k):
        self.decide_all()
        dict.update(self, *a, **k)

    def __eq__(self, o):
        self.decide_all()
        return dict.__eq__(self, o)

    __hash__ = None
