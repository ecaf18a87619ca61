"""model of collections, interpreted by the analyser"""
OrderedDict = dict


class deque:
    def __init__(self, items=()):
        self._items = list(items)

    def append(self, x):
        self._items.append(x)

    def appendleft(self, x):
        self._items.insert(0, x)

    def pop(self):
        return self._items.pop()

    def popleft(self):
        return self._items.pop(0)

    def extend(self, xs):
        self._items.extend(xs)

    def rotate(self, n=1):
        k = len(self._items)
        if k:
            n = n % k
            self._items = self._items[k - n:] + self._items[:k - n]

    def clear(self):
        self._items.clear()

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return len(self._items) > 0

    def __iter__(self):
        return iter(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __setitem__(self, i, x):
        self._items[i] = x

    def __contains__(self, x):
        return x in self._items


class defaultdict:
    def __init__(self, factory=None):
        self._factory = factory
        self._items = {}

    def __getitem__(self, k):
        if k not in self._items:
            self._items[k] = self._factory()
        return self._items[k]

    def __setitem__(self, k, v):
        self._items[k] = v

    def __contains__(self, k):
        return k in self._items

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def get(self, k, default=None):
        return self._items.get(k, default)

    def items(self):
        return self._items.items()

    def keys(self):
        return self._items.keys()

    def values(self):
        return self._items.values()


def namedtuple(typename, field_names, *, defaults=()):
    if isinstance(field_names, str):
        field_names = field_names.replace(",", " ").split()
    names = tuple(field_names)
    given = tuple(defaults)

    class _Record:
        _fields = names

        def __init__(self, *args, **kwargs):
            k = len(names) - len(given)
            for i in range(len(names)):
                if i < len(args):
                    setattr(self, names[i], args[i])
                elif names[i] in kwargs:
                    setattr(self, names[i], kwargs[names[i]])
                elif i >= k:
                    setattr(self, names[i], given[i - k])
                else:
                    raise TypeError("missing argument")
            if len(args) > len(names):
                raise TypeError("too many arguments")

        def _tuple(self):
            return tuple([getattr(self, n) for n in names])

        def __iter__(self):
            return iter(self._tuple())

        def __len__(self):
            return len(names)

        def __getitem__(self, i):
            return self._tuple()[i]

        def __eq__(self, other):
            return self._tuple() == tuple(other)

        def __hash__(self):
            return hash(self._tuple())

        def _replace(self, **kwargs):
            return _Record(*[kwargs[n] if n in kwargs else getattr(self, n) for n in names])

        def _asdict(self):
            return dict(zip(names, self._tuple()))
    return _Record
