"""model of itertools on finite iterables, interpreted by the analyser"""


def _chain_from(iterables):
    out = []
    for it in iterables:
        out.extend(it)
    return iter(out)


class chain:
    def __init__(self, *iterables):
        self._items = list(_chain_from(iterables))
        self._pos = 0

    def __iter__(self):
        return iter(self._items)

    @staticmethod
    def from_iterable(iterables):
        return _chain_from(iterables)


def islice(iterable, *args):
    if len(args) == 1:
        return iter(list(iterable)[:args[0]])
    if len(args) == 2:
        return iter(list(iterable)[args[0]:args[1]])
    return iter(list(iterable)[args[0]:args[1]:args[2]])


def product(*iterables, repeat=1):
    pools = [list(p) for p in iterables] * repeat
    out = [()]
    for pool in pools:
        out = [head + (x,) for head in out for x in pool]
    return iter(out)


def permutations(iterable, r=None):
    pool = list(iterable)
    n = len(pool)
    r = n if r is None else r
    out = [()]
    for _ in range(r):
        out = [head + (i,) for head in out for i in range(n) if i not in head]
    return iter([tuple([pool[i] for i in p]) for p in out])


def accumulate(iterable, func=None, *, initial=None):
    out = []
    total = initial
    started = initial is not None
    if started:
        out.append(total)
    for x in iterable:
        if started:
            total = total + x if func is None else func(total, x)
        else:
            total = x
            started = True
        out.append(total)
    return iter(out)


def zip_longest(*iterables, fillvalue=None):
    pools = [list(p) for p in iterables]
    n = max([len(p) for p in pools])
    return iter([tuple([p[i] if i < len(p) else fillvalue for p in pools]) for i in range(n)])


def starmap(function, iterable):
    return iter([function(*args) for args in iterable])


def takewhile(predicate, iterable):
    out = []
    for x in iterable:
        if not predicate(x):
            break
        out.append(x)
    return iter(out)


def dropwhile(predicate, iterable):
    out = []
    dropping = True
    for x in iterable:
        if dropping and predicate(x):
            continue
        dropping = False
        out.append(x)
    return iter(out)


def filterfalse(predicate, iterable):
    return iter([x for x in iterable if not predicate(x)])


def compress(data, selectors):
    return iter([d for d, s in zip(data, selectors) if s])


def repeat(item, times):
    return iter([item] * times)
