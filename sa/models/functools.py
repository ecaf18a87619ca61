"""model of functools' caches, interpreted by the analyser"""


def cache(function):
    return _cached(function)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize)
    return _cached


def _cached(function):
    store = {}

    def cached(*args, **kwargs):
        key = (args, tuple(kwargs.items()))
        if key in store:
            return store[key]
        result = function(*args, **kwargs)
        store[key] = result
        return result

    def cache_clear():
        store.clear()
    cached.cache_clear = cache_clear
    return cached


def total_ordering(cls):
    def ge(a, b):
        return not a < b

    def gt(a, b):
        return not (a < b or a == b)

    def le(a, b):
        return a < b or a == b
    cls.__ge__ = ge
    cls.__gt__ = gt
    cls.__le__ = le
    return cls
