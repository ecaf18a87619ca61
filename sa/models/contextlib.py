"""model of contextlib, interpreted by the analyser"""


class suppress:
    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, kind, error, trace):
        return error is not None and isinstance(error, self._exceptions)


class nullcontext:
    def __init__(self, value=None):
        self._value = value

    def __enter__(self):
        return self._value

    def __exit__(self, kind, error, trace):
        return False
