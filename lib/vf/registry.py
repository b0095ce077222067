"""Launch descriptions made on demand for launch files which are written by the checks."""
makers = {}


def make(key):
    return makers[key]()
