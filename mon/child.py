"""Runs pickled calls of the package in this fresh interpreter."""
import importlib
import io
import os
import pickle
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    warnings.simplefilter('ignore')
    out = os.fdopen(os.dup(1), 'wb')
    sys.stdout = io.StringIO()
    from mon import purity
    res = []
    for i, blob in pickle.loads(sys.stdin.buffer.read()):
        label, a, k = pickle.loads(blob)
        mod, name = label.rsplit('.', 1)
        fn = getattr(importlib.import_module('solarspatialtools.' + mod), name)
        try:
            res.append((i, purity.freeze(fn(*a, **k)), ''))
        except Exception as e:       # noqa
            res.append((i, None, type(e).__name__))
    pickle.dump(res, out)
    out.close()


main()
