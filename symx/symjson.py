"""jsonpickle with symbolic values: the number literal that stands for a
symbolic number is written in its place, and is that number when read."""
from . import core, symtext


def install():
    try:
        from jsonpickle import pickler, unpickler
    except ImportError:
        return
    flatten = pickler.Pickler._flatten_impl
    restore = unpickler.Unpickler._restore

    def _flatten_impl(self, obj):
        if core.is_sym(obj):
            tok = core.E.token_for(obj)
            return int(tok) if type(obj) is core.SymInt else float(tok)
        if type(obj) is symtext.SymText:
            return obj.plain()
        return flatten(self, obj)

    def _restore(self, obj, *a, **k):
        if type(obj) in (float, int) and core.E is not None:
            x = core.E.from_token(repr(obj))
            if x is not None:
                return x
        x = restore(self, obj, *a, **k)
        return symtext.wrap(x)
    pickler.Pickler._flatten_impl = _flatten_impl
    unpickler.Unpickler._restore = _restore
