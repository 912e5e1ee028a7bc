"""Values shared by the evaluators: int, bool, list=tuple, Tup=tuple subclass, frozenset."""
class Tup(tuple):
    __slots__ = ()
    def __repr__(self): return "T" + tuple.__repr__(self)
    def __eq__(self, o): return isinstance(o, Tup) and tuple.__eq__(self, o)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("T",) + tuple(self))
class EvalError(Exception):
    """Evaluation is undefined here (divergence, default-less access)."""
class SortError(Exception):
    """Ill-sorted term."""
def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool): raise SortError("= on %r %r" % (a, b))
    if isinstance(a, (bool, int)) != isinstance(b, (bool, int)): raise SortError("= on %r %r" % (a, b))
    return a == b
