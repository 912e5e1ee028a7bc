"""Set iteration order as a simulator decision.

While installed, the repository's modules are compiled with every set display,
set comprehension and the name `set` replaced by a set type whose iteration
order is a function of ORDER.  ORDER None is the interpreter's own order.
Within one order, equal elements always come in the same relative order, as in
a real process with one hash seed.
"""
import ast, builtins, importlib.machinery, sys, zlib
ORDER = None
COUNT = [0, 0]       # iterations of sets with 2+ elements, of those reordered

def key(x):
    return zlib.crc32(("%s/%s/%s" % (ORDER, type(x).__name__, x)).encode("utf-8", "replace"))

class Meta(type):
    def __instancecheck__(c, x): return isinstance(x, set)
class SimSet(set, metaclass=Meta):
    __slots__ = ()
    def __iter__(self):
        xs = list(set.__iter__(self))
        if len(xs) > 1:
            COUNT[0] += 1
            if ORDER is not None and not all(type(x) is int for x in xs):
                COUNT[1] += 1
                xs.sort(key=key)
        return iter(xs)
    def pop(self):
        for x in self:
            set.discard(self, x); return x
        raise KeyError("pop from an empty set")
    def copy(self): return SimSet(set.copy(self))
    def __or__(self, o): r = set.__or__(self, o); return SimSet(r) if r is not NotImplemented else r
    def __and__(self, o): r = set.__and__(self, o); return SimSet(r) if r is not NotImplemented else r
    def __sub__(self, o): r = set.__sub__(self, o); return SimSet(r) if r is not NotImplemented else r
    def __xor__(self, o): r = set.__xor__(self, o); return SimSet(r) if r is not NotImplemented else r
    __ror__, __rand__, __rxor__ = __or__, __and__, __xor__
    def __rsub__(self, o): r = set.__rsub__(self, o); return SimSet(r) if r is not NotImplemented else r
    def union(self, *o): return SimSet(set.union(self, *o))
    def intersection(self, *o): return SimSet(set.intersection(self, *o))
    def difference(self, *o): return SimSet(set.difference(self, *o))
    def symmetric_difference(self, o): return SimSet(set.symmetric_difference(self, o))
    def __reduce__(self): return (SimSet, (list(set.__iter__(self)),))

class T(ast.NodeTransformer):
    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__sim_set__", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)
    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("__sim_set__", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)
    def visit_Name(self, n):
        if n.id in ("set", "frozenset") and isinstance(n.ctx, ast.Load): return ast.copy_location(ast.Name("__sim_set__" if n.id == "set" else n.id, ast.Load()), n)
        return n

class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        p = self.get_filename(fullname)
        tree = ast.fix_missing_locations(T().visit(ast.parse(self.get_data(p), p)))
        return compile(tree, p, "exec", dont_inherit=True)

class Finder:
    def __init__(self, root): self.root = root
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in ("metalift", "llmlift_scripts"): return None
        s = importlib.machinery.PathFinder.find_spec(name, path, target)
        if s is not None and type(s.loader) is importlib.machinery.SourceFileLoader: s.loader = Loader(name, s.origin)
        return s

def install(repo):
    builtins.__sim_set__ = SimSet
    sys.meta_path.insert(0, Finder(repo))

def set_order(o):
    global ORDER
    ORDER = o
