"""S-expressions: atoms are str, lists are Python lists."""
import re
class SexpError(Exception): pass
_tok = re.compile(r'''\s+|;[^\n]*|#\|.*?\|#|("(?:[^"\\]|\\.)*")|([()\[\]])|('|`|,)|([^\s()\[\]"';]+)''', re.S)
def tokens(text):
    pos, n = 0, len(text)
    while pos < n:
        m = _tok.match(text, pos)
        if not m: raise SexpError("bad character at %d: %r" % (pos, text[pos:pos+20]))
        pos = m.end()
        if m.lastgroup is None and m.group(1) is None and m.group(2) is None and m.group(3) is None and m.group(4) is None:
            continue
        yield m.group(1) or m.group(2) or m.group(3) or m.group(4)
def parse(text):
    """All top-level forms; raises SexpError on unbalanced input."""
    out, stack = [], []
    cur = out
    for t in tokens(text):
        if t in "([" and len(t) == 1:
            new = []
            cur.append(new); stack.append((cur, t)); cur = new
        elif t in ")]" and len(t) == 1:
            if not stack: raise SexpError("unexpected )")
            cur, o = stack.pop()
            if (o == "(") != (t == ")"): raise SexpError("mismatched bracket")
        elif t in ("'", "`", ","):
            continue
        else:
            cur.append(t)
    if stack: raise SexpError("unbalanced: missing )")
    return out
def show(x):
    return x if isinstance(x, str) else "(" + " ".join(show(y) for y in x) + ")"
