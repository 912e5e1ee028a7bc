"""Authoring time only: writes odd.cc and odd.json (functions that change variables through second names and
unmodelled calls, with what they would mean if the change were missed); then run gen.sh odd."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V=lambda x:("v",x); C=lambda n:("c",n); add=lambda a,b:("+",a,b); ln=lambda l:("len",V(l)); R=lambda e:(("ret",e),)
L=lambda *es: (("set","out",("empty",)),)+tuple(("append","out",e) for e in es)+R(V("out"))
pre="""#include "vec.h"
void bump(int &r) { r = r + 1; }
void exchange(int &a, int &b) { int t = a; a = b; b = t; }
void add(vector<int> &v, int n) { v.push_back(n); }
int half(int x) { return x / 2; }
void fill(vector<int> &v, vector<int> &w) { for (int i = 0; i < w.size(); i = i + 1) v.push_back(w[i]); }
"""
I=[("x","int")]; IY=[("x","int"),("y","int")]; LN=[("l","list"),("n","int")]; N=[("n","int")]; LL=[("l","list")]
gl=lambda i:("get",V("l"),i)
summ=(("set","s",C(0)),("set","i",C(0)),("while",0,("<",V("i"),ln("l")),(("set","s",add(V("s"),gl(V("i")))),("set","i",add(V("i"),C(1))))),("ret",V("s")))
lst=lambda *st:(("set","out",("empty",)),("set","i",C(0)),("while",0,("<",V("i"),V("n")),tuple(st)+(("set","i",add(V("i"),C(1))),)),("ret",V("out")))
app=lambda e:("append","out",e)
def cnt(e): return (("set","s",V("x")),("set","i",C(0)),("while",0,("<",V("i"),V("x")),((("set","s",e),) if e else ())+(("set","i",add(V("i"),C(1))),)),("ret",V("s")))
S=[
("o1",I,"int","int s = x; int &r = s; s = s + 1; return r;",R(add(V("x"),C(1))),[R(V("x"))]),
("o2",I,"int","int s = x; int *p = &s; *p = x + 3; return s;",R(add(V("x"),C(3))),[R(V("x"))]),
("o3",LN,"int","vector<int> &r = l; r.push_back(n); return l.size();",R(add(ln("l"),C(1))),[R(ln("l"))]),
("o4",LN,"int","vector<int> &r = l; l.push_back(n); return r.size();",R(add(ln("l"),C(1))),[R(ln("l"))]),
("o5",N,"list","vector<int> out; out.push_back(n); out[0] = n + 7; return out;",L(add(V("n"),C(7))),[L(V("n"))]),
("o6",LN,"int","if (l.size() > 0) { l[0] = n; return l[0]; } return 0;",(("if",(">",ln("l"),C(0)),R(V("n")),()),)+R(C(0)),[(("if",(">",ln("l"),C(0)),R(gl(C(0))),()),)+R(C(0))]),
("o7",N,"list","vector<int> out; vector<int> &o = out; o.push_back(n); out.push_back(1); return out;",L(V("n"),C(1)),[L(C(1)),L(V("n"))]),
("o8",N,"list","vector<int> out; vector<int> &o = out; for (int i = 0; i < n; i = i + 1) { o.push_back(i); } return out;",lst(app(V("i"))),[lst()]),
("o9",I,"int","int s = x; bump(s); return s;",R(add(V("x"),C(1))),[R(V("x"))]),
("o10",LN,"int","l.push_back(n); return l.size();",R(add(ln("l"),C(1))),[R(ln("l"))]),
("o11",IY,"int","exchange(x, y); return x - y;",R(("-",V("y"),V("x"))),[R(("-",V("x"),V("y")))]),
("o12",IY,"int","int *p = &x; if (x < y) { p = &y; } *p = *p + 1; return x;",(("if",("<",V("x"),V("y")),R(V("x")),()),)+R(add(V("x"),C(1))),[R(V("x")),R(add(V("x"),C(1)))]),
("o13",LL,"int","int s = 0; int &r = s; int i = 0; while (i < l.size()) { r = r + l[i]; i = i + 1; } return s;",summ,[R(C(0))]),
("o14",N,"list","vector<int> out; add(out, n); out.push_back(1); return out;",L(V("n"),C(1)),[L(C(1))]),
("o15",I,"int","return half(x) + 1;",R(add(("//",V("x"),C(2)),C(1))),[R(add(V("x"),C(1)))]),
("o16",N,"list","vector<int> out; out.push_back(n); out.clear(); out.push_back(1); return out;",L(C(1)),[L(V("n"),C(1))]),
("o17",N,"list","vector<int> out; out.push_back(n); out.push_back(n + 1); out.pop_back(); return out;",L(V("n")),[L(V("n"),add(V("n"),C(1)))]),
("o18",LN,"int","l.push_back(n); l.clear(); l.push_back(1); return l.size();",R(C(1)),[R(add(ln("l"),C(2)))]),
("o19",N,"list","vector<int> out; for (int i = 0; i < n; i = i + 1) { out.push_back(i); out[i] = n; } return out;",lst(app(V("n"))),[lst(app(V("i")))]),
("o20",I,"int","int s = x; for (int i = 0; i < x; i = i + 1) { bump(s); } return s;",cnt(add(V("s"),C(1))),[cnt(None)]),
("o21",IY,"int","int *p = &x; int *q = p; *q = y; return x;",R(V("y")),[R(V("x"))]),
("o22",IY,"int","int m = x; int &r = m; m = y; return r + m;",R(add(V("y"),V("y"))),[R(add(V("x"),V("y")))]),
("o23",LL,"list","vector<int> out; fill(out, l); out.push_back(1); return out;",(("set","out",("empty",)),("set","i",C(0)),("while",0,("<",V("i"),ln("l")),(app(gl(V("i"))),("set","i",add(V("i"),C(1))))),app(C(1)),("ret",V("out"))),[L(C(1))]),
("o24",[("l","ref"),("n","int")],"int","l.push_back(n); return l.size();",R(add(ln("l"),C(1))),[R(ln("l"))]),
("o25",[("l","ref"),("n","int")],"int","l.clear(); l.push_back(n); return l.size();",R(C(1)),[R(add(ln("l"),C(1))),R(ln("l"))]),
]
spec=[]
T={"int":"int","list":"vector<int>","ref":"vector<int> &"}
for n,ps,ret,text,body,wrong in S:
    locs=set()
    def w(b):
        for s in b:
            if s[0]=="set": locs.add((s[1],"list" if s[1]=="out" else "int"))
            if s[0]=="while": w(s[3])
    for b in [body]+wrong: w(b)
    c="%s %s(%s) {\n  %s\n}\n"%(T[ret],n,", ".join("%s %s"%(T[t],p) for p,t in ps),text)
    spec.append(dict(name=n,params=[(p,"list" if t=="ref" else t) for p,t in ps],ret=ret,locs=sorted(locs),body=body,wrong=wrong,text=c))
json.dump(spec,open(os.path.join(H, 'odd.json'),'w'),indent=0)
open(os.path.join(H, 'odd.cc'),'w').write(pre+"\n".join(d["text"] for d in spec))
