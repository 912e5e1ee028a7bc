#include "vec.h"
void bump(int &r) { r = r + 1; }
void exchange(int &a, int &b) { int t = a; a = b; b = t; }
void add(vector<int> &v, int n) { v.push_back(n); }
int half(int x) { return x / 2; }
void fill(vector<int> &v, vector<int> &w) { for (int i = 0; i < w.size(); i = i + 1) v.push_back(w[i]); }
int o1(int x) {
  int s = x; int &r = s; s = s + 1; return r;
}

int o2(int x) {
  int s = x; int *p = &s; *p = x + 3; return s;
}

int o3(vector<int> l, int n) {
  vector<int> &r = l; r.push_back(n); return l.size();
}

int o4(vector<int> l, int n) {
  vector<int> &r = l; l.push_back(n); return r.size();
}

vector<int> o5(int n) {
  vector<int> out; out.push_back(n); out[0] = n + 7; return out;
}

int o6(vector<int> l, int n) {
  if (l.size() > 0) { l[0] = n; return l[0]; } return 0;
}

vector<int> o7(int n) {
  vector<int> out; vector<int> &o = out; o.push_back(n); out.push_back(1); return out;
}

vector<int> o8(int n) {
  vector<int> out; vector<int> &o = out; for (int i = 0; i < n; i = i + 1) { o.push_back(i); } return out;
}

int o9(int x) {
  int s = x; bump(s); return s;
}

int o10(vector<int> l, int n) {
  l.push_back(n); return l.size();
}

int o11(int x, int y) {
  exchange(x, y); return x - y;
}

int o12(int x, int y) {
  int *p = &x; if (x < y) { p = &y; } *p = *p + 1; return x;
}

int o13(vector<int> l) {
  int s = 0; int &r = s; int i = 0; while (i < l.size()) { r = r + l[i]; i = i + 1; } return s;
}

vector<int> o14(int n) {
  vector<int> out; add(out, n); out.push_back(1); return out;
}

int o15(int x) {
  return half(x) + 1;
}

vector<int> o16(int n) {
  vector<int> out; out.push_back(n); out.clear(); out.push_back(1); return out;
}

vector<int> o17(int n) {
  vector<int> out; out.push_back(n); out.push_back(n + 1); out.pop_back(); return out;
}

int o18(vector<int> l, int n) {
  l.push_back(n); l.clear(); l.push_back(1); return l.size();
}

vector<int> o19(int n) {
  vector<int> out; for (int i = 0; i < n; i = i + 1) { out.push_back(i); out[i] = n; } return out;
}

int o20(int x) {
  int s = x; for (int i = 0; i < x; i = i + 1) { bump(s); } return s;
}

int o21(int x, int y) {
  int *p = &x; int *q = p; *q = y; return x;
}

int o22(int x, int y) {
  int m = x; int &r = m; m = y; return r + m;
}

vector<int> o23(vector<int> l) {
  vector<int> out; fill(out, l); out.push_back(1); return out;
}

int o24(vector<int> & l, int n) {
  l.push_back(n); return l.size();
}

int o25(vector<int> & l, int n) {
  l.clear(); l.push_back(n); return l.size();
}
