#include "vec.h"
vector<int> h0(int x) {
  int t = (x * 2);
  vector<int> out;
  int i = 0;
  if (2 > x) {
    out.push_back((x + 2));
    return out;
  } else {
    t = (0 % 3);
  }
  while (i < x) {
    out.push_back((t / 2));
    i = (i + 1);
  }
  t = (x + 0);
  out.push_back((x * 3));
  return out;
}

int h1(int y, int x, int a) {
  int t = (y % 2);
  int i = 0;
  int j = 0;
  t = (a % 2);
  t = (3 % 3);
  for (; j < 3; j = (j + 1)) {
    t = (t + j);
    t = (t + (y % 2));
  }
  if ((3 < 0 && 0 < y)) {
    return (t - 3);
  } else {
    return (t + a);
  }
}

vector<int> h2(int a, int y) {
  int s = y;
  vector<int> out;
  int i = 0;
  if (1 > a) {
    return out;
  } else {
    out.push_back((y + a));
  }
  while (i < y) {
    out.push_back((i / 3));
    s = (s + i);
    i = (i + 1);
  }
  out.push_back((s + y));
  return out;
}

int h3(vector<int> l) {
  if (1 > (int) l.size()) {
    return 0;
  } else {
    l.push_back(2);
  }
  l.push_back((2 - (int) l.size()));
  l.push_back((-2));
  return (int) l.size();
}

vector<int> h4(int y) {
  int t = y;
  vector<int> out;
  int i = 0;
  while (i < y) {
    out.push_back(i);
    out.push_back((y + i));
    i = (i + 1);
  }
  out.push_back((y + t));
  if (y > i) {
    t = (2 + t);
  }
  t = (t - y);
  return out;
}

int h5(int n, vector<int> l) {
  int t = (n - (int) l.size());
  int i = 0;
  t = (t - (int) l.size());
  if (n > 3) {
    while (i < l.size()) {
      t = (t - l[i]);
      i = (i + 1);
    }
  } else {
    if (((int) l.size() < (int) l.size() && (int) l.size() <= t)) {
      t = (i - (int) l.size());
      return t;
    }
  }
  i = 1;
  while (i < n) {
    if (i <= t) {
      return t;
    } else {
      t = (t - i);
    }
    i = (i + 1);
  }
  return (t - t);
}

vector<int> h6(int y) {
  int t = 3;
  vector<int> out;
  int i = 0;
  for (; i < y; i = (i + 1)) {
    if ((y <= 2 && 2 <= i)) {
      out.push_back((y / 3));
    } else {
      out.push_back((i - y));
    }
  }
  out.push_back((-y));
  if (i > 2) {
    out.push_back((t + 1));
    return out;
  }
  out.push_back((t % 3));
  return out;
}

int h7(vector<int> l, int y) {
  if (y > (int) l.size()) {
    if (2 >= y) {
      return y;
    }
    return y;
  } else {
    return (int) l.size();
  }
}

vector<int> h8(int x, int n) {
  int n0 = n;
  int s = (n0 / 2);
  int acc = (x % 3);
  vector<int> out;
  int i = 0;
  for (; i < 3; i = (i + 1)) {
    out.push_back((1 + n));
  }
  acc = (n + x);
  out.push_back(n0);
  out.push_back((n - x));
  return out;
}

int h9(int x, vector<int> l) {
  int acc = (x - (int) l.size());
  int i = 0;
  int j = 0;
  while (j < x) {
    if (acc >= 2) {
      return (acc + x);
    }
    j = (j + 1);
  }
  acc = j;
  i = 0;
  while (i < l.size()) {
    acc = l[i];
    acc = (acc - (int) l.size());
    i = (i + 1);
  }
  return (acc + x);
}

vector<int> h10(int n) {
  int t = n;
  vector<int> out;
  int i = 0;
  for (; i < n; i = (i + 1)) {
    out.push_back((-n));
  }
  out.push_back((-t));
  return out;
}

int h11(int a, int y) {
  int acc = (a % 2);
  acc = (acc - y);
  return (acc - y);
}

vector<int> h12(int y) {
  int t = (-y);
  vector<int> out;
  int i = 0;
  while (i < y) {
    if (t > 1) {
      out.push_back((t + i));
    } else {
      out.push_back(y);
    }
    out.push_back((0 * 2));
    i = (i + 1);
  }
  out.push_back((-i));
  out.push_back((i % 2));
  t = y;
  return out;
}

vector<int> h13(int a, int y, int x) {
  int t = (x + 2);
  vector<int> out;
  int i = 0;
  out.push_back((0 - i));
  for (; i < x; i = (i + 1)) {
    out.push_back((i + t));
    out.push_back((i - 3));
  }
  if (a < 1) {
    return out;
  }
  i = 0;
  while (i < 3) {
    if ((0 < i && i <= a)) {
      t = (i - 0);
    } else {
      out.push_back((3 / 2));
    }
    t = (t + y);
    i = (i + 1);
  }
  return out;
}

vector<int> h14(int n, int x) {
  int s = (n % 3);
  vector<int> out;
  int i = 0;
  if (s > x) {
    out.push_back((n + s));
  }
  while (i < n) {
    out.push_back(x);
    i = (i + 1);
  }
  out.push_back((0 + s));
  if (x <= n) {
    s = (x % 2);
  }
  return out;
}

int h15(int x) {
  int s = 0;
  int t = s;
  t = s;
  t = (x + x);
  s = (s + t);
  return (t + 0);
}

vector<int> h16(vector<int> l, int x, int n, int y) {
  int t = (x % 3);
  int acc = (y % 2);
  vector<int> out;
  int i = 0;
  while (i < n) {
    if (i < acc) {
      out.push_back((t / 3));
    }
    i = (i + 1);
  }
  out.push_back((i - 2));
  if (x != 3) {
    acc = i;
  } else {
    acc = (-i);
  }
  if (acc <= t) {
    return out;
  }
  return out;
}

int h17(int n) {
  int t = (n - 0);
  int i = 0;
  t = (i + n);
  if (i >= t) {
    t = (i / 3);
  } else {
    t = (i % 3);
  }
  for (; i < n; i = (i + 1)) {
    if (3 >= i) {
      t = (t - (1 * 2));
      t = (n - i);
    } else {
      t = (t + (t - i));
    }
    t = (n + 3);
  }
  i = 1;
  for (; i < n; i = (i + 1)) {
    if (n <= t) {
      t = (t + (t - n));
    }
  }
  return t;
}

vector<int> h18(int n) {
  int t = (0 / 2);
  int acc = (-1);
  vector<int> out;
  int i = 0;
  for (; i < n; i = (i + 1)) {
    if (3 < i) {
      return out;
    }
  }
  out.push_back((acc + i));
  return out;
}

int h19(int x, vector<int> l, int y, int n) {
  int acc = x;
  if (2 >= x) {
    return acc;
  }
  acc = n;
  if (y > acc) {
    return acc;
  } else {
    return acc;
  }
}
