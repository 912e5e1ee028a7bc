#include "vec.h"
vector<int> foo(int x, int a) {
  int t = (x / 2);
  vector<int> out;
  int i = 0;
  for (; i < a; i = (i + 1)) {
    if (t <= 2) {
      t = (t + (3 - i));
      t = (-a);
    } else {
      out.push_back((a - t));
    }
  }
  t = 0;
  return out;
}

int foo_ps(int n, int a) {
  int s = (a + n);
  int i = 0;
  int j = 0;
  s = j;
  while (i < a) {
    if (1 < a) {
      s = (s + (-3));
      i = (i + 1);
      continue;
    }
    s = n;
    i = (i + 1);
  }
  if (n > i) {
    j = 0;
    while (j < n) {
      if (a >= 0) {
        s = (i + n);
      } else {
        s = (s + (j + s));
      }
      j = (j + 1);
    }
  } else {
    if (2 > a) {
      s = (a * 2);
      return s;
    } else {
      return s;
    }
  }
  return (s + n);
}

int bar(int n, int a, int y) {
  int n0 = n;
  int t = (1 - y);
  int i = 0;
  if (a >= n) {
    return (t + t);
  }
  int j = 0;
  for (; i < y; i = (i + 1)) {
    j = 0;
    while (j < i) {
      t = (t + i);
      j = (j + 1);
    }
    n = (0 - n);
  }
  return t;
}

int foo_ps_bar(int n, int x) {
  int acc = (3 - 2);
  if (n > 2) {
    return (n - x);
  } else {
    acc = (2 - n);
  }
  if (x > acc) {
    return acc;
  }
  return (acc + 0);
}

int sum_ps_x(int a, int n) {
  int n0 = n;
  int acc = (-0);
  int i = 0;
  n = (2 + 0);
  while (i < a) {
    if ((i > n0 && (a <= n && n < i))) {
      return acc;
    }
    if ((n > 1 || a <= acc)) {
      acc = (acc - (a + n));
    }
    i = (i + 1);
  }
  return acc;
}

int inv0(int x, int y, int a) {
  int s = (y + 2);
  int i = 0;
  int j = 0;
  s = (a * 3);
  while (i < a) {
    if (2 > i) {
      s = (3 - y);
      i = (i + 1);
      continue;
    }
    s = (i - 1);
    i = (i + 1);
  }
  j = 1;
  for (; j < x; j = (j + 1)) {
    if (y < 3) {
      return (x - s);
    } else {
      s = a;
    }
    if (0 < x) {
      s = (s + (i * 2));
      continue;
    }
    s = (s + a);
  }
  s = (a / 2);
  return (s - 2);
}

int baz_inv(int y, vector<int> l, int n, int a) {
  int t = (n + y);
  int acc = y;
  int i = 0;
  while (i < (int) l.size()) {
    t = (a + 3);
    acc = (acc - l[(((int) l.size() - 1) - i)]);
    i = (i + 1);
  }
  if ((int) l.size() < a) {
    return ((y - a) + t);
  } else {
    return t;
  }
}

int f7(int a, int y) {
  int t = a;
  if (y < 0) {
    t = (t + 1);
  }
  if (y >= a) {
    return (t - a);
  } else {
    return t;
  }
}

int f8(int a) {
  int s = (a - 3);
  int i = 0;
  s = (3 - a);
  if (i > a) {
    s = i;
    s = (i + s);
  }
  s = (0 + 1);
  int j = 0;
  for (; i < a; i = (i + 1)) {
    s = (-a);
    j = 0;
    while (j < (i + 1)) {
      s = (s + (i + j));
      j = (j + 1);
    }
    s = (s - 1);
  }
  return (s + i);
}

int f9(int n, int x, int y) {
  int x0 = x;
  int t = (x0 + 2);
  int s = (-1);
  int i = 0;
  if (2 > y) {
    return (x + 1);
  } else {
    return x;
  }
}

vector<int> f10(int x, int n, int a) {
  int x0 = x;
  int s = x;
  vector<int> out;
  int i = 0;
  out.push_back(n);
  if (s > a) {
    x = 0;
  } else {
    return out;
  }
  x = (i * 3);
  while (i < n) {
    if (2 > a) {
      out.push_back((x0 / 2));
    } else {
      out.push_back((0 + i));
    }
    if ((2 <= s && s <= x0)) {
      s = (s + (i + x0));
      s = (a - i);
    } else {
      out.push_back((i + n));
    }
    i = (i + 1);
  }
  return out;
}

int f11(int x, int a, int n) {
  int t = (3 + n);
  t = (0 - x);
  if (a < 2) {
    t = (n - x);
    return (t + 1);
  }
  return (t + x);
}

vector<int> f12(int x) {
  int s = (3 * 3);
  vector<int> out;
  int i = 0;
  int j = 0;
  while (i < x) {
    j = 0;
    for (; j < i; j = (j + 1)) {
      out.push_back(x);
    }
    out.push_back((x + s));
    i = (i + 1);
  }
  s = (i - 2);
  s = x;
  if (i <= x) {
    return out;
  } else {
    return out;
  }
}

vector<int> f13(int x, int a, int y) {
  int t = (x + a);
  vector<int> out;
  int i = 0;
  out.push_back((-x));
  int j = 0;
  for (; i < x; i = (i + 1)) {
    out.push_back((x + a));
    j = 0;
    while (j < y) {
      out.push_back(y);
      j = (j + 1);
    }
  }
  return out;
}

int f14(int a, int y) {
  int s = a;
  int i = 0;
  s = (0 - a);
  for (; i < 2; i = (i + 1)) {
    if (0 <= a) {
      s = (s + (y - s));
    }
  }
  if (i >= s) {
    return s;
  } else {
    s = 3;
  }
  return (s - i);
}

int f15(vector<int> l, int y) {
  l.push_back((y - 1));
  if (y > 0) {
    return y;
  } else {
    l.push_back((y - 0));
  }
  return ((2 + 1) - ((int) l.size() - y));
}

vector<int> f16(int a, int x, vector<int> l, int n) {
  int x0 = x;
  int t = (0 + a);
  vector<int> out;
  int i = 0;
  if (x <= 1) {
    out.push_back((a + n));
    return out;
  } else {
    t = 2;
  }
  out.push_back((-x0));
  for (; i < a; i = (i + 1)) {
    if (n <= 0) {
      return out;
    }
  }
  out.push_back((1 + n));
  return out;
}

int f17(int y, int a) {
  int s = (-2);
  int t = (y - a);
  int i = 0;
  if (((t <= 1 && 1 <= s) || (a < y && y <= s))) {
    return (s + 3);
  } else {
    return y;
  }
}

int f18(vector<int> l, int a, int n) {
  int s = a;
  int i = 0;
  if ((i < n && (i < a && a < (int) l.size()))) {
    s = (n + a);
  } else {
    for (; i < l.size(); i = (i + 1)) {
      if ((int) l.size() == n) {
        s = (s + l[i]);
      }
      s = (s + ((int) l.size() - l[(((int) l.size() - 1) - i)]));
    }
  }
  if (a < i) {
    return (i + n);
  }
  if (((int) l.size() >= i && a > i)) {
    return (int) l.size();
  }
  return s;
}

vector<int> f19(int a, vector<int> l) {
  int acc = (-a);
  int t = (int) l.size();
  vector<int> out;
  int i = 0;
  out.push_back((t + i));
  out.push_back(acc);
  if ((t >= (int) l.size() || t < (int) l.size())) {
    out.push_back((a - acc));
  } else {
    out.push_back((-t));
  }
  int j = 0;
  for (; i < l.size(); i = (i + 1)) {
    acc = (t - l[i]);
    j = 0;
    while (j < i) {
      out.push_back(j);
      j = (j + 1);
    }
    if (acc >= t) {
      acc = l[i];
    }
  }
  return out;
}

vector<int> f20(int n, int a, int y) {
  int s = (y + n);
  int t = 3;
  vector<int> out;
  int i = 0;
  while (i < a) {
    if (3 <= s) {
      out.push_back(n);
      return out;
    } else {
      out.push_back(s);
    }
    t = (-3);
    i = (i + 1);
  }
  if (0 >= a) {
    return out;
  }
  return out;
}

int f21(int y, int n) {
  int y0 = y;
  int s = y;
  int i = 0;
  int j = 0;
  if (3 >= y) {
    return ((3 - 2) + (i - y));
  }
  y = (y0 + 2);
  while (i < 3) {
    s = i;
    if (2 > n) {
      return (3 + y0);
    } else {
      y = (y + (j - y));
    }
    i = (i + 1);
  }
  i = 1;
  for (; i < n; i = (i + 1)) {
    s = (s + i);
    if ((y0 > 0 && y > n)) {
      s = (s + (n + 1));
    }
  }
  if (j <= n) {
    y = (i + s);
    return s;
  } else {
    return (j + n);
  }
}
