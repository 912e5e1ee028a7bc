#include "vec.h"
int g0(int x, int a) {
  int x0 = x;
  int t = x;
  int i = 0;
  x = (2 / 2);
  while (i < 3) {
    if (a < t) {
      x = (t + a);
      t = (i - x0);
    } else {
      x = (x - 1);
    }
    if (x <= a) {
      return (t + (x * 2));
    } else {
      x = (3 - x0);
    }
    i = (i + 1);
  }
  if (i <= x0) {
    return (t + (x * 2));
  } else {
    x = 1;
  }
  if (t <= x0) {
    x = 0;
    return t;
  } else {
    x = (x + t);
  }
  return x;
}

int g1(int n, int x, int y) {
  int t = n;
  int i = 0;
  int j = 0;
  while (j < x) {
    t = (t + (i + n));
    j = (j + 1);
  }
  if (i > t) {
    return t;
  } else {
    return t;
  }
}

int g2(int a, int y) {
  int t = (y + a);
  int acc = (3 + 1);
  int i = 0;
  int j = 0;
  while (i < y) {
    j = 0;
    for (; j < a; j = (j + 1)) {
      t = (t + (i + j));
    }
    if ((0 >= a && 0 > acc)) {
      t = (t + 1);
      t = (i - acc);
    }
    i = (i + 1);
  }
  if (i == t) {
    return (t + 2);
  } else {
    return (t * 2);
  }
}

int g3(int n) {
  if (n > 2) {
    if (n < n) {
      return ((n - 0) + (n * 3));
    }
  } else {
    if (2 < n) {
      return (0 - n);
    }
  }
  if ((n <= n && n < n)) {
    return (2 + n);
  } else {
    return n;
  }
}

vector<int> g4(int a, int x) {
  int s = a;
  vector<int> out;
  int i = 0;
  out.push_back((i + a));
  while (i < a) {
    out.push_back((a + i));
    i = (i + 1);
  }
  return out;
}

vector<int> g5(int y, int n, vector<int> l) {
  int acc = (n / 2);
  vector<int> out;
  int i = 0;
  acc = (y + (int) l.size());
  if (i < acc) {
    out.push_back((acc - (int) l.size()));
  }
  int j = 0;
  for (; i < y; i = (i + 1)) {
    if ((int) l.size() > 0) {
      acc = l[0];
    }
    out.push_back((n - i));
    j = 0;
    while (j < (i + 1)) {
      out.push_back(j);
      j = (j + 1);
    }
  }
  return out;
}

int g6(int x, int a) {
  int x0 = x;
  int s = (x - x0);
  int acc = x;
  int i = 0;
  if (x > acc) {
    return x;
  } else {
    s = 0;
  }
  for (; i < 3; i = (i + 1)) {
    if (i <= s) {
      return (s + (acc * 2));
    } else {
      s = (s + 3);
    }
    acc = (-acc);
  }
  if (a <= acc) {
    return s;
  }
  s = (s + 1);
  return x;
}

int g7(int x, int a) {
  if (x > 1) {
    return ((x + a) + (x - a));
  } else {
    return ((-a) + a);
  }
}

int g8(int n, int x, int y) {
  int s = (y + x);
  int t = (s * 3);
  int i = 0;
  s = i;
  s = (1 + s);
  if (t >= s) {
    t = (t + n);
  } else {
    return (t - x);
  }
  int j = 0;
  for (; i < 3; i = (i + 1)) {
    j = 0;
    for (; j < i; j = (j + 1)) {
      if (j < 1) {
        t = (t + x);
      }
    }
    t = (t + (3 - y));
  }
  return (t + y);
}

int g9(int n) {
  int s = (3 + 2);
  int i = 0;
  int j = 0;
  if (j < 1) {
    return (s + n);
  } else {
    return s;
  }
}

int g10(int a, vector<int> l, int y, int n) {
  int acc = (a * 2);
  int i = 0;
  if ((int) l.size() < i) {
    return acc;
  } else {
    acc = (a - acc);
  }
  for (; i < l.size(); i = (i + 1)) {
    if (l[i] < n) {
      acc = (acc + (a - l[i]));
      acc = (a + l[(((int) l.size() - 1) - i)]);
    }
    if (l[i] > 2) {
      acc = l[i];
    }
  }
  return acc;
}

int g11(int x, vector<int> l) {
  int t = ((int) l.size() - 2);
  int i = 0;
  if ((int) l.size() > 0) {
    t = l[0];
  }
  int j = 0;
  for (; i < l.size(); i = (i + 1)) {
    j = 0;
    while (j < i) {
      t = (t + (i + j));
      j = (j + 1);
    }
    if (((int) l.size() <= x && x <= i)) {
      t = i;
    } else {
      t = (i - t);
    }
    if (3 <= i) {
      t = (t + (x - l[i]));
    }
  }
  return t;
}

int g12(int a, int n) {
  int a0 = a;
  int acc = (a0 * 3);
  int i = 0;
  for (; i < 2; i = (i + 1)) {
    a = (a0 + 3);
    acc = (acc + i);
  }
  a = (2 * 2);
  return (acc + (a * 2));
}

int g13(int a, int y, int n) {
  int acc = (n - a);
  int i = 0;
  int j = 0;
  while (i < y) {
    acc = (i + n);
    i = (i + 1);
  }
  i = 0;
  while (i < a) {
    acc = (acc - (n + i));
    i = (i + 1);
  }
  if (acc < 0) {
    acc = (y + i);
    acc = (y - j);
  }
  return (acc - 2);
}

int g14(int n, int x) {
  int acc = (x + 0);
  int i = 0;
  if (x >= n) {
    return acc;
  }
  if (x >= 0) {
    return n;
  } else {
    return (acc - x);
  }
}

int g15(int x, int a) {
  int s = (x + a);
  if (1 >= a) {
    return (s - s);
  } else {
    return s;
  }
}

int g16(int y, int n, int x) {
  int acc = (x * 2);
  int i = 0;
  for (; i < y; i = (i + 1)) {
    if (x >= i) {
      acc = (acc + y);
      continue;
    }
    return acc;
  }
  if (1 >= acc) {
    return (acc - y);
  }
  acc = (n + acc);
  return (acc - y);
}

int g17(int a, int y) {
  int s = (y + a);
  int i = 0;
  int j = 0;
  while (i < a) {
    s = (s - (y - s));
    if ((j <= s && s <= j)) {
      s = (s + (s - a));
    } else {
      s = (s - (j - y));
    }
    i = (i + 1);
  }
  if (i >= j) {
    i = 0;
    while (i < 3) {
      if (i < 3) {
        s = (s - (1 + 2));
        s = (s + a);
      } else {
        s = (s + (i - 1));
      }
      i = (i + 1);
    }
  }
  if (j == s) {
    s = i;
    return (s + j);
  } else {
    return s;
  }
}

int g18(int x, int a) {
  int a0 = a;
  int acc = (a0 - 2);
  int i = 0;
  a = (2 + 3);
  while (i < x) {
    if (acc >= 2) {
      acc = (acc + (acc / 3));
    } else {
      a = (0 * 3);
    }
    acc = (0 + a);
    i = (i + 1);
  }
  if ((a >= acc && 2 < a0)) {
    return a;
  } else {
    return acc;
  }
}

int g19(int y, int x) {
  int acc = (x * 3);
  if (y > x) {
    acc = (y * 2);
  } else {
    acc = (x - 0);
  }
  acc = (-x);
  acc = (acc - 0);
  return (acc - y);
}
