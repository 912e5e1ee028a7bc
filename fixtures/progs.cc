#include "vec.h"
int sum_sq(vector<int> xs) {
  int ss = 0;
  for (int i = 0; i < xs.size(); i++) ss = ss + xs[i] * xs[i];
  return ss;
}
vector<int> blend(vector<int> base, vector<int> active, int opacity) {
  vector<int> out;
  for (int i = 0; i < base.size(); i++) out.push_back(opacity * active[i] + (1 - opacity) * base[i]);
  return out;
}
int triangle(int n) {
  int s = 0;
  for (int i = 0; i < n; i++) s = s + i;
  return s;
}
vector<int> vmax(vector<int> base, vector<int> active) {
  vector<int> out;
  for (int i = 0; i < base.size(); i++) {
    int pixel;
    if (base[i] > active[i]) pixel = base[i]; else pixel = active[i];
    out.push_back(pixel);
  }
  return out;
}
vector<vector<int> > madd(vector<vector<int> > base, vector<vector<int> > active) {
  vector<vector<int> > out;
  int m = base.size();
  int n = base[0].size();
  for (int row = 0; row < m; row++) {
    vector<int> row_vec;
    for (int col = 0; col < n; col++) {
      int pixel = base[row][col] + active[row][col];
      row_vec.push_back(pixel);
    }
    out.push_back(row_vec);
  }
  return out;
}
vector<vector<int> > darken(vector<vector<int> > base, vector<vector<int> > active) {
  vector<vector<int> > out;
  int m = base.size();
  int n = base[0].size();
  for (int row = 0; row < m; row++) {
    vector<int> row_vec;
    for (int col = 0; col < n; col++) {
      int pixel;
      if (base[row][col] > active[row][col]) pixel = active[row][col]; else pixel = base[row][col];
      row_vec.push_back(pixel);
    }
    out.push_back(row_vec);
  }
  return out;
}
vector<vector<int> > dissolve_blend_8(vector<vector<int> > base, vector<vector<int> > active, int opacity, int rand_cons) {
  vector<vector<int> > out;
  int m = base.size();
  int n = base[0].size();
  for (int row = 0; row < m; row++) {
    vector<int> row_vec;
    for (int col = 0; col < n; col++) {
      int rand_val = ((rand_cons % 100) + 1) / 100;
      int pixel;
      if (opacity - rand_val >= 0) pixel = active[row][col]; else pixel = base[row][col];
      row_vec.push_back(pixel);
    }
    out.push_back(row_vec);
  }
  return out;
}
