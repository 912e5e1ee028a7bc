// Declarations with libc++'s names; metalift never sees the bodies.
namespace std { inline namespace __1 {
template <class T> class allocator { };
template <class T, class A = allocator<T> > class vector {
  T *b, *e, *c;
public:
  vector(); vector(const vector &); ~vector();
  unsigned long size() const;
  void push_back(const T &);
  void pop_back();
  void clear();
  T &operator[](unsigned long);
};
} }
using std::vector;
