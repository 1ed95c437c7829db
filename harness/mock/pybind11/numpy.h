#ifndef MOCK_PYBIND11_NUMPY_H_
#define MOCK_PYBIND11_NUMPY_H_
#include "pybind11.h"
namespace pybind11
{
struct buffer_info { void *ptr; ssize_t itemsize, size, ndim; std::vector<ssize_t> shape, strides; };
struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
template <class T, int F = 16> class array_t : public object
{
public:
  array_t() { v->kind = Val::ARRAY; }
  array_t(std::initializer_list<size_t> s) { make(std::vector<size_t>(s)); }
  array_t(const std::vector<size_t> &s) { make(s); }
  array_t(size_t n, const T *src = nullptr) { make({n}); if (src) std::copy(src, src + v->d.size(), v->d.begin()); }
  array_t(std::initializer_list<size_t> s, const T *src) { make(std::vector<size_t>(s)); std::copy(src, src + v->d.size(), v->d.begin()); }
  array_t(const std::vector<ssize_t> &s) { make(std::vector<size_t>(s.begin(), s.end())); }
  explicit array_t(const object &o) : object(o) { if (v->kind != Val::ARRAY) throw value_error("array expected"); }
  ssize_t ndim() const { return v->shape.size(); }
  ssize_t size() const { return v->d.size(); }
  ssize_t shape(size_t i) const { if (i >= v->shape.size()) throw index_error("shape"); return v->shape[i]; }
  template <class... I> const T *data(I... i) const { return v->d.data() + offset({(size_t)i...}); }
  template <class... I> T *mutable_data(I... i) { return v->d.data() + offset({(size_t)i...}); }
  template <class... I> const T &at(I... i) const { return *data(i...); }
  template <class... I> T &mutable_at(I... i) { return *mutable_data(i...); }
  ssize_t itemsize() const { return sizeof(T); }
  ssize_t nbytes() const { return size() * sizeof(T); }
  const ssize_t *shape() const { sh.assign(v->shape.begin(), v->shape.end()); return sh.data(); }
  ssize_t strides(size_t k) const { ssize_t o = sizeof(T); for (size_t i = k + 1; i < v->shape.size(); i++) o *= v->shape[i]; return o; }
  buffer_info request() const { buffer_info b; b.ptr = v->d.data(); b.itemsize = sizeof(T); b.size = size(); b.ndim = ndim(); for (size_t i = 0; i < v->shape.size(); i++) { b.shape.push_back(v->shape[i]); b.strides.push_back(strides(i)); } return b; }
  struct Ref { array_t *a; template <class... I> T &operator()(I... i) const { return *a->mutable_data(i...); } ssize_t shape(size_t i) const { return a->shape(i); } ssize_t size() const { return a->size(); } T &operator[](size_t i) const { return *a->mutable_data(i); } };
  struct CRef { const array_t *a; template <class... I> const T &operator()(I... i) const { return *a->data(i...); } ssize_t shape(size_t i) const { return a->shape(i); } ssize_t size() const { return a->size(); } const T &operator[](size_t i) const { return *a->data(i); } };
  template <int N = -1> CRef unchecked() const { return CRef{this}; }
  template <int N = -1> Ref mutable_unchecked() { return Ref{this}; }
private:
  mutable std::vector<ssize_t> sh;
  void make(const std::vector<size_t> &s) { v->kind = Val::ARRAY; v->shape = s; size_t n = 1; for (size_t x : s) n *= x; v->d.assign(n, 0); }
  size_t offset(std::initializer_list<size_t> ix) const
  {
    if (ix.size() > v->shape.size()) throw index_error("too many indices");
    size_t o = 0, k = 0;
    for (size_t i : ix) { if (i >= v->shape[k]) throw index_error("index out of bounds"); o = o * v->shape[k] + i; k++; }
    for (; k < v->shape.size() && ix.size(); k++) o *= v->shape[k];
    return o;
  }
};
}
#endif
