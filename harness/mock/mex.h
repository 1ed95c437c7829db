// Stand-in for Matlab's mex.h: arrays with a guard zone behind the data, and a record of what was printed.
#ifndef MOCK_MEX_H_
#define MOCK_MEX_H_
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#ifndef MOCK_MWSIZE
#define MOCK_MWSIZE size_t
#endif
typedef MOCK_MWSIZE mwSize;
typedef MOCK_MWSIZE mwIndex;
enum mxClassID { mxUNKNOWN_CLASS, mxCHAR_CLASS, mxDOUBLE_CLASS, mxINT32_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray_tag
{
  int cls = mxDOUBLE_CLASS; std::vector<size_t> dims; std::vector<int> idims; std::vector<double> data; size_t bytes = 0; std::string str;
  static const int GUARD = 64; // doubles
  void set(const std::vector<size_t> &d, int c)
  {
    dims = d; while (dims.size() > 2 && dims.back() == 1) dims.pop_back();
    idims.assign(dims.begin(), dims.end()); cls = c;
    size_t n = 1; for (size_t x : dims) n *= x;
    bytes = n * (c == mxINT32_CLASS ? 4 : 8);
    data.assign((bytes + 7) / 8 + GUARD, 0.0);
    memset((char *)data.data() + bytes, 0xA5, data.size() * 8 - bytes);
  }
  bool guardIntact() const { const unsigned char *p = (const unsigned char *)data.data(); for (size_t i = bytes; i < data.size() * 8; i++) if (p[i] != 0xA5) return false; return true; }
};
typedef struct mxArray_tag mxArray;
namespace mockmex { extern std::string printed; extern std::vector<mxArray *> created; }
inline size_t mxGetM(const mxArray *a) { return a->dims[0]; }
inline size_t mxGetN(const mxArray *a) { size_t n = 1; for (size_t i = 1; i < a->dims.size(); i++) n *= a->dims[i]; return n; }
inline size_t mxGetNumberOfElements(const mxArray *a) { return mxGetM(a) * mxGetN(a); }
inline mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->dims.size(); }
template <class T> struct MockDims;
template <> struct MockDims<size_t> { static const size_t *get(const mxArray *a) { return a->dims.data(); } };
template <> struct MockDims<int> { static const int *get(const mxArray *a) { return a->idims.data(); } };
inline const mwSize *mxGetDimensions(const mxArray *a) { return MockDims<mwSize>::get(a); }
inline void *mxGetData(const mxArray *a) { return (void *)a->data.data(); }
inline double *mxGetPr(const mxArray *a) { return (double *)a->data.data(); }
inline int mxGetString(const mxArray *a, char *buf, mwSize len)
{
  size_t n = a->str.size(); int rc = 0; if (n + 1 > (size_t)len) { n = len - 1; rc = 1; }
  memcpy(buf, a->str.data(), n); buf[n] = 0; return rc;
}
template <class N, class D> inline mxArray *mxCreateNumericArray(N nd, const D *d, mxClassID c, mxComplexity)
{ mxArray *a = new mxArray; a->set(std::vector<size_t>(d, d + nd), c); mockmex::created.push_back(a); return a; }
inline mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { mwSize d[2] = {m, n}; return mxCreateNumericArray(2, d, mxDOUBLE_CLASS, c); }
inline int mexPrintf(const char *f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, 512, f, ap); va_end(ap); mockmex::printed += b; return 0; }
#include <cstdlib>
inline mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID k, mxComplexity c) { mwSize d[2] = {m, n}; return mxCreateNumericArray(2, d, k, c); }
inline mxArray *mxCreateDoubleScalar(double x) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); a->data[0] = x; return a; }
inline double mxGetScalar(const mxArray *a) { return a->cls == mxINT32_CLASS ? (double)*(const int *)a->data.data() : a->data[0]; }
inline mxClassID mxGetClassID(const mxArray *a) { return (mxClassID)a->cls; }
inline bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
inline bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
inline bool mxIsNumeric(const mxArray *a) { return a->cls == mxDOUBLE_CLASS || a->cls == mxINT32_CLASS; }
inline bool mxIsComplex(const mxArray *) { return false; }
inline bool mxIsEmpty(const mxArray *a) { for (size_t x : a->dims) if (!x) return true; return false; }
inline void *mxMalloc(size_t n) { return malloc(n); }
inline void *mxCalloc(size_t n, size_t m) { return calloc(n, m); }
inline void mxFree(void *p) { free(p); }
#endif
