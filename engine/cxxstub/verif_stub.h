#pragma once
typedef unsigned long size_t;
extern "C" {
double pow(double, double); double exp(double); double tanh(double); double sin(double); double cos(double); double ceil(double); double floor(double); double fabs(double); double sqrt(double); double cosh(double); double sinh(double); double log(double); double fmax(double,double); double fmin(double,double); double round(double); double trunc(double); double fmod(double,double);
int abs(int);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *malloc(size_t); void *calloc(size_t,size_t); void free(void *); void exit(int); int rand(void); int printf(const char *, ...);
struct FILE; extern FILE *stderr; extern FILE *stdout; int fprintf(FILE *, const char *, ...);
}
#define RAND_MAX 2147483647
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#define NULL __null
#define DBL_MAX __DBL_MAX__
#define DBL_EPSILON __DBL_EPSILON__
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
#define INT_MAX __INT_MAX__
namespace std {
using ::size_t; using ::pow; using ::exp; using ::tanh; using ::sin; using ::cos; using ::ceil; using ::floor; using ::fabs; using ::sqrt; using ::memcpy; using ::memset; using ::malloc; using ::calloc; using ::free; using ::exit; using ::rand; using ::printf; using ::fprintf; using ::cosh; using ::sinh; using ::log; using ::fmax; using ::fmin; using ::round; using ::abs; using ::trunc; using ::fmod;
double abs(double);
template <class T> const T &max(const T &a, const T &b);
template <class T> const T &min(const T &a, const T &b);
template <class T> void swap(T &a, T &b);
template <class T> T *copy(const T *a, const T *b, T *c);
template <class T> T *copy_n(const T *a, size_t n, T *c);
template <class T, class U> void fill(T *a, T *b, const U &c);
template <class T, class U> T *fill_n(T *a, size_t n, const U &c);
template <class T> T *find(T *a, T *b, const T &c);
struct runtime_error { runtime_error(const char *); };
struct invalid_argument { invalid_argument(const char *); };
struct out_of_range { out_of_range(const char *); };
template <class T> class vector {
  public:
    vector(); explicit vector(size_t); vector(size_t, const T &); template <class I> vector(I, I);
    vector(const vector &); ~vector();
    void push_back(const T &); T &operator[](size_t); const T &operator[](size_t) const; T &at(size_t); size_t size() const; T *data(); const T *data() const; T *begin(); T *end(); void resize(size_t); void reserve(size_t); void clear(); bool empty() const; T &back();
    void assign(size_t, const T &);
};
template <class T> class unique_ptr;
template <class T> class unique_ptr<T[]> {
  public:
    unique_ptr(); explicit unique_ptr(T *); ~unique_ptr(); T &operator[](size_t) const; T *get() const; T *release();
};
template <class T> struct rmext { }; template <class T> struct rmext<T[]> { typedef T type; };
template <class T> unique_ptr<T> make_unique(size_t);
}
