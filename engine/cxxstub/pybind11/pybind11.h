#pragma once
#include "../verif_stub.h"
#include "../Python.h"
// declarations only: what each of these does is stated in engine/cbind.py
namespace std {
class string { public: string(); string(const char *); const char *c_str() const; };
string operator+(const string &, const string &);
string to_string(long);
class ostream { public: ostream &operator<<(ostream &(*)(ostream &)); };
class stringstream : public ostream { public: stringstream(); string str() const; };
typedef stringstream ostringstream;
template <class T> ostream &operator<<(ostream &, const T &);
ostream &endl(ostream &);
template <class T> class unique_ptr { public: explicit unique_ptr(T *); T *get() const; T *release(); };
template <class T, class... A> unique_ptr<T> make_unique(A &&...);
template <class T> T &&move(T &);
}
namespace pybind11 {
typedef long ssize_t;
struct value_error { value_error(const char *); value_error(const std::string &); };
struct type_error { type_error(const char *); type_error(const std::string &); };
struct index_error { index_error(const char *); index_error(const std::string &); };
struct handle { handle(); handle(PyObject *); };
struct object : handle { object(); };
struct str : object { str(const char *); };
struct module_ : object { };
template <class T> T reinterpret_borrow(handle);
template <class T> T reinterpret_steal(handle);
template <class T> object cast(T &&);
struct capsule : object { capsule(const void *, void (*)(void *)); };
struct dims { dims(long); dims(long, long); dims(long, long, long); };
struct array : object { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
template <class T, int F = array::forcecast> struct array_t : array {
    array_t(); array_t(dims, const T * = nullptr, handle = handle()); array_t(dims, dims, const T *, handle = handle());
    long ndim() const; long size() const; const long *shape() const; long shape(long) const; const T *data() const; T *mutable_data();
};
struct arg { arg(const char *); };
struct multiple_inheritance { };
struct dynamic_attr { };
template <class F> struct init_t { };
template <class F> init_t<F> init(F &&) { return init_t<F>(); }
template <class T, class... B> struct class_ : object {
    template <class... E> class_(handle, const char *, const E &...);
    template <class F, class... E> class_ &def(const char *, F &&, const E &...) { return *this; }
    template <class F, class... E> class_ &def(init_t<F> &&, const E &...) { return *this; }
    template <class C, class D, class... E> class_ &def_readwrite(const char *, D C::*, const E &...) { return *this; }
    template <class C, class D, class... E> class_ &def_readonly(const char *, D C::*, const E &...) { return *this; }
    template <class G, class S, class... E> class_ &def_property(const char *, G &&, S &&, const E &...) { return *this; }
    template <class G, class... E> class_ &def_property_readonly(const char *, G &&, const E &...) { return *this; }
};
}
#define PYBIND11_MODULE(name, m) void pybind11_module_init(pybind11::module_ &m)
