// Drives the compiled library (BF.cc of the tree under test, compiled beside this file with sanitizers).
// argv[1]: file with one case per line; prints "ok <i>" after each.
#include <Python.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <stdexcept>
#include "BF.h"
extern "C" PyObject *PyCapsule_New(void *, const char *, void (*)(PyObject *)) { return nullptr; }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef ASAN
#include <sanitizer/allocator_interface.h>
#include <set>
static bool track = false;
static int nest = 0;
static std::set<const volatile void *> *live;
static void on_m(const volatile void *p, size_t) { if (track && !nest) { nest++; live->insert(p); nest--; } }
static void on_f(const volatile void *p) { if (track && !nest) { nest++; live->erase(p); nest--; } }
#endif
static void begin() {
#ifdef ASAN
    live->clear(); track = true;
#endif
}
static void end(const void *keep, const char *what) {
#ifdef ASAN
    track = false;
    for (auto p : *live) if (p != keep) { printf("LEAK %s: %zu bytes allocated during the call were not released\n", what, __sanitizer_get_allocated_size((const void *)p)); fflush(stdout); exit(66); }
#endif
}
static void checkbuf(const double *F, long nr, long nc, long er, long ec, const char *what) {
    if (nr != er || nc != ec) { printf("SHAPE %s announced %ldx%ld, expected %ldx%ld\n", what, nr, nc, er, ec); fflush(stdout); exit(67); }
#ifdef ASAN
    if (nr * nc > 0 && __sanitizer_get_allocated_size(F) != (size_t)(nr * nc) * sizeof(double)) { printf("SIZE %s buffer has %zu bytes, announced %ld\n", what, __sanitizer_get_allocated_size(F), nr * nc * 8); fflush(stdout); exit(68); }
#endif
#ifdef MSAN
    __msan_check_mem_is_initialized(F, nr * nc * sizeof(double));
#else
    volatile double s = 0; for (long i = 0; i < nr * nc; i++) s += F[i];
#endif
}
template <class T> static T *heap(const std::vector<T> &v) { T *p = (T *)malloc(v.size() * sizeof(T) + (v.size() ? 0 : 1)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
static std::vector<double> pts(int n, int s) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(0.1 + 0.17 * ((i * 7 + s) % 11)); return v; }
struct Case { std::string kind, cls; int dim, m; std::vector<int> nC; int numC, n; std::vector<int> d; int full; std::string path; long width; };

template <class F> static void call1(BasisFunc *o, F mk, const Case &c) {}
static BasisFunc *mk1(const Case &c, int *nC) {
    double a = 0.5, b = 3.;
    int k = c.nC.size();
#define M(T) if (c.cls == #T) return new T(a, b, nC, k, c.m);
    M(CP) M(LeP) M(LaP) M(HoPpro) M(HoPphy) M(FS) M(ELMSigmoid) M(ELMReLU) M(ELMTanh) M(ELMSin) M(ELMSwish)
    abort();
}
static nBasisFunc *mkn(const Case &c, int *nC, double *x0, double *xf) {
#undef M
#define M(T) if (c.cls == #T) return new T(x0, c.dim, xf, c.dim, nC, c.dim, c.numC, c.m);
    M(nCP) M(nLeP) M(nFS)
#undef M
#define M(T) if (c.cls == #T) return new T(x0, c.dim, xf, c.dim, nC, c.nC.size(), c.m);
    M(nELMSigmoid) M(nELMTanh) M(nELMSin) M(nELMSwish) M(nELMReLU)
    abort();
}
static void runcase(const Case &c) {
    int *nC = heap(c.nC);
    bool nd = c.kind == "nd";
    double *x0 = heap(std::vector<double>(c.dim, 0.5)), *xf = heap(std::vector<double>(c.dim, 3.));
    BasisFunc *o; nBasisFunc *no = nullptr;
    if (nd) { no = mkn(c, nC, x0, xf); o = no; } else o = mk1(c, nC);
    free(nC); free(x0); free(xf);
    double *x = heap(pts(c.n * (nd ? c.dim : 1), 3));
    int *d = heap(c.d);
    if (c.path == "H") {
        int nO = -1, mO = -1; double *F = nullptr;
        begin();
        if (nd) no->H(x, c.dim, c.n, d, c.d.size(), &nO, &mO, &F, c.full); else o->H(x, c.n, c.d[0], &nO, &mO, &F, c.full);
        end(F, "H");
        checkbuf(F, nO, mO, c.n, c.width, "H");
        free(F);
    } else if (c.path == "xla") {
        double *out = (double *)malloc(c.n * c.width * sizeof(double));
        int *id = heap(std::vector<int>{o->identifier}), *n = heap(std::vector<int>{c.n}), *mo = heap(std::vector<int>{(int)c.width}), *nd0 = heap(std::vector<int>{(int)c.d.size()});
        bool *fl = (bool *)malloc(sizeof(bool)); *fl = c.full;
        std::vector<void *> in = nd ? std::vector<void *>{id, x, d, nd0, fl, n, mo} : std::vector<void *>{id, x, d, fl, n, mo};
        void **inp = heap(in);
        void xlaWrapper(void *, void **);
        begin();
        xlaWrapper(out, inp);
        end(nullptr, "xla");
        checkbuf(out, c.n, c.width, c.n, c.width, "xla");
        free(out); free(id); free(n); free(mo); free(nd0); free(fl); free(inp);
    } else { // set / get
        int k = 0, k2 = 0; double *p = nullptr;
        ELM *e = dynamic_cast<ELM *>(o); nELM *q = dynamic_cast<nELM *>(o);
        double *w = heap(pts(c.m * (nd ? c.dim : 1), 1)), *b = heap(pts(c.m, 2));
        begin();
        if (e) { e->setW(w, c.m); e->setB(b, c.m); } else { q->setW(w, c.dim, c.m); q->setB(b, c.m); }
        end(nullptr, "set");
        begin(); if (e) { e->getW(&p, &k); k2 = 1; } else q->getW(&k2, &k, &p); end(p, "getW");
        checkbuf(p, k2, k, nd ? c.dim : 1, c.m, "getW"); free(p);
        begin(); if (e) e->getB(&p, &k); else q->getB(&p, &k); end(p, "getB");
        checkbuf(p, 1, k, 1, c.m, "getB"); free(p);
        free(w); free(b);
    }
    free(x); free(d);
    delete o;
}
int main(int argc, char **argv) {
#ifdef ASAN
    live = new std::set<const volatile void *>();
    __sanitizer_install_malloc_and_free_hooks(on_m, on_f);
#endif
    FILE *f = fopen(argv[1], "r");
    char k0[64], k1[64], k2[64]; int i = 0;
    Case z;
    while (fscanf(f, "%63s %63s", k0, k1) == 2) {
        Case c; int k, v; c.kind = k0; c.cls = k1;
        if (fscanf(f, "%d %d %d %d", &c.dim, &c.m, &c.numC, &k) != 4) return 3;
        for (int j = 0; j < k; j++) { if (fscanf(f, "%d", &v) != 1) return 3; c.nC.push_back(v); }
        if (fscanf(f, "%d %d", &c.n, &k) != 2) return 3;
        for (int j = 0; j < k; j++) { if (fscanf(f, "%d", &v) != 1) return 3; c.d.push_back(v); }
        if (fscanf(f, "%d %63s %ld", &c.full, k2, &c.width) != 3) return 3;
        c.path = k2;
        printf("case %d\n", i); fflush(stdout);
        runcase(c);
        i++;
    }
    printf("done %d\n", i);
    return 0;
}
