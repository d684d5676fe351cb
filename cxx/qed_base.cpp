// C interface to the quantum modules that need no engine tables: quantum parameters, Schwinger engine, lookup tables,
// containers, numeric utilities. REAL is float or double; arrays at the interface are double.
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <new>
#include <vector>
#include "qed_commons.h"
#include "chi_functions.hpp"
#include "picsar_vector.hpp"
#include "picsar_array.hpp"
#include "lookup_tables.hpp"
#include "utilities.hpp"
#include "quadrature.hpp"
#include "special_functions.hpp"
#include "rng_wrapper.hpp"
#include "schwinger_pair_engine.hpp"
#include "script_rng.hpp"
using namespace picsar::multi_physics;
typedef REAL R;
#define X extern "C"

X void constants(double* o) {
    const double v[] = {__c, __emass, __schwinger, __pair_prod_coeff, __quantum_synchrotron_rate_coeff, __schwinger_coeff, pi,
        electron_mass, elementary_charge, light_speed, reduced_plank, vacuum_permittivity, fine_structure,
        si_gigameter, si_megameter, si_kilometer, si_meter, si_decimeter, si_centimeter, si_millimeter, si_micrometer,
        si_nanometer, si_picometer, si_femtometer};
    std::copy(v, v + sizeof(v) / sizeof(v[0]), o);
}
X void chi(int lep, int n, const double* p, const double* f, double lam, int dflt, double* o) {
    for (int i = 0; i < n; i++) {
        R a[3], b[6];
        for (int k = 0; k < 3; k++) a[k] = (R)p[3 * i + k];
        for (int k = 0; k < 6; k++) b[k] = (R)f[6 * i + k];
        if (dflt)
            o[i] = lep ? chi_lepton<R>(a[0], a[1], a[2], b[0], b[1], b[2], b[3], b[4], b[5]) : chi_photon<R>(a[0], a[1], a[2], b[0], b[1], b[2], b[3], b[4], b[5]);
        else
            o[i] = lep ? chi_lepton<R>(a[0], a[1], a[2], b[0], b[1], b[2], b[3], b[4], b[5], (R)lam) : chi_photon<R>(a[0], a[1], a[2], b[0], b[1], b[2], b[3], b[4], b[5], (R)lam);
    }
}
// ---------------------------------------------------------------- Schwinger
typedef schwinger_pair_engine<R, ScriptRng<R>> SE;
X void* sw_new(double lam, const double* u, int n) { return new SE(ScriptRng<R>(u, n), (R)lam); }
X void* sw_new_default(const double* u, int n) { return new SE(ScriptRng<R>(u, n)); }
X void* sw_copy(void* h) { return new SE(*(SE*)h); }
X void* sw_move(void* h) { return new SE(std::move(*(SE*)h)); }
X void sw_del(void* h) { delete (SE*)h; }
X double sw_lambda(void* h) { return ((SE*)h)->get_lambda(); }
X void sw_set_lambda(void* h, double l) { ((SE*)h)->set_lambda((R)l); }
#define FB (R)f[0], (R)f[1], (R)f[2], (R)f[3], (R)f[4], (R)f[5]
X double sw_rate(void* h, const double* f) { return ((SE*)h)->compute_schwinger_pair_production_rate(FB); }
static double slam(double l) {
#ifdef PXRMP_WITH_SI_UNITS
    static const double t[] = {1.0, 8e-7, 3.5, 0.0, 1e-6}; static unsigned k = 0; (void)l; return t[k++ % 5];
#else
    return l;
#endif
}
X double sw_rate_static(const double* f, double lam) { return SE::internal_compute_schwinger_pair_production_rate(FB, (R)lam); }
X void sw_single(void* h, const double* f, const double* d, double* o) {
    auto r = ((SE*)h)->generate_pairs_single(FB, (R)d[0], (R)d[1], (R)d[2], (R)d[3]); o[0] = r.first; o[1] = r.second;
}
X void sw_single_static(const double* f, const double* d, double lam, double u, double* o) {
    bool b = false; R w = 0; SE::internal_generate_pairs_single(FB, (R)d[0], (R)d[1], (R)d[2], (R)d[3], &b, &w, (R)slam(lam), (R)u); o[0] = b; o[1] = w;
}
X void sw_multi(void* h, const double* f, const double* d, double* o) {
    auto r = ((SE*)h)->generate_pairs_multiple(FB, (R)d[0], (R)d[1], (R)d[2], (R)d[3]); o[0] = (double)r.first; o[1] = r.second;
}
X void sw_multi_static(const double* f, const double* d, double lam, double u, double* o) {
    size_t b = 0; R w = 0; SE::internal_generate_pairs_multiple(FB, (R)d[0], (R)d[1], (R)d[2], (R)d[3], &b, &w, (R)slam(lam), (R)u); o[0] = (double)b; o[1] = w;
}
X void sw_pos(void* h, double* o) { auto r = ((SE*)h)->get_new_pair_position(); for (int i = 0; i < 3; i++) o[i] = r[i]; }
// ---------------------------------------------------------------- lookup tables
// raw views carry 16 NaN before and after, so that a read outside shows in the result
struct Raw {
    std::vector<R> b; size_t n;
    Raw(const double* d, size_t m) : b(m + 32, (R)NAN), n(m) { for (size_t i = 0; i < m; i++) b[16 + i] = (R)d[i]; }
    R* p() { return b.data() + 16; }
    bool ok() { for (size_t i = 0; i < 16; i++) if (b[i] == b[i] || b[16 + n + i] == b[16 + n + i]) return false; return true; }
};
struct T1 { std::unique_ptr<Raw> c, d; lookup_1d<R> t; };
struct T2 { std::unique_ptr<Raw> c, e, d; lookup_2d<R> t; };
static picsar_vector<R> pv(const double* d, size_t n) { std::vector<R> v(n); for (size_t i = 0; i < n; i++) v[i] = (R)d[i]; return picsar_vector<R>(v); }
X void* t1_new(int raw, int n, const double* c, const double* d) {
    if (n == 0 && raw == 0) return new T1();
    if (raw) { T1* t = new T1{std::unique_ptr<Raw>(new Raw(c, n)), std::unique_ptr<Raw>(new Raw(d, n)), {}}; t->t.~lookup_1d<R>();
        new (&t->t) lookup_1d<R>(n, t->c->p(), t->d->p()); return t; }
    return new T1{nullptr, nullptr, lookup_1d<R>(pv(c, n), pv(d, n))};
}
X void t1_del(void* h) { delete (T1*)h; }
X int t1_init(void* h) { return ((T1*)h)->t.is_init(); }
X double t1_interp(void* h, int eq, double x) { T1* t = (T1*)h; return eq ? t->t.interp_linear_equispaced((R)x) : t->t.interp_linear((R)x); }
X void* t1_dup(void* h, int how) {
    T1* s = (T1*)h;
    if (how == 0) return new T1{nullptr, nullptr, lookup_1d<R>(s->t)};
    if (how == 1) { T1* r = new T1(); r->t = s->t; return r; }
    if (how == 3) { T1* r = new T1(); r->t = s->t; r->t = *&r->t; return r; }
    return new T1{nullptr, nullptr, lookup_1d<R>(std::move(s->t))};
}
X int t1_size(void* h, int which) { auto& t = ((T1*)h)->t; return which == 0 ? t.ref_coords().size() : which == 1 ? t.ref_data().size() : t.get_coords().size(); }
X void t1_get(void* h, int which, double* o) {
    auto& t = ((T1*)h)->t; 
    if (which == 2) { auto v = t.get_coords(); for (size_t i = 0; i < v.size(); i++) o[i] = v[i]; return; }
    auto& v = which == 0 ? t.ref_coords() : t.ref_data();
    for (size_t i = 0; i < v.size(); i++) o[i] = v[i];
}
X void t1_poke(void* h, int which, int i, double v) { auto& t = ((T1*)h)->t; (which == 0 ? t.ref_coords() : t.ref_data())[i] = (R)v; }
X void t1_write(void* h, const char* f) { std::ofstream o(f, std::ios::binary); ((T1*)h)->t.write_on_stream_bin(o); }
X void t1_read(void* h, const char* f) { std::ifstream o(f, std::ios::binary); ((T1*)h)->t.read_from_stream_bin(o); }

X void* t2_new(int raw, int n, const double* c, int m, const double* e, const double* d) {
    if (raw == 0 && n == 0) return new T2();
    if (raw) { T2* t = new T2{std::unique_ptr<Raw>(new Raw(c, n)), std::unique_ptr<Raw>(new Raw(e, m)), std::unique_ptr<Raw>(new Raw(d, (size_t)n * m)), {}};
        t->t.~lookup_2d<R>(); new (&t->t) lookup_2d<R>(n, t->c->p(), m, t->e->p(), t->d->p()); return t; }
    return new T2{nullptr, nullptr, nullptr, lookup_2d<R>(picsar_array<picsar_vector<R>, 2>{pv(c, n), pv(e, m)}, pv(d, (size_t)n * m))};
}
X void t2_del(void* h) { delete (T2*)h; }
X int t2_init(void* h) { return ((T2*)h)->t.is_init(); }
X double t2_interp(void* h, int kind, double x, double y, int j) {
    auto& t = ((T2*)h)->t;
    switch (kind) { case 0: return t.interp_linear((R)x, (R)y); case 1: return t.interp_linear_equispaced((R)x, (R)y);
        case 2: return t.interp_linear_first((R)x, j); case 3: return t.interp_linear_first_equispaced((R)x, j); }
    return t.data_at_coords((size_t)x, (size_t)y);
}
X void* t2_dup(void* h, int how) {
    T2* s = (T2*)h;
    if (how == 0) return new T2{nullptr, nullptr, nullptr, lookup_2d<R>(s->t)};
    if (how == 1) { T2* r = new T2(); r->t = s->t; return r; }
    if (how == 3) { T2* r = new T2(); r->t = s->t; r->t = *&r->t; return r; }
    return new T2{nullptr, nullptr, nullptr, lookup_2d<R>(std::move(s->t))};
}
X int t2_size(void* h, int which) { auto& t = ((T2*)h)->t; return which == 2 ? t.ref_data().size() : t.ref_coords()[which].size(); }
X void t2_get(void* h, int which, double* o) {
    auto& t = ((T2*)h)->t;
    if (which >= 3) { auto a = which < 5 ? t.get_coords() : ((const lookup_2d<R>&)t).ref_coords(); auto& v = a[(which - 3) % 2]; for (size_t i = 0; i < v.size(); i++) o[i] = v[i]; return; }
    auto& v = which == 2 ? t.ref_data() : t.ref_coords()[which];
    for (size_t i = 0; i < v.size(); i++) o[i] = v[i];
}
X void t2_poke(void* h, int which, int i, double v) { auto& t = ((T2*)h)->t; (which == 2 ? t.ref_data() : t.ref_coords()[which])[i] = (R)v; }
X void t2_write(void* h, const char* f) { std::ofstream o(f, std::ios::binary); ((T2*)h)->t.write_on_stream_bin(o); }
X void t2_read(void* h, const char* f) { std::ifstream o(f, std::ios::binary); ((T2*)h)->t.read_from_stream_bin(o); }
// ---------------------------------------------------------------- containers
// Elements whose array allocations are recorded: every block has guard zones; double or foreign frees are counted.
struct Tr {
    double v;
    static std::map<void*, size_t>& live() { static std::map<void*, size_t> m; return m; }
    static int& bad() { static int b = 0; return b; }
    enum { G = 64 };
    static void* operator new[](size_t s) {
        char* p = (char*)malloc(s + 2 * G); memset(p, 0xA5, s + 2 * G); live()[p + G] = s; return p + G;
    }
    static bool guards(char* p, size_t s) {
        for (int i = 0; i < G; i++) if ((unsigned char)p[-G + i] != 0xA5 || (unsigned char)p[s + i] != 0xA5) return false; return true;
    }
    static void operator delete[](void* q) {
        if (!q) return;
        auto it = live().find(q);
        if (it == live().end()) { bad()++; return; }
        if (!guards((char*)q, it->second)) bad() += 1000;
        memset(q, 0x5A, it->second);
        free((char*)q - G); live().erase(it);
    }
};
typedef picsar_vector<Tr> PV;
struct Slot { PV* v; };
static std::vector<PV*> slots(8, nullptr);
static Tr rawbuf[4][64];
static Tr rawcopy[4][64];
X int pv_live() { return (int)Tr::live().size(); }
X int pv_bad() { int b = Tr::bad(); Tr::bad() = 0; for (auto& k : Tr::live()) if (!Tr::guards((char*)k.first, k.second)) b += 1000; return b; }
X int pv_has(int s) { return slots[s] != nullptr; }
X void pv_reset() { for (auto& s : slots) s = nullptr; Tr::live().clear(); Tr::bad() = 0; }
// op: 0 sized ctor, 1 from std::vector, 2 empty, 3 copy ctor, 4 move ctor, 5 copy assign, 6 move assign, 7 destroy, 8 resize,
// 9 raw view, 10 variadic ctor of 3, 11 self copy assign, 12 self move assign, 13 temporary move-assigned. Returns 0, or 1 if it threw.
X int pv_op(int op, int a, int b, int n, const double* d) {
    try {
        switch (op) {
        case 0: slots[a] = new PV((size_t)n); break;
        case 1: { std::vector<Tr> v(n); for (int i = 0; i < n; i++) v[i].v = d[i]; slots[a] = new PV(v); break; }
        case 2: slots[a] = new PV(); break;
        case 3: slots[a] = new PV(*slots[b]); break;
        case 4: slots[a] = new PV(std::move(*slots[b])); break;
        case 5: *slots[a] = *slots[b]; break;
        case 6: *slots[a] = std::move(*slots[b]); break;
        case 7: delete slots[a]; slots[a] = nullptr; break;
        case 8: slots[a]->resize(n); break;
        case 9: slots[a] = new PV((size_t)n, rawbuf[b] + 4); break;
        case 10: slots[a] = new PV(Tr{d[0]}, Tr{d[1]}, Tr{d[2]}); break;
        case 11: { PV& r = *slots[a]; *slots[a] = r; break; }
        case 12: { PV& r = *slots[a]; *slots[a] = std::move(r); break; }
        case 13: { std::vector<Tr> v(n); for (int i = 0; i < n; i++) v[i].v = d[i]; *slots[a] = PV(v); break; }
        }
    } catch (std::logic_error&) { return 1; }
    return 0;
}
X void raw_set(int b, const double* d) { for (int i = 0; i < 64; i++) rawbuf[b][i].v = d[i]; }
X void raw_get(int b, double* d) { for (int i = 0; i < 64; i++) d[i] = rawbuf[b][i].v; }
X int pv_size(int a) { return (int)slots[a]->size(); }
// ways of reading: 0 const [], 1 [], 2 data, 3 begin..end, 4 const begin..end, 5 range for
X int pv_read(int a, int how, double* o) {
    PV& v = *slots[a]; const PV& c = v; int n = 0;
    switch (how) {
    case 0: for (size_t i = 0; i < c.size(); i++) o[n++] = c[i].v; break;
    case 1: for (size_t i = 0; i < v.size(); i++) o[n++] = v[i].v; break;
    case 2: for (size_t i = 0; i < v.size(); i++) o[n++] = v.data()[i].v; break;
    case 3: for (Tr* p = v.begin(); p != v.end() && n < 200; ++p) o[n++] = p->v; break;
    case 4: for (const Tr* p = c.begin(); p != c.end() && n < 200; ++p) o[n++] = p->v; break;
    case 5: for (auto& x : v) o[n++] = x.v; break;
    }
    return n;
}
X void pv_ends(int a, double* o) { PV& v = *slots[a]; const PV& c = v; o[0] = v.front().v; o[1] = v.back().v; o[2] = c.front().v; o[3] = c.back().v; }
X void pv_write(int a, int how, int i, double x) {
    PV& v = *slots[a];
    switch (how) { case 0: v[i].v = x; break; case 1: v.data()[i].v = x; break; case 2: *(&(v.begin()->v) + i) = x; break;
        case 3: v.front().v = x; break; case 4: v.back().v = x; break; }
}
template <int N> static void arr(const double* d, const int* w, const double* x, int nw, double* o, bool pair) {
    picsar_array<R, N> a; for (int i = 0; i < N; i++) a[i] = (R)d[i];
    picsar_array<R, N> b(a);
    for (int i = 0; i < nw; i++) a[w[i]] = (R)x[i];
    picsar_array<R, N> c; c = a; if (nw) c[w[0]] = (R)(x[0] + 1);
    const picsar_array<R, N>& k = a;
    int n = 0;
    for (int i = 0; i < N; i++) o[n++] = k[i];
    for (int i = 0; i < N; i++) o[n++] = a.data()[i];
    for (R* p = a.begin(); p != a.end(); ++p) o[n++] = *p;
    for (const R* p = k.begin(); p != k.end(); ++p) o[n++] = *p;
    for (int i = 0; i < N; i++) o[n++] = b[i];
    for (int i = 0; i < N; i++) o[n++] = c[i];
    o[n++] = k.size();
}
X void array_run(int N, const double* d, const int* w, const double* x, int nw, double* o) {
    if (N == 1) arr<1>(d, w, x, nw, o, 0); else if (N == 2) arr<2>(d, w, x, nw, o, 0); else if (N == 3) arr<3>(d, w, x, nw, o, 0); else arr<5>(d, w, x, nw, o, 0);
}
X void array_ctor(const double* d, double* o) {
    picsar_array<R, 3> a{(R)d[0], (R)d[1], (R)d[2]}; picsar_array<R, 2> b{(R)d[3], (R)d[4]};
    for (int i = 0; i < 3; i++) o[i] = a[i]; o[3] = b[0]; o[4] = b[1];
}
// ---------------------------------------------------------------- numeric utilities
X int range(int kind, double a, double b, int n, double* o) {
    std::vector<R> v = kind == 0 ? generate_lin_spaced_vec<R>((R)a, (R)b, n) : kind == 1 ? generate_log_spaced_vec<R>((R)a, (R)b, n) : generate_log_lin_log_spaced_vec<R>((R)a, (R)b, n);
    for (size_t i = 0; i < v.size() && i < 5000; i++) o[i] = v[i];
    return (int)v.size();
}
X int ubound(int n, const double* d, double x) {
    std::vector<R> v(n + 2, (R)NAN); for (int i = 0; i < n; i++) v[1 + i] = (R)d[i];
    const R* f = v.data() + 1; return (int)(picsar_upper_bound<R>(f, f + n, (R)x) - f);
}
X double poisson(double l, double u) { return (double)poisson_distrib<R>((R)l, (R)u); }
typedef double (*CB)(double);
X double root(CB f, double g, int rising) { return bracket_and_solve_root<R>([=](R x) -> R { return (R)f(x); }, (R)g, rising != 0); }
X double quad(int kind, CB f, double a, double b) {
    std::function<R(R)> g = [=](R x) -> R { return (R)f(x); };
    return kind == 0 ? quad_a_b<R>(g, (R)a, (R)b) : kind == 1 ? quad_a_b_s<R>(g, (R)a, (R)b) : quad_a_inf<R>(g, (R)a);
}
X double besselk(double v, double x) { return (double)k_v((R)v, (R)x); }
X void vecops(const double* a, const double* b, double s, double* o) {
    vec3<R> u{(R)a[0], (R)a[1], (R)a[2]}, w{(R)b[0], (R)b[1], (R)b[2]}; R t = (R)s;
    int n = 0; o[n++] = norm2(u); o[n++] = norm(u); o[n++] = dot(u, w);
    vec3<R> r[6] = {cross(u, w), u * t, t * u, u / t, u + w, u - w};
    for (auto& q : r) for (int i = 0; i < 3; i++) o[n++] = q[i];
}
X void rng_run(uint64_t seed, int how, int n, const double* ab, double* o) {
    stl_rng_wrapper<R> g(seed), h(seed + 1);
    std::mt19937_64 m; m.seed(seed);
    stl_rng_wrapper<R> k(std::move(m));
    stl_rng_wrapper<R> c(g); h = g;
    stl_rng_wrapper<R>* w[4] = {&g, &k, &c, &h};
    for (int j = 0; j < 4; j++) for (int i = 0; i < n; i++) o[j * n + i] = how ? w[j]->exp((R)ab[0]) : w[j]->unf((R)ab[0], (R)ab[1]);
}
