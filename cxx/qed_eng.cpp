// C interface to the Breit-Wheeler and quantum synchrotron engines. REAL is float or double; arrays at the interface are double.
#include <cmath>
#include <cstring>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include "qed_commons.h"
#include "breit_wheeler_engine.hpp"
#include "quantum_sync_engine.hpp"
#include "script_rng.hpp"
using namespace picsar::multi_physics;
typedef REAL R;
typedef ScriptRng<R> RNG;
#define X extern "C"
struct Raw {
    std::vector<R> b; size_t n;
    Raw(const double* d, size_t m) : b(m + 32, (R)NAN), n(m) { for (size_t i = 0; i < m; i++) b[16 + i] = (R)d[i]; }
    R* p() { return b.data() + 16; }
    bool ok() { for (size_t i = 0; i < 16; i++) if (b[i] == b[i] || b[16 + n + i] == b[16 + n + i]) return false; return true; }
};
typedef breit_wheeler_engine<R, RNG> BW;
typedef quantum_synchrotron_engine<R, RNG> QS;
template <class E> struct Tr;
template <> struct Tr<BW> {
    typedef breit_wheeler_engine_ctrl<R> C; typedef breit_wheeler_innards<R, RNG> I;
    static void ctrl(const double* d, C& c) {
        if (!d) return;
        c.chi_phot_min = d[0]; c.chi_phot_tdndt_min = d[1]; c.chi_phot_tdndt_max = d[2]; c.chi_phot_tdndt_how_many = d[3];
        c.chi_phot_tpair_min = d[4]; c.chi_phot_tpair_max = d[5]; c.chi_phot_tpair_how_many = d[6]; c.chi_frac_tpair_how_many = d[7];
    }
    static void unctrl(const C& c, double* d) {
        d[0] = c.chi_phot_min; d[1] = c.chi_phot_tdndt_min; d[2] = c.chi_phot_tdndt_max; d[3] = c.chi_phot_tdndt_how_many;
        d[4] = c.chi_phot_tpair_min; d[5] = c.chi_phot_tpair_max; d[6] = c.chi_phot_tpair_how_many; d[7] = c.chi_frac_tpair_how_many;
    }
    static C& ic(I& i) { return i.bw_ctrl; }
    static size_t& n1(I& i) { return i.TTfunc_table_coords_how_many; } static R*& c1(I& i) { return i.TTfunc_table_coords_ptr; }
    static size_t& m1(I& i) { return i.TTfunc_table_data_how_many; } static R*& d1(I& i) { return i.TTfunc_table_data_ptr; }
    static void cum(BW& e) { e.compute_cumulative_pair_table(); }
    static double cumf(BW& e, R a, R b) { return e.compute_cumulative_pair(a, b); }
    static void wcum(BW& e, const char* f) { e.write_cumulative_pair_table(f); }
    static void rcum(BW& e, const char* f) { e.read_cumulative_pair_table(f); }
};
template <> struct Tr<QS> {
    typedef quantum_synchrotron_engine_ctrl<R> C; typedef quantum_synchrotron_innards<R, RNG> I;
    static void ctrl(const double* d, C& c) {
        if (!d) return;
        c.chi_part_min = d[0]; c.chi_part_tdndt_min = d[1]; c.chi_part_tdndt_max = d[2]; c.chi_part_tdndt_how_many = d[3];
        c.chi_part_tem_min = d[4]; c.chi_part_tem_max = d[5]; c.chi_part_tem_how_many = d[6]; c.prob_tem_how_many = d[7];
    }
    static void unctrl(const C& c, double* d) {
        d[0] = c.chi_part_min; d[1] = c.chi_part_tdndt_min; d[2] = c.chi_part_tdndt_max; d[3] = c.chi_part_tdndt_how_many;
        d[4] = c.chi_part_tem_min; d[5] = c.chi_part_tem_max; d[6] = c.chi_part_tem_how_many; d[7] = c.prob_tem_how_many;
    }
    static C& ic(I& i) { return i.qs_ctrl; }
    static size_t& n1(I& i) { return i.KKfunc_table_coords_how_many; } static R*& c1(I& i) { return i.KKfunc_table_coords_ptr; }
    static size_t& m1(I& i) { return i.KKfunc_table_data_how_many; } static R*& d1(I& i) { return i.KKfunc_table_data_ptr; }
    static void cum(QS& e) { e.compute_cumulative_phot_em_table(); }
    static double cumf(QS& e, R a, R b) { return e.compute_cumulative_phot_em(a, b); }
    static void wcum(QS& e, const char* f) { e.write_cumulative_phot_em_table(f); }
    static void rcum(QS& e, const char* f) { e.read_cumulative_phot_em_table(f); }
};
template <class E> struct H { std::unique_ptr<Raw> r[5]; std::unique_ptr<E> e; typename Tr<E>::C c; double lam; };
// In SI units a normalisation length given to the static forms has to be ignored
static double slam(double l) {
#ifdef PXRMP_WITH_SI_UNITS
    static const double t[] = {1.0, 8e-7, 3.5, 0.0, 1e-6}; static unsigned k = 0; (void)l; return t[k++ % 5];
#else
    return l;
#endif
}
#define FP (R)p[0], (R)p[1], (R)p[2]
#define FF (R)f[0], (R)f[1], (R)f[2], (R)f[3], (R)f[4], (R)f[5]

template <class E> static H<E>* mk(const double* ctrl, int lamdef, double lam, const double* u, int nu) {
    H<E>* h = new H<E>(); Tr<E>::ctrl(ctrl, h->c); h->lam = lam;
    if (lamdef == 2) h->e.reset(new E(RNG(u, nu)));
    else if (!ctrl) h->e.reset(new E(RNG(u, nu), (R)lam));
    else h->e.reset(new E(RNG(u, nu), (R)lam, h->c));
    return h;
}
template <class E> static H<E>* mkraw(const double* ctrl, double lam, const double* u, int nu, int n1, const double* c1, const double* d1,
        int na, const double* ca, int nb, const double* cb, const double* d2) {
    H<E>* h = new H<E>(); Tr<E>::ctrl(ctrl, h->c); h->lam = lam;
    typename Tr<E>::I i; RNG g(u, nu);
    h->r[0].reset(new Raw(c1, n1)); h->r[1].reset(new Raw(d1, n1)); h->r[2].reset(new Raw(ca, na)); h->r[3].reset(new Raw(cb, nb)); h->r[4].reset(new Raw(d2, (size_t)na * nb));
    Tr<E>::ic(i) = h->c; i.lambda = (R)lam; i.rng_ptr = &g;
    Tr<E>::n1(i) = n1; Tr<E>::c1(i) = h->r[0]->p(); Tr<E>::m1(i) = n1; Tr<E>::d1(i) = h->r[1]->p();
    i.cum_distrib_table_coords_1_how_many = na; i.cum_distrib_table_coords_1_ptr = h->r[2]->p();
    i.cum_distrib_table_coords_2_how_many = nb; i.cum_distrib_table_coords_2_ptr = h->r[3]->p();
    i.cum_distrib_table_data_how_many = (size_t)na * nb; i.cum_distrib_table_data_ptr = h->r[4]->p();
    h->e.reset(new E(i));
    return h;
}
// how: 0 copy, 1 move, 2 export and rebuild (views on the source's tables)
template <class E> static H<E>* dup(H<E>* s, int how) {
    H<E>* h = new H<E>(); h->c = s->c; h->lam = s->lam;
    if (how == 0) h->e.reset(new E(*s->e)); else if (how == 1) h->e.reset(new E(std::move(*s->e))); else h->e.reset(new E(s->e->export_innards()));
    return h;
}
template <class E> static void innards(H<E>* h, double* o, double** arr) {
    auto i = h->e->export_innards(); Tr<E>::unctrl(Tr<E>::ic(i), o); o[8] = i.lambda; o[9] = Tr<E>::n1(i); o[10] = Tr<E>::m1(i);
    o[11] = i.cum_distrib_table_coords_1_how_many; o[12] = i.cum_distrib_table_coords_2_how_many; o[13] = i.cum_distrib_table_data_how_many; o[14] = (double)i.rng_ptr->k;
    if (!arr) return;
    auto cp = [](double* d, R* s, size_t n) { for (size_t k = 0; k < n; k++) d[k] = s[k]; };
    cp(arr[0], Tr<E>::c1(i), o[9]); cp(arr[1], Tr<E>::d1(i), o[10]);
    cp(arr[2], i.cum_distrib_table_coords_1_ptr, o[11]); cp(arr[3], i.cum_distrib_table_coords_2_ptr, o[12]); cp(arr[4], i.cum_distrib_table_data_ptr, o[13]);
}
template <class E> static lookup_1d<R> tab1(H<E>* h) { return lookup_1d<R>(h->r[0]->n, h->r[0]->p(), h->r[1]->p()); }
template <class E> static int st_evolve(H<E>* h, const double* p, const double* f, double dt, double* o) {
    lookup_1d<R> t = h->r[0] && h->r[0]->n ? tab1(h) : lookup_1d<R>(); R od = (R)o[0], ed = (R)-7; bool ev = true;
    bool ok = E::internal_evolve_opt_depth_and_determine_event(FP, FF, (R)dt, od, ev, ed, (R)slam(h->lam), t, h->c);
    o[0] = od; o[1] = ev; o[2] = ed; return ok;
}
#define COMMON(P, E) \
X void* P##_new(const double* ctrl, int ld, double lam, const double* u, int nu) { return mk<E>(ctrl, ld, lam, u, nu); } \
X void* P##_raw(const double* ctrl, double lam, const double* u, int nu, int n1, const double* c1, const double* d1, int na, const double* ca, int nb, const double* cb, const double* d2) { \
    return mkraw<E>(ctrl, lam, u, nu, n1, c1, d1, na, ca, nb, cb, d2); } \
X void P##_del(void* h) { delete (H<E>*)h; } \
X void* P##_dup(void* h, int how) { return dup((H<E>*)h, how); } \
X void P##_innards(void* h, double* o, double** a) { innards((H<E>*)h, o, a); } \
X int P##_ok(void* h) { for (auto& r : ((H<E>*)h)->r) if (r && !r->ok()) return 0; return 1; } \
X double P##_lambda(void* h) { return ((H<E>*)h)->e->get_lambda(); } \
X void P##_set_lambda(void* h, double l) { ((H<E>*)h)->e->set_lambda((R)l); } \
X double P##_optd(void* h) { return ((H<E>*)h)->e->get_optical_depth(); } \
X double P##_optd_static(double u) { return E::internal_get_optical_depth((R)u); } \
X double P##_dndt(void* h, double en, double chi) { return ((H<E>*)h)->e->compute_dN_dt((R)en, (R)chi); } \
X double P##_interp(void* h, double en, double chi) { return ((H<E>*)h)->e->interp_dN_dt((R)en, (R)chi); } \
X double P##_interp_static(void* v, double en, double chi) { H<E>* h = (H<E>*)v; return E::internal_interp_dN_dt((R)en, (R)chi, tab1(h), h->c, (R)slam(h->lam)); } \
X void P##_tab1(void* h) { ((H<E>*)h)->e->compute_dN_dt_lookup_table(); } \
X void P##_tab2(void* h) { Tr<E>::cum(*((H<E>*)h)->e); } \
X double P##_cum(void* h, double a, double b) { return Tr<E>::cumf(*((H<E>*)h)->e, (R)a, (R)b); } \
X int P##_evolve(void* h, const double* p, const double* f, double dt, double* o) { \
    R od = (R)o[0]; auto r = ((H<E>*)h)->e->evolve_opt_depth_and_determine_event(FP, FF, (R)dt, od); o[0] = od; o[1] = r.first; o[2] = r.second; return 1; } \
X int P##_evolve_static(void* h, const double* p, const double* f, double dt, double* o) { return st_evolve((H<E>*)h, p, f, dt, o); } \
X void P##_wfile(void* h, int w, const char* f) { E& e = *((H<E>*)h)->e; if (w == 0) e.write_dN_dt_table(f); else Tr<E>::wcum(e, f); } \
X void P##_rfile(void* h, int w, const char* f) { E& e = *((H<E>*)h)->e; if (w == 0) e.read_dN_dt_table(f); else Tr<E>::rcum(e, f); } \
X void P##_defctrl(double* o) { typename Tr<E>::C c; Tr<E>::unctrl(c, o); }
COMMON(bw, BW)
COMMON(qs, QS)
X void bw_assign(void* a, void* b) { *((H<BW>*)a)->e = *((H<BW>*)b)->e; ((H<BW>*)a)->c = ((H<BW>*)b)->c; }
// out: 8 values per sample: electron p, w, positron p, w
X void bw_gen(void* v, int stat, const double* p, const double* f, double w, int n, const double* u, double* o) {
    H<BW>* h = (H<BW>*)v;
    if (!stat) {
        auto a = h->e->generate_breit_wheeler_pairs(FP, FF, (R)w, (size_t)n);
        for (int s = 0; s < n; s++) for (int k = 0; k < 2; k++) { for (int j = 0; j < 3; j++) o[8 * s + 4 * k + j] = a[k][s].first[j]; o[8 * s + 4 * k + 3] = a[k][s].second; }
        o[8 * n] = a[0].size(); o[8 * n + 1] = a[1].size();
        return;
    }
    lookup_2d<R> t(h->r[2]->n, h->r[2]->p(), h->r[3]->n, h->r[3]->p(), h->r[4]->p());
    std::vector<std::vector<R>> b(8, std::vector<R>(n + 2, (R)-3e20)); std::vector<R> uu(n);
    for (int s = 0; s < n; s++) uu[s] = (R)u[s];
    BW::internal_generate_breit_wheeler_pairs(FP, FF, (R)w, (size_t)n, &b[0][1], &b[1][1], &b[2][1], &b[4][1], &b[5][1], &b[6][1], &b[3][1], &b[7][1], (R)slam(h->lam), t, h->c, uu.data());
    for (int s = 0; s < n; s++) for (int k = 0; k < 8; k++) o[8 * s + k] = b[k][s + 1];
    o[8 * n] = o[8 * n + 1] = n;
    for (auto& q : b) if (q[0] != (R)-3e20 || q[n + 1] != (R)-3e20) o[8 * n] = -1;
}
// pp: in/out momentum; out 4 values per sample
X void qs_gen(void* v, int stat, double* pp, const double* f, double w, int n, const double* u, double* o) {
    H<QS>* h = (H<QS>*)v; R px = (R)pp[0], py = (R)pp[1], pz = (R)pp[2];
    if (!stat) {
        auto a = h->e->generate_photons_and_update_momentum(px, py, pz, FF, (R)w, (size_t)n);
        for (int s = 0; s < n; s++) { for (int j = 0; j < 3; j++) o[4 * s + j] = a[s].first[j]; o[4 * s + 3] = a[s].second; }
        o[4 * n] = a.size();
    } else {
        lookup_2d<R> t(h->r[2]->n, h->r[2]->p(), h->r[3]->n, h->r[3]->p(), h->r[4]->p());
        std::vector<std::vector<R>> b(4, std::vector<R>(n + 2, (R)-3e20)); std::vector<R> uu(n);
        for (int s = 0; s < n; s++) uu[s] = (R)u[s];
        QS::internal_generate_photons_and_update_momentum(px, py, pz, FF, (R)w, (size_t)n, &b[0][1], &b[1][1], &b[2][1], &b[3][1], (R)slam(h->lam), t, h->c, uu.data());
        for (int s = 0; s < n; s++) for (int k = 0; k < 4; k++) o[4 * s + k] = b[k][s + 1];
        o[4 * n] = n; for (auto& q : b) if (q[0] != (R)-3e20 || q[n + 1] != (R)-3e20) o[4 * n] = -1;
    }
    pp[0] = px; pp[1] = py; pp[2] = pz;
}
