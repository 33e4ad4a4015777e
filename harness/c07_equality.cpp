/* C07: equality checks. */
#include "io.h"
#include <functional>
#include <memory>
using namespace mc;

/* a record with its fields as addressable numbers or strings; pads filled with a given byte */
struct Field { std::string name; int* i = nullptr; double* d = nullptr; float* f = nullptr; char* s = nullptr; };
struct Rec { std::vector<Field> f; std::function<int(Rec&)> cmp; void* p = nullptr; std::vector<void*> mem; ~Rec() { for (auto m : mem) free(m); } };
typedef std::shared_ptr<Rec> R;
template <class T> static T* raw(Rec& r, int pad) { T* t = (T*)malloc(sizeof(T)); memset(t, pad, sizeof(T)); r.mem.push_back(t); r.p = t; return t; }
static char* text(Rec& r, int pad, const std::string& s) { char* c = (char*)malloc(SEQ_FNAME_MAX_LEN); memset(c, pad ? pad : 1, SEQ_FNAME_MAX_LEN); memcpy(c, s.c_str(), s.size() + 1); r.mem.push_back(c); return c; }
#define I(x) r->f.push_back({#x, &(x)})
#define D(x) r->f.push_back({#x, nullptr, &(x)})
enum { TARGET, CORRES, PATH, EXT, INT_, GLASS, ADD, CAL, SEQ, TRACK, VOL, MM, CTRL, TARG, KINDS };
static void ext(R r, Exterior* e) { D(e->x0); D(e->y0); D(e->z0); D(e->omega); D(e->phi); D(e->kappa); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r->f.push_back({strf("dm[%d][%d]", i, j), nullptr, &e->dm[i][j]}); }
static void inte(R r, Interior* e) { D(e->xh); D(e->yh); D(e->cc); }
static void glas(R r, Glass* e) { D(e->vec_x); D(e->vec_y); D(e->vec_z); }
static void addp(R r, ap_52* e) { D(e->k1); D(e->k2); D(e->k3); D(e->p1); D(e->p2); D(e->scx); D(e->she); }
static void mmp(R r, mm_np* m, int nlay) { m->nlay = nlay; I(m->nlay); D(m->n1); D(m->n3); for (int l = 0; l < nlay; l++) { r->f.push_back({strf("n2[%d]", l), nullptr, &m->n2[l]}); r->f.push_back({strf("d[%d]", l), nullptr, &m->d[l]}); } }
static R make(int kind, int n, int pad) {
    R r = std::make_shared<Rec>();
    #define CMP(fn, T) r->cmp = [](Rec& o) -> int { return 0; }; 
    switch (kind) {
        case TARGET: { auto* t = raw<target>(*r, pad); I(t->pnr); D(t->x); D(t->y); I(t->n); I(t->nx); I(t->ny); I(t->sumg); I(t->tnr); break; }
        case CORRES: { auto* t = raw<corres>(*r, pad); I(t->nr); for (int i = 0; i < 4; i++) r->f.push_back({strf("p[%d]", i), &t->p[i]}); break; }
        case PATH: { auto* t = raw<P>(*r, pad); for (int i = 0; i < 3; i++) r->f.push_back({strf("x[%d]", i), nullptr, &t->x[i]}); I(t->prev); I(t->next); I(t->prio); I(t->inlist); r->f.push_back({"finaldecis", nullptr, nullptr, &t->finaldecis}); for (int i = 0; i < POSI; i++) { r->f.push_back({strf("decis[%d]", i), nullptr, nullptr, &t->decis[i]}); r->f.push_back({strf("linkdecis[%d]", i), &t->linkdecis[i]}); } break; }
        case EXT: ext(r, raw<Exterior>(*r, pad)); break;
        case INT_: inte(r, raw<Interior>(*r, pad)); break;
        case GLASS: glas(r, raw<Glass>(*r, pad)); break;
        case ADD: addp(r, raw<ap_52>(*r, pad)); break;
        case CAL: { auto* c = raw<Calibration>(*r, pad); ext(r, &c->ext_par); inte(r, &c->int_par); glas(r, &c->glass_par); addp(r, &c->added_par); c->mmlut.data = nullptr; break; }
        case SEQ: { auto* s = raw<sequence_par>(*r, pad); s->num_cams = n; s->img_base_name = (char**)malloc(n * sizeof(char*)); r->mem.push_back(s->img_base_name); for (int i = 0; i < n; i++) { s->img_base_name[i] = text(*r, pad, strf("img/cam%d.", i)); r->f.push_back({strf("name[%d]", i), nullptr, nullptr, nullptr, s->img_base_name[i]}); } I(s->first); I(s->last); break; }
        case TRACK: { auto* t = raw<track_par>(*r, pad); D(t->dacc); D(t->dangle); D(t->dvxmax); D(t->dvxmin); D(t->dvymax); D(t->dvymin); D(t->dvzmax); D(t->dvzmin); I(t->dsumg); I(t->dn); I(t->dnx); I(t->dny); I(t->add); break; }
        case VOL: { auto* v = raw<volume_par>(*r, pad); for (int i = 0; i < 2; i++) { D(v->X_lay[i]); D(v->Zmin_lay[i]); D(v->Zmax_lay[i]); } D(v->cn); D(v->cnx); D(v->cny); D(v->csumg); D(v->eps0); D(v->corrmin); break; }
        case MM: mmp(r, raw<mm_np>(*r, pad), std::min(n, 3)); break;
        case CTRL: { auto* c = raw<control_par>(*r, pad); void* own = c; c->num_cams = n; c->img_base_name = (char**)malloc(n * sizeof(char*)); c->cal_img_base_name = (char**)malloc(n * sizeof(char*)); r->mem.push_back(c->img_base_name); r->mem.push_back(c->cal_img_base_name);
            for (int i = 0; i < n; i++) { c->img_base_name[i] = text(*r, pad, strf("img/cam%d.", i)); c->cal_img_base_name[i] = text(*r, pad, strf("cal/cam%d", i)); r->f.push_back({strf("name[%d]", i), nullptr, nullptr, nullptr, c->img_base_name[i]}); r->f.push_back({strf("calname[%d]", i), nullptr, nullptr, nullptr, c->cal_img_base_name[i]}); }
            I(c->hp_flag); I(c->allCam_flag); I(c->tiff_flag); I(c->imx); I(c->imy); D(c->pix_x); D(c->pix_y); I(c->chfield); c->mm = raw<mm_np>(*r, pad); mmp(r, c->mm, 1 + n % 3); r->p = own; break; }
        case TARG: { auto* t = raw<target_par>(*r, pad); I(t->discont); for (int i = 0; i < 4; i++) r->f.push_back({strf("gvthres[%d]", i), &t->gvthres[i]}); I(t->nnmin); I(t->nnmax); I(t->nxmin); I(t->nxmax); I(t->nymin); I(t->nymax); I(t->sumg_min); I(t->cr_sz); break; }
    }
    for (size_t k = 0; k < r->f.size(); k++) { auto& f = r->f[k]; if (f.name == "m->nlay") continue; if (f.i) *f.i = 5 + k; if (f.d) *f.d = 0.5 + 1.25 * k; if (f.f) *f.f = 0.5f + k; }
    return r;
}
static int compare(int kind, void* a, void* b) {
    step();
    switch (kind) {
        case TARGET: return compare_targets((target*)a, (target*)b); case CORRES: return compare_corres((corres*)a, (corres*)b); case PATH: return compare_path_info((P*)a, (P*)b);
        case EXT: return compare_exterior((Exterior*)a, (Exterior*)b); case INT_: return compare_interior((Interior*)a, (Interior*)b); case GLASS: return compare_glass((Glass*)a, (Glass*)b); case ADD: return compare_addpar((ap_52*)a, (ap_52*)b); case CAL: return compare_calib((Calibration*)a, (Calibration*)b);
        case SEQ: return compare_sequence_par((sequence_par*)a, (sequence_par*)b); case TRACK: return compare_track_par((track_par*)a, (track_par*)b); case VOL: return compare_volume_par((volume_par*)a, (volume_par*)b); case MM: return compare_mm_np((mm_np*)a, (mm_np*)b); case CTRL: return compare_control_par((control_par*)a, (control_par*)b); default: return compare_target_par((target_par*)a, (target_par*)b);
    }
}
static const char* KN[] = {"targets", "correspondences", "path records", "exterior", "interior", "glass", "distortion", "calibrations", "sequence settings", "tracking settings", "volume settings", "media", "control settings", "detection settings"};
enum { ALTS = 6 };
static void change(Field& f, int how) {
    if (f.name == "m->nlay") { *f.i -= 1; return; }
    if (f.i) { int v = *f.i; *f.i = how == 0 ? v + 1 : how == 1 ? v - 1 : how == 2 ? -v : how == 3 ? v ^ 0x40000000 : how == 4 ? v + 256 : v + 65536; }
    if (f.d) { double v = *f.d; *f.d = how == 0 ? nextafter(v, 1e9) : how == 1 ? nextafter(v, -1e9) : how == 2 ? -v : how == 3 ? 0 : how == 4 ? v + 1 : v * 1e30; }
    if (f.f) { float v = *f.f; *f.f = how == 0 ? nextafterf(v, 1e9f) : how == 1 ? nextafterf(v, -1e9f) : how == 2 ? -v : how == 3 ? 0 : how == 4 ? v + 1 : v * 1e20f; }
    if (f.s) { std::string v = f.s; if (how == 0) v += "x"; if (how == 1) v.pop_back(); if (how == 2) v[0] = 'X'; if (how == 3) v = ""; if (how == 4) v[v.size() - 1] ^= 1; if (how == 5) v = std::string(238, 'z') + v[v.size() / 2]; strcpy(f.s, v.c_str()); }
}
static int kinds_n(int k) { return k == SEQ || k == CTRL || k == MM ? 4 : 1; }
SCENARIO(equal_records) {
    int k = choose(KINDS), n = 1 + choose(kinds_n(k)), p1 = pick({0, 0x5a, 0xff}), p2 = pick({0, 0x5a, 0xff}); R a = make(k, n, p1), b = make(k, n, p2);
    MC_CHECK(compare(k, a->p, b->p), "equal", "%s with all fields equal compare different", KN[k]); MC_CHECK(compare(k, a->p, a->p), "equal", "%s differ from themselves", KN[k]); state(k * 10 + n);
}
SCENARIO(one_field) {
    int k = choose(KINDS), n = 1 + choose(kinds_n(k)); R a = make(k, n, 0), b = make(k, n, 0); int f = choose(a->f.size()), how = choose(ALTS); change(b->f[f], how);
    MC_CHECK(!compare(k, a->p, b->p) && !compare(k, b->p, a->p), "differ", "%s that differ in %s (change %d) compare equal", KN[k], a->f[f].name.c_str(), how); 
    change(a->f[f], how); MC_CHECK(compare(k, a->p, b->p), "equal", "%s whose %s was changed alike compare different", KN[k], a->f[f].name.c_str()); state(k * 100000 + f * 10 + how);
}
SCENARIO(two_fields) {
    int k = choose(KINDS), n = kinds_n(k) == 1 ? 1 : pick({1, 4}); R a = make(k, n, 0), b = make(k, n, 0); int m = a->f.size(), f = choose(m), g = choose(m); if (f >= g) return; 
    Field &x = b->f[f], &y = b->f[g]; int how = choose(3);
    if (how == 0) { change(x, 0); change(y, 1); } else if (how == 1) { change(x, 2); change(y, 2); } else { /* values exchanged */ if (x.i && y.i && x.name != "m->nlay" && y.name != "m->nlay") std::swap(*x.i, *y.i); else if (x.d && y.d) std::swap(*x.d, *y.d); else if (x.f && y.f) std::swap(*x.f, *y.f); else if (x.s && y.s) { std::string t = x.s; strcpy(x.s, y.s); strcpy(y.s, t.c_str()); } else return; }
    MC_CHECK(!compare(k, a->p, b->p) && !compare(k, b->p, a->p), "differ", "%s that differ in %s and %s compare equal", KN[k], x.name.c_str(), y.name.c_str()); state(k * 1000000 + f * 1000 + g);
}
/* a field takes the value of another one of the same record; all fields of a record have one value */
SCENARIO(borrowed) {
    int k = choose(KINDS), n = kinds_n(k) == 1 ? 1 : pick({1, 4}); R a = make(k, n, 0), b = make(k, n, 0); int m = a->f.size(), f = choose(m), g = choose(m), same = choose(2); Field &x = b->f[f], &y = a->f[g]; if (f == g || x.name == "m->nlay" || y.name == "m->nlay") return;
    if (same) for (auto r : {a, b}) for (auto& q : r->f) if (q.name != "m->nlay") { if (q.i) *q.i = 7; if (q.d) *q.d = 7; if (q.f) *q.f = 7; }
    if (same) { if (g != (f + 1) % m) return; change(x, 0); } else if (x.i && y.i) *x.i = *y.i; else if (x.d && y.d) *x.d = *y.d; else if (x.s && y.s) strcpy(x.s, y.s); else return;
    MC_CHECK(!compare(k, a->p, b->p) && !compare(k, b->p, a->p), "differ", "%s compare equal when %s has the value of %s", KN[k], x.name.c_str(), y.name.c_str()); state(k * 1000000 + f * 1000 + g);
}
/* calibrations that share a refraction table are equal or not by their fields alone */
SCENARIO(shared_table) {
    double tab[4] = {1, 1, 1, 1}; int ta = choose(3), tb = choose(3); R a = make(CAL, 1, 0), b = make(CAL, 1, 0); auto *ca = (Calibration*)a->p, *cb = (Calibration*)b->p; ca->mmlut.data = ta ? tab + ta : nullptr; cb->mmlut.data = tb ? tab + tb : nullptr;
    int f = choose(a->f.size() + 1); if (f < (int)a->f.size()) change(b->f[f], choose(3)); bool eq = f == (int)a->f.size(); 
    if (eq && ta != tb) return; /* not said */ MC_CHECK(!!compare(CAL, a->p, b->p) == eq && !!compare(CAL, b->p, a->p) == eq, eq ? "equal" : "differ", "calibrations with tables %d and %d %s", ta, tb, eq ? "and equal fields compare different" : strf("that differ in %s compare equal", a->f[f].name.c_str()).c_str()); state(f * 10 + ta * 3 + tb);
}
/* settings for another number of cameras or layers */
SCENARIO(other_count) { int k = pick({(int)SEQ, (int)CTRL, (int)MM}), n = 1 + choose(3), m = 1 + choose(3); if (n == m) return; R a = make(k, n, 0), b = make(k, m, 0); 
    /* all other fields equal */ for (auto& x : a->f) for (auto& y : b->f) if (x.name == y.name && x.name != "m->nlay") { if (x.i) *y.i = *x.i; if (x.d) *y.d = *x.d; }
    MC_CHECK(!compare(k, a->p, b->p), "differ", "%s for %d and %d cameras/layers compare equal", KN[k], n, m); state(k * 100 + n * 10 + m); }
/* image names of maximal length that differ in one character */
SCENARIO(long_names) { int k = pick({(int)SEQ, (int)CTRL}), n = 2; R a = make(k, n, 0), b = make(k, n, 0); std::vector<int> fs; for (size_t i = 0; i < a->f.size(); i++) if (a->f[i].s) fs.push_back(i); int f = pick(fs); int at = choose(239); std::string s(239, 'q'); strcpy(a->f[f].s, s.c_str()); strcpy(b->f[f].s, s.c_str()); MC_CHECK(compare(k, a->p, b->p), "equal", "%s with equal long names compare different", KN[k]); b->f[f].s[at] = 'r'; MC_CHECK(!compare(k, a->p, b->p), "differ", "%s whose names differ in character %d compare equal", KN[k], at); state(k * 1000 + at); }
