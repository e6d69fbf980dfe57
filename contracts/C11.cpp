// Contracts for include/salticidae/ref.h: C11.
#include <vf.h>
#include <vector>
#include <string>
#include "salticidae/ref.h"
using namespace salticidae;
static uint32_t vfg_dead[4], vfg_made;
struct Base { uint32_t bid; virtual ~Base() {} };
struct Obj: Base { uint32_t id; Obj(uint32_t i): id(i) { bid = i; vfg_made++; } ~Obj() { vfg_dead[id]++; vf_assert(vfg_dead[id] == 1, "object destroyed once"); } };
struct Plain { uint32_t id; Plain(): id(3) {} ~Plain() { vfg_dead[id]++; } };
// Arbitrary further owners and weak pointers elsewhere are represented in the counts, once the driver has checked that one more
// owner/weak pointer moves the counts by exactly one.
template<typename Rc, typename W> struct St {
    Rc p, q; W w; typename std::remove_reference<decltype(*(((Rc *)0)->ctl))>::type *ctl; uint64_t a, b;   // extra owners / weak pointers of object 0
};
template<typename C> static void setup_counts(C *ctl, uint64_t r1, uint64_t w1, uint64_t r2, uint64_t w2) {}
template<typename Rc, typename W> static void run(int nops) {
    Rc *p = new Rc(new Obj(0)), *q = new Rc(); W *w = new W();
    auto ctl = p->ctl; uint64_t a = 0, b = 0;
    if (!vf_is_native()) {
        size_t r0 = ctl->ref_cnt, w0 = ctl->weak_cnt;
        { Rc t(*p); W x(*p); if ((size_t)ctl->ref_cnt != r0 + 1 || (size_t)ctl->weak_cnt != w0 + 1) vf_hook_missing("count representation"); }
        a = vf_u64("owners elsewhere"); b = vf_u64("weak pointers elsewhere"); vf_assume((a <= 1u << 30) & (b <= 1u << 30));
        ctl->ref_cnt = r0 + a; ctl->weak_cnt = w0 + b;
    }
    int pi = 0, qi = -1, wi = -1;   // which object each one refers to
    switch (vf_choice("q", 3)) { case 1: *q = *p; qi = 0; break; case 2: *q = Rc(new Obj(1)); qi = 1; break; }
    if (vf_bool("w")) { *w = *p; wi = 0; }
    for (int i = 0; i < nops; i++) switch (vf_choice("op", 14)) {
        case 0: *p = *q; pi = qi; break;
        case 1: *q = *p; qi = pi; break;
        case 2: *p = *p; break;
        case 3: *p = std::move(*q); pi = qi; qi = -1; break;
        case 4: *q = std::move(*p); qi = pi; pi = -1; break;
        case 5: { Rc &r = *p; *p = std::move(r); break; }
        case 6: { p->swap(*q); int t = pi; pi = qi; qi = t; break; }
        case 7: *p = Rc(); pi = -1; break;
        case 8: *w = *p; wi = pi; break;
        case 9: { Rc u(*w); bool alive = wi >= 0 && (pi == wi || qi == wi || (wi == 0 && a)); vf_assert((u.get() != nullptr) == alive, "a weak pointer upgrades exactly while an owner exists");
            if (alive) { vf_assert(u->id == (uint32_t)wi, "upgrade yields the object"); *q = u; qi = wi; } break; }
        case 10: { W x(*w), y(std::move(x)); W z; z = y; z = std::move(y); *w = z; break; }
        case 11: { RcObjBase<Base, typename std::remove_pointer<decltype(p->ctl)>::type> bp(*p); vf_assert((bp.get() == nullptr) == (pi < 0), "conversion to a base owner");
            auto c = static_pointer_cast<Obj>(bp); auto d = static_pointer_cast<Obj>(std::move(bp)); vf_assert(bp.get() == nullptr && c.get() == p->get() && d.get() == p->get(), "casts share the object"); break; }
        case 12: { auto c = static_pointer_cast<Base>(std::move(*p)); int t = pi; pi = -1; vf_assert(p->get() == nullptr, "a moved-from owner is null"); *p = static_pointer_cast<Obj>(std::move(c)); pi = t; break; }
        default: { Rc u(std::move(*p)); vf_assert(p->get() == nullptr && !*p, "a moved-from owner is null"); *p = u; break; }
    }
    uint64_t o0 = a + (pi == 0) + (qi == 0), o1 = (pi == 1) + (qi == 1);
    vf_assert((p->get() != nullptr) == (pi >= 0) && (q->get() != nullptr) == (qi >= 0), "null exactly when owning nothing");
    vf_assert(p->get_cnt() == (pi == 0 ? o0 : pi == 1 ? o1 : 0) && q->get_cnt() == (qi == 0 ? o0 : qi == 1 ? o1 : 0), "reported count is the number of owners");
    vf_assert((vfg_dead[0] == 0) == (o0 > 0), "object lives exactly while it has an owner");
    vf_assert(vfg_made == 1 || (vfg_dead[1] == 0) == (o1 > 0), "second object lives exactly while it has an owner");
    if (pi >= 0) vf_assert((**p).id == (uint32_t)pi, "owner refers to its object");
    if (!vf_is_native()) vf_assert(vf_alive(ctl) == (o0 > 0 || b > 0 || wi == 0), "bookkeeping lives exactly while an owner or weak pointer does");
    delete p; delete q;
    vf_assert((vfg_dead[0] == 0) == (a > 0), "object destroyed with its last owner");
    if (!vf_is_native()) vf_assert(vf_alive(ctl) == (a > 0 || b > 0 || wi == 0), "bookkeeping kept for weak pointers");
    delete w;
    if (!vf_is_native()) { vf_assert(vf_alive(ctl) == (a > 0 || b > 0), "bookkeeping freed with the last pointer");
        if (a == 0 && b == 0) vf_assert(vf_leak_check() == 0, "nothing leaked"); }
    vf_cover("sequence");
}
extern "C" void c11_rc() { run<RcObj<Obj>, WeakObj<Obj>>(2); }
extern "C" void c11_arc() { run<ArcObj<Obj>, AweakObj<Obj>>(2); }
extern "C" void c11_box() {
    BoxObj<Obj> *p = new BoxObj<Obj>(new Obj(0)), *q = new BoxObj<Obj>(); int pi = 0, qi = -1;
    if (vf_bool("q")) { *q = BoxObj<Obj>(new Obj(1)); qi = 1; }
    for (int i = 0; i < 2; i++) switch (vf_choice("op", 8)) {
        case 0: *p = std::move(*q); pi = qi; qi = -1; break;
        case 1: *q = std::move(*p); qi = pi; pi = -1; break;
        case 2: { BoxObj<Obj> &r = *p; *p = std::move(r); break; }
        case 3: { p->swap(*q); int t = pi; pi = qi; qi = t; break; }
        case 4: *p = nullptr; pi = -1; break;
        case 5: { Obj *o = p->unwrap(); vf_assert((o != nullptr) == (pi >= 0) && p->get() == nullptr, "unwrap gives the object away"); *p = BoxObj<Obj>(o); break; }
        case 6: { BoxObj<Base> c = static_pointer_cast<Base>(std::move(*p)); vf_assert(p->get() == nullptr, "cast takes the object"); *p = static_pointer_cast<Obj>(std::move(c)); break; }
        default: { ArcObj<Obj> r(std::move(*p)); vf_assert(p->get() == nullptr, "sharing takes the object"); pi = -1; break; }
    }
    for (int k = 0; k < 2; k++) vf_assert((uint32_t)k >= vfg_made || (vfg_dead[k] == 0) == (pi == k || qi == k), "boxed object lives exactly while its box holds it");
    vf_assert((p->get() != nullptr) == (pi >= 0) && (q->get() != nullptr) == (qi >= 0) && (pi < 0 || (*p)->id == (uint32_t)pi), "box content");
    delete p; delete q;
    for (uint32_t k = 0; k < vfg_made; k++) vf_assert(vfg_dead[k] == 1, "boxed object destroyed exactly once");
    if (!vf_is_native()) vf_assert(vf_leak_check() == 0, "nothing leaked");
    vf_cover("box");
}
extern "C" void c11_arrays() {
    { BoxObj<Plain[]> b(new Plain[3]); b[1].id = 2; BoxObj<Plain[]> c(std::move(b)); vf_assert(b.get() == nullptr && c[1].id == 2 && c[0].id == 3, "array box moves"); }
    vf_assert(vfg_dead[3] == 2 && vfg_dead[2] == 1, "every array element destroyed once");
    { RcObj<Plain[]> r(new Plain[2]); r[1].id = 1; RcObj<Plain[]> s(r); vf_assert(&s[1] == &r[1] && s[1].id == 1 && r.get_cnt() == 2, "array shared"); }
    vf_assert(vfg_dead[3] == 3 && vfg_dead[1] == 1, "every shared array element destroyed once");
    if (!vf_is_native()) vf_assert(vf_leak_check() == 0, "nothing leaked");
    vf_cover("arrays");
}
// ---- atomic counts under interference.  Other threads own vfg_o owners and vfg_wk weak pointers of the same object; between any two
// atomic steps they may do anything their own pointers entitle them to: copy what they hold, drop what they hold, downgrade, upgrade.
static ArcObj<Obj>::base_t *vfg_dummy; static _ARCCtl *vfg_ctl; static uint64_t vfg_o, vfg_wk, vfg_base; static int vfg_mo, vfg_mw, vfg_gone, vfg_on;
#ifdef VF_VERIFY
extern "C" void c11_interfere(void *addr, int kind) {
    if (!vfg_on) return;
    if (kind >= 8) return;
    if (!vf_alive(vfg_ctl)) return;          // the access itself then fails as a use after free
    uint64_t r = vfg_ctl->ref_cnt, w = vfg_ctl->weak_cnt;
    // my pending contribution to the counts is whatever is there beyond the environment's share
    uint64_t mr = r - vfg_o, o = vf_u64("o'"), wk = vf_u64("w'");
    vf_assume((o <= 1u << 30) & (wk <= 1u << 30));
    vf_assume((vfg_o > 0) | (vfg_wk > 0) | ((o == 0) & (wk == 0)));            // pointers come only from pointers
    vf_assume((vfg_o > 0) | (mr > 0) | (o == 0));                              // owners only while one exists (upgrade refuses otherwise)
    bool had = r > 0, has = mr + o > 0;
    uint64_t nw = w - vfg_wk + wk - (had & !has ? 1 : 0);                      // the last owner gives up the owners' common weak reference
    vf_assume(!(had & !has & (vfg_gone != 0)));
    if (nw == 0) vf_kill();      // the environment freed the block: impossible while I hold a share (checked by the share obligation below)
    vfg_ctl->ref_cnt = mr + o; vfg_ctl->weak_cnt = nw; vfg_o = o; vfg_wk = wk;
    if (had & !has) { vfg_gone = 1; }
}
extern "C" void c11_retry_hook(int phase) {   // compare-and-swap retry: at the loop head I hold no share beyond my weak pointer
    size_t *c = (size_t *)vf_local("cnt"); if (!c) vf_hook_missing("locals");
    if (phase == 1) {
        vfg_o = vf_u64("o''"); vfg_wk = vf_u64("w''"); vf_assume((vfg_o <= 1u << 30) & (vfg_wk <= 1u << 30)); vfg_gone = vf_bool("gone"); vf_assume((vfg_gone != 0) == (vfg_o == 0));
        *c = vf_u64("seen");
        vfg_on = 0; vfg_ctl->ref_cnt = vfg_o; vfg_ctl->weak_cnt = 1 + vfg_wk + (vfg_o > 0); vfg_on = 1;
        vf_assume((*c > 0) | (vfg_gone != 0));    // a zero count is only ever read after the last owner went
    } else {
        vf_inv((uint64_t)*(uint64_t *)&vfg_ctl->ref_cnt == vfg_o, "upgrade retry: no count taken"); vf_inv((vfg_gone != 0) == (vfg_o == 0), "upgrade retry: owners");
        vf_inv((*c > 0) | (vfg_gone != 0), "upgrade retry: zero seen only when no owner is left");
    }
}
#endif
static void conc(int what) {
    ArcObj<Obj> *p = new ArcObj<Obj>(new Obj(0)); AweakObj<Obj> *w = new AweakObj<Obj>(*p);
    if (vf_is_native()) return;
    vfg_ctl = p->ctl; vfg_o = vf_u64("o"); vfg_wk = vf_u64("wk"); vf_assume((vfg_o <= 1u << 30) & (vfg_wk <= 1u << 30));
    if ((size_t)vfg_ctl->ref_cnt != 1 || (size_t)vfg_ctl->weak_cnt != 2) vf_hook_missing("count representation");
    vfg_ctl->ref_cnt = 1 + vfg_o; vfg_ctl->weak_cnt = 2 + vfg_wk; vfg_gone = 0;
    if (what == 0) { delete w; vfg_on = 1; delete p; }                   // drop an owner: no other share of mine
    else if (what == 1) { vf_assume(vfg_o > 0); delete p; vfg_on = 1; delete w; }   // drop a weak pointer
    else if (what == 2) { vf_assume(vfg_o > 0); delete p; vfg_on = 1; ArcObj<Obj> u(*w);   // upgrade a weak pointer
        vfg_on = 0; vf_assert((u.get() == nullptr) || ((uint64_t)vfg_ctl->ref_cnt == vfg_o + 1 && !vfg_gone), "concurrent upgrade yields an owner only if the object never lost its last owner"); vf_assert(u.get() != nullptr || vfg_gone, "concurrent upgrade fails only when no owner is left"); vf_cover("upgrade"); vf_kill(); }
    vfg_on = 0;
    bool freed = !vf_alive(vfg_ctl);
    if (freed) { vf_assert(vfg_o == 0 && vfg_wk == 0, "block freed only when nobody else holds it"); vf_cover("freed"); }
    else { vf_assert((uint64_t)vfg_ctl->ref_cnt == vfg_o, "owners counted exactly"); vf_assert((uint64_t)vfg_ctl->weak_cnt == vfg_wk + (vfg_o > 0) && (vfg_o > 0 || vfg_wk > 0), "block kept exactly while somebody holds it"); vf_cover("kept"); }
    vf_assert(what != 0 || vfg_dead[0] == (vfg_o == 0 && !vfg_gone), "the owner that takes the count to zero destroys the object");
    vf_kill();
}
extern "C" void c11_conc_owner() { conc(0); }
extern "C" void c11_conc_weak() { conc(1); }
extern "C" void c11_conc_upgrade() { conc(2); }
