// C22: option values, configuration files and command lines.  fopen/fgets/fclose and getopt_long are replaced by their contracts (natively: the real ones, on a scratch file).
#include <vf.h>
#include <vector>
#include <string>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <getopt.h>
#include "salticidae/util.h"
using namespace salticidae;
static bool seq(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static void cpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); }
static char vfg_file[70000]; static size_t vfg_fn, vfg_fp, vfg_eol /* end of the only line, when long */; static int vfg_open, vfg_nofile; static char vfg_fname[64] = "vf.conf";
#ifdef VF_VERIFY
static char vfg_FILE[8];
extern "C" int vsnprintf(char *b, size_t n, const char *, va_list) throw() { if (n > 1) { b[0] = 63; b[1] = 0; } else if (n) b[0] = 0; return 1; }  // text of error messages does not matter here
extern "C" FILE *fopen(const char *n, const char *) { if (vfg_nofile || !seq(n, vfg_fname)) return nullptr; vfg_open++; vfg_fp = 0; return (FILE *)vfg_FILE; }
extern "C" char *fgets(char *b, int n, FILE *f) { vf_assert(f == (FILE *)vfg_FILE && vfg_open == 1, "reads from the open file"); if (vfg_fp >= vfg_fn) return nullptr; size_t k = 0; if (vfg_eol) { k = vfg_eol - vfg_fp; if (k > (size_t)n - 1) k = n - 1; } else while (k < (size_t)n - 1 && vfg_fp + k < vfg_fn) if (vfg_file[vfg_fp + k++] == '\n') break; memcpy(b, vfg_file + vfg_fp, k); b[k] = 0; vfg_fp += k; return b; }
extern "C" int fclose(FILE *) { vf_assert(vfg_open == 1, "a file is closed once"); vfg_open--; return 0; }
// getopt_long for words that are either options or end the options ("+"-less GNU order is not used: options come first)
char *optarg; int optind = 1; static int vfg_optnext;
extern "C" int getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *li) throw() {
    if (optind >= argc) return -1; char *w = argv[optind]; optarg = nullptr; if (w[0] != '-' || !w[1]) return -1;
    if (w[1] == '-') { if (!w[2]) { optind++; return -1; } optind++; const char *nm = w + 2; size_t l = 0; while (nm[l] && nm[l] != '=') l++;
        for (int i = 0; lo[i].name; i++) if (strlen(lo[i].name) == l && memcmp(lo[i].name, nm, l) == 0) { vf_assert(lo[i].flag == nullptr, "results are returned"); if (li) *li = i; if (lo[i].has_arg == required_argument) { if (nm[l] == '=') optarg = (char *)nm + l + 1; else if (optind < argc) optarg = argv[optind++]; else return '?'; } else if (nm[l] == '=') return '?'; return lo[i].val; } return '?'; }
    char c = w[1]; for (int i = 0; so[i]; i++) if (so[i] == c && c != ':') { optind++; if (so[i + 1] == ':') { if (w[2]) optarg = w + 2; else if (optind < argc) optarg = argv[optind++]; else return '?'; } else if (w[2]) vf_kill(); return c; } optind++; return '?';
}
static void file_done() {} 
static void file_set() {}
#else
static void file_set() { if (vfg_nofile) return; cpy(vfg_fname, "/tmp/vfconfXXXXXX"); int fd = mkstemp(vfg_fname); if (write(fd, vfg_file, vfg_fn) != (ssize_t)vfg_fn) abort(); close(fd); }
static void file_done() { if (!vfg_nofile) unlink(vfg_fname); opterr = 0; }
#endif
static void put(const char *s) { size_t n = strlen(s); memcpy(vfg_file + vfg_fn, s, n); vfg_fn += n; }
struct Tab { Config c; RcObj<Config::OptValFlag> flag; RcObj<Config::OptValStr> str; RcObj<Config::OptValInt> num; RcObj<Config::OptValStrVec> vec; RcObj<Config::OptValDouble> dbl;
    bool eflag; std::string estr; int enum_; std::vector<std::string> evec; double edbl; int err;
    Tab(const std::string &f): c(f), flag(Config::OptValFlag::create(false)), str(Config::OptValStr::create(std::string("d"))), num(Config::OptValInt::create(5)), vec(Config::OptValStrVec::create()), dbl(Config::OptValDouble::create(1.5)), eflag(false), estr("d"), enum_(5), edbl(1.5), err(0) {
        c.add_opt("flag", flag, Config::SWITCH_ON, 'f'); c.add_opt("str", str, Config::SET_VAL, 's', "doc"); c.add_opt("num", num, Config::SET_VAL, 'n'); c.add_opt("vec", vec, Config::APPEND, 'v'); c.add_opt("dbl", dbl, Config::SET_VAL, 'x'); }
    void same() { vf_assert(flag->get() == eflag, "a switch is on exactly when it was given"); vf_assert(str->get() == estr, "a text option holds the last text given"); vf_assert(num->get() == enum_, "a number option holds the last number given"); vf_assert(dbl->get() == edbl, "a number option holds the last number given"); vf_assert(vec->get().size() == evec.size(), "a list option holds every text given"); for (size_t i = 0; i < evec.size() && i < vec->get().size(); i++) vf_assert(vec->get()[i] == evec[i], "in order"); }
    // the effect of one option with a value; false when it must be rejected
    bool give(int k, const char *v) { switch (k) { case 0: eflag = true; return true; case 1: estr = v; return true; case 3: evec.push_back(v); return true;
        case 2: { if (seq(v, "12")) enum_ = 12; else if (seq(v, "-7")) enum_ = -7; else return false; return true; }
        case 4: { if (seq(v, "12")) edbl = 12; else if (seq(v, "-7")) edbl = -7; else if (seq(v, "2.5")) edbl = 2.5; else if (seq(v, "99999999999")) edbl = 99999999999.0; else if (seq(v, "-2147483649")) edbl = -2147483649.0; else return false; return true; } default: return true; } }
};
static const char *KEYS[] = {"flag", "str", "num", "vec", "dbl", "nosuch", "", "num: 1", "str#"};
static const char *SHORT[] = {"f", "s", "n", "v", "x", "q", "nos", "s:", "-s"};
static const char *VALS[] = {"12", "-7", "12x", "", "99999999999", "a=b", "x y", "-2147483649", "2.5"};
// ---- configuration files
static void loadf(int lines) {
    struct { int k, v; } L[3]; vfg_fn = 0; for (int i = 0; i < lines; i++) { int k = L[i].k = vf_choice("key", i ? 5 : 9), v = L[i].v = vf_choice("value", lines > 1 ? 3 : 9), f = lines > 1 ? i : vf_choice("form", 4); const char *key = f == 3 ? SHORT[k] : KEYS[k]; if (f == 1) put(" \t"); put(key); put(f == 1 ? " = " : "="); put(VALS[v]); if (f == 1) put(" \r"); if (f != 2 || i + 1 < lines) put("\n"); if (f == 1) put("\n no option here\n"); }
    file_set(); Tab t(vfg_fname); bool thrown = false, ok = true; int code = 0; bool r = false; try { r = t.c.load(vfg_fname); } catch (SalticidaeError &e) { thrown = true; code = e.get_code(); } file_done();
    for (int i = 0; i < lines && ok; i++) ok = t.give(L[i].k, VALS[L[i].v]); vf_assert(thrown == !ok, "a configuration file is rejected exactly for a malformed or out-of-range number; unknown names are ignored"); if (thrown) { vf_assert(code == SALTI_ERROR_OPTVAL_INVALID, "with the invalid-value error"); vf_cover("rejected"); } else { vf_assert(r, "the file was read"); vf_cover("loaded"); } t.same();
}
extern "C" void c22_load() { loadf(1); }
extern "C" void c22_load2() { loadf(2); }
extern "C" void c22_nofile() { vfg_nofile = 1; cpy(vfg_fname, "/nonexistent/vf.conf"); Tab t(vfg_fname); vf_assert(!t.c.load(vfg_fname), "a missing file is not an error"); t.same(); vf_cover("missing"); }
extern "C" void c22_longline() {
    vfg_fn = 0; put("str="); int k = vf_choice("length", 3); size_t n = k == 0 ? 65534 : k == 1 ? 65535 : 69000; memset(vfg_file + 4, 'a', n - 4); vfg_fn = n; if (k != 1) put("\n"); vfg_eol = vfg_fn; file_set(); Tab t(vfg_fname); int code = 0; try { t.c.load(vfg_fname); } catch (SalticidaeError &e) { code = e.get_code(); } file_done();
    vf_assert(code == SALTI_ERROR_CONFIG_LINE_TOO_LONG, "a line that does not fit is rejected"); t.same(); vf_cover("too long");
}
extern "C" void c22_longok() { vfg_fn = 0; put("str="); memset(vfg_file + 4, 'a', 65500); vfg_fn = 65504; put("\n"); vfg_eol = vfg_fn; file_set(); Tab t(vfg_fname); int code = 0; try { t.c.load(vfg_fname); } catch (SalticidaeError &e) { code = e.get_code(); } file_done(); vf_assert(!code && t.str->get().size() == 65500, "a line that fits is read whole"); vf_cover("fits"); }
// ---- command lines; a configuration file may be given as well, the command line comes after it
extern "C" void c22_args() {
    vfg_fn = 0; int cnt = 1 + vf_choice("options", 2), file = cnt == 1 && vf_choice("file", 2); if (file) put("num=3\nstr=f\n"); else vfg_nofile = 1; file_set(); Tab t(vfg_fname); if (file) { t.enum_ = 3; t.estr = "f"; }
    char *av[8]; static char w[6][40]; int ac = 0, nw = 0; auto word = [&](const char *a, const char *b, const char *c) { char *p = w[nw++]; cpy(p, a); cpy(p + strlen(p), b); cpy(p + strlen(p), c); av[ac++] = p; }; word("prog", "", ""); bool ok = true; int code = 0;
    for (int i = 0; i < cnt; i++) { int k = vf_choice("option", i ? 4 : 6), f = i ? 0 : vf_choice("form", 4), v = k ? vf_choice("value", i ? 2 : 4) : 0; if (!k & (f == 1 || f == 3)) vf_kill(); if ((f == 3) & !VALS[v][0]) vf_kill();
        if (f == 0) { word("--", KEYS[k], ""); if (k) word(VALS[v], "", ""); } else if (f == 1) word("--", KEYS[k], (std::string("=") + VALS[v]).c_str()); else if (f == 2) { word("-", SHORT[k], ""); if (k) word(VALS[v], "", ""); } else word("-", SHORT[k], VALS[v]);
        if (ok) { if (k == 5) { ok = false; code = SALTI_ERROR_OPT_INVALID; } else if (!t.give(k, VALS[v])) { ok = false; code = SALTI_ERROR_OPTVAL_INVALID; } } }
    int rest = cnt == 1 && vf_choice("rest", 2); int opts = ac; if (rest) word("file.txt", "", ""); av[ac] = nullptr; optind = vf_is_native() ? 0 : 1; int got = 0; size_t r = 0; bool thrown = false; try { r = t.c.parse(ac, av); } catch (SalticidaeError &e) { thrown = true; got = e.get_code(); } file_done();
    vf_assert(thrown == !ok, "a command line is rejected exactly for an unknown option or a malformed number"); if (thrown) { vf_assert(got == code, "with the documented error"); vf_cover("rejected"); } else { vf_assert(r == (size_t)opts, "returns where the options end"); vf_cover("parsed"); } t.same();
}
// the option -c / conf loads a further file
extern "C" void c22_conf() { vfg_fn = 0; put("num=3\nvec=a\n"); file_set(); Tab t("/nonexistent/x.conf"); char *av[4]; char a0[] = "prog", a1[] = "--conf", a2[] = "-c"; int s = vf_choice("short", 2); av[0] = a0; av[1] = s ? a2 : a1; av[2] = vfg_fname; av[3] = nullptr; optind = vf_is_native() ? 0 : 1; size_t r = t.c.parse(3, av); file_done(); t.enum_ = 3; t.evec.push_back("a"); vf_assert(r == 3, "consumed"); t.same(); vf_cover("conf"); }
// ---- registration
extern "C" void c22_dup() { Tab t("/nonexistent/x.conf"); static const char *N[] = {"flag", "str", "conf", "s", "other"}; int k = vf_choice("name", 5); bool thrown = false; int code = 0; auto o = Config::OptValStr::create(std::string("new")); try { t.c.add_opt(N[k], o, Config::SET_VAL); } catch (SalticidaeError &e) { thrown = true; code = e.get_code(); } vf_assert(thrown == (k < 4), "a duplicate option name is rejected, a new one is not"); if (thrown) { vf_assert(code == SALTI_ERROR_OPTNAME_ALREADY_EXISTS, "with the documented error"); vf_cover("duplicate"); } else vf_cover("new");
    t.c.update("str", "v"); t.estr = "v"; t.same(); vf_assert(o->get() == "new", "the rejected option is not used"); }
extern "C" void c22_action() { Tab t("/nonexistent/x.conf"); int k = vf_choice("kind", 4); int err = 0; try { switch (k) { case 0: t.c.add_opt("z", t.num, (Config::Action)7); t.c.update("z", "1"); break; case 1: t.c.add_opt("z", t.flag, Config::SET_VAL); t.c.update("z", "1"); break; case 2: t.c.add_opt("z", t.str, Config::APPEND); t.c.update("z", "1"); break; case 3: t.c.add_opt("z", t.num, Config::SWITCH_ON); t.c.update("z", nullptr); break; } } catch (SalticidaeError &e) { err = e.get_code(); } vf_assert(err == (k ? SALTI_ERROR_GENERIC : SALTI_ERROR_OPT_UNKNOWN_ACTION), "an action the option does not support is an error"); t.same(); vf_cover("unsupported"); }
// ---- number options, text of any length
extern "C" void c22_num() {
    size_t n = vf_u64("n"); vf_assume(n <= (vf_bounded() ? 4 : 1u << 16)); uint8_t *t = vf_bytes("text", n + 1); if (vf_is_native() || vf_bounded()) for (size_t i = 0; i < n; i++) vf_assume(t[i] != 0); std::string s((const char *)t, n); Config::OptValInt o(5); bool thrown = false; int code = 0;
#ifdef VF_VERIFY
    vfg_num.calls = 0; vfg_num_exact = vf_bounded();
#endif
    try { o.set_val(s); } catch (SalticidaeError &e) { thrown = true; code = e.get_code(); }
    bool ok; long v = 0;
    if (vf_is_native() || vf_bounded()) { size_t i = 0; while (i < n && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) i++; bool neg = false; if (i < n && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-'; ok = i < n; for (; i < n; i++) { if (t[i] < '0' || t[i] > '9') ok = false; else if (v < 1L << 40) v = v * 10 + (t[i] - '0'); } if (neg) v = -v; ok = ok && v >= -2147483648L && v <= 2147483647L; }
    else {
#ifdef VF_VERIFY
        if (vfg_num.calls != 1 || vfg_num.len != n) vf_hook_missing("number parsing"); ok = vfg_num.err == 0 && vfg_num.idx == n; v = vfg_num.val;
#endif
    }
    vf_assert(thrown == !ok, "a number option accepts exactly whole in-range numbers"); if (ok) { vf_assert(o.get() == v, "and takes the value given"); vf_cover("number"); } else { vf_assert(code == SALTI_ERROR_OPTVAL_INVALID && o.get() == 5, "other text is rejected and changes nothing"); vf_cover("not a number"); }
}
