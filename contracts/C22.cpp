// Contracts for src/util.cpp string utilities and the option table (util.h Config): C22.
#include <vf.h>
#include <vector>
#include <string>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include "salticidae/util.h"
using namespace salticidae;
static bool blank(uint8_t c) { return (c == '\t') | (c == '\r') | (c == '\n') | (c == ' '); }
// ---- trimming, text of any length
extern "C" void c22_trim() {
    size_t n = vf_u64("n"); vf_assume(n <= (vf_bounded() ? 5 : 1u << 20)); uint8_t *t = vf_bytes("text", n + 1); std::string s((const char *)t, n); std::string r = trim(s); size_t m = r.size();
    size_t k = vf_u64("k"); vf_assume(k < n);
    if (m == 0) { vf_assume_byte_facts(k); vf_assert(blank(t[k]), "the result is empty only if every character is to be removed"); vf_cover("empty"); return; }
    size_t b = s.find_first_not_of("\t\r\n "); vf_assert(b != std::string::npos && b + m <= n, "the result is a part of the text"); if (b == std::string::npos) return; vf_assume_byte_facts(n - 1 - b);
    vf_assert_mem_eq(r.data(), t + b, m, "the result is the text from the first character not removed"); vf_assert(!blank(t[b]) & !blank(t[b + m - 1]), "neither end of the result is to be removed");
    vf_assume_byte_facts(k); vf_assume_byte_facts(n - 1 - k); if (k < b || k >= b + m) vf_assert(blank(t[k]), "only leading and trailing characters of the set are removed"); vf_cover("trimmed");
}
// any set of characters (short texts, exact)
extern "C" void c22_trimset() {
    size_t n = vf_choice("n", vf_tier() ? 5 : 4), m = vf_choice("m", 4); uint8_t *t = vf_bytes("text", n + 1), *c = vf_bytes("set", m + 1); std::string s((const char *)t, n), cs((const char *)c, m); std::string r = trim(s, cs);
    bool in[8]; for (size_t i = 0; i < n; i++) { in[i] = false; for (size_t j = 0; j < m; j++) in[i] |= t[i] == c[j]; }
    size_t b = 0, e = n; while (b < n && in[b]) b++; while (e > b && in[e - 1]) e--; vf_assert(r.size() == e - b, "trimming removes exactly the leading and trailing characters of the set"); if (r.size() != e - b) return; vf_assert_mem_eq(r.data(), t + b, e - b, "and keeps the rest"); vf_cover("set");
}
// ---- splitting: one step over text of any length (loop contract), one-character delimiter
static const uint8_t *vfg_t; static size_t vfg_n, vfg_last, vfg_k; static uint8_t vfg_d; static bool vfg_hook;
extern "C" void c22_split_hook(int phase) {
    if (!vfg_hook) return; size_t *last = (size_t *)vf_local("lastpos|last|start|begin|prev"); std::vector<std::string> *res = (std::vector<std::string> *)vf_local("res|result|ret|pieces|parts"); if (!res) res = (std::vector<std::string> *)vf_param(0); if (!last || !res) vf_hook_missing("locals");
    if (phase == 0) vf_inv((*last == 0) & (res->size() == 0), "splitting starts at the beginning");
    else if (phase == 1) { vf_assume(*last <= vfg_n); if (*last) vf_assume(vfg_t[*last - 1] == vfg_d); vfg_last = *last; new (res) std::vector<std::string>(); }
    else { vf_inv(res->size() == 1, "one piece per delimiter"); if (res->size() != 1) vf_kill(); size_t m = (*res)[0].size(); vf_inv((m <= vfg_n) & (vfg_last + m + 1 == *last) & (*last <= vfg_n), "a piece ends at the next delimiter"); if (!((m <= vfg_n) & (vfg_last + m + 1 == *last) & (*last <= vfg_n))) vf_kill(); vf_inv(vfg_t[*last - 1] == vfg_d, "the delimiter follows the piece");
        vf_assert_mem_eq((*res)[0].data(), vfg_t + vfg_last, m, "pieces rejoin to the original text"); if (vfg_k < m) { vf_assume_byte_facts(vfg_k); vf_inv(vfg_t[vfg_last + vfg_k] != vfg_d, "no piece contains the delimiter"); } }
}
extern "C" void c22_split() {
    vfg_n = vf_u64("n"); vf_assume(vfg_n <= (vf_bounded() ? 5 : 1u << 20)); vfg_t = vf_bytes("text", vfg_n + 1); vfg_d = vf_u8("delimiter"); vfg_k = vf_u64("k"); vf_assume(vfg_k <= vfg_n); std::string s((const char *)vfg_t, vfg_n), d(1, (char)vfg_d); vfg_hook = true; std::vector<std::string> r = split(s, d); vfg_hook = false;
    if (vf_is_native() || vf_bounded()) { size_t o = 0; for (size_t i = 0; i < r.size(); i++) { if (i) { vf_assert(o < vfg_n && vfg_t[o] == vfg_d, "pieces rejoin to the original text"); o++; } for (size_t j = 0; j < r[i].size(); j++) { vf_assert((uint8_t)r[i][j] != vfg_d, "no piece contains the delimiter"); vf_assert(o < vfg_n && vfg_t[o] == (uint8_t)r[i][j], "pieces rejoin to the original text"); o++; } } vf_assert(o == vfg_n, "pieces rejoin to the original text"); vf_cover("last piece"); return; }
    vf_assert(r.size() == 1, "the rest is the last piece"); if (r.size() != 1) return; vf_assert(vfg_last <= vfg_n && r[0].size() == vfg_n - vfg_last, "the rest is the last piece"); if (r[0].size() != vfg_n - vfg_last) return; vf_assert_mem_eq(r[0].data(), vfg_t + vfg_last, vfg_n - vfg_last, "pieces rejoin to the original text"); if (vfg_k < vfg_n - vfg_last) { vf_assume_byte_facts(vfg_k); vf_assert(vfg_t[vfg_last + vfg_k] != vfg_d, "no piece contains the delimiter"); } vf_cover("last piece");
}
// any delimiter (short texts, exact)
extern "C" void c22_splitany() {
    size_t n = vf_choice("n", vf_tier() ? 6 : 5), m = vf_choice("m", 4); uint8_t *t = vf_bytes("text", n + 1), *d = vf_bytes("delimiter", m + 1); std::string s((const char *)t, n), ds((const char *)d, m); std::vector<std::string> r = split(s, ds); vf_assert(r.size() >= 1 && r.size() <= n + 1, "at least one piece"); std::string j;
    for (size_t i = 0; i < r.size(); i++) { if (i) j += ds; j += r[i]; bool has = false; if (m) for (size_t a = 0; a + m <= r[i].size(); a++) { bool q = true; for (size_t b = 0; b < m; b++) q &= (uint8_t)r[i][a + b] == d[b]; has |= q; } vf_assert(!has, "no piece contains the delimiter"); }
    vf_assert(j.size() == n, "pieces rejoin to the original text"); if (j.size() == n) vf_assert_mem_eq(j.data(), t, n, "pieces rejoin to the original text"); vf_cover("any delimiter");
}
extern "C" void c22_trimall() { size_t c = vf_choice("count", 3); std::vector<std::string> v; uint8_t *t = vf_bytes("text", 9); size_t l[3]; for (size_t i = 0; i < c; i++) { l[i] = vf_choice("len", 3); v.push_back(std::string((const char *)t + 3 * i, l[i])); } std::vector<std::string> r = trim_all(v); vf_assert(r.size() == c, "one result per text"); if (r.size() != c) return; for (size_t i = 0; i < c; i++) vf_assert(r[i] == trim(v[i]), "each trimmed"); vf_cover("all"); }
