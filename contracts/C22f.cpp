// C22: formatting.  vsnprintf is replaced by its contract: it formats to some text (or fails), stores what fits and a terminator, and returns the full length; a va_list is consumed by it.
#include <vf.h>
#include <vector>
#include <string>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include "salticidae/util.h"
using namespace salticidae;
static uint8_t *vfg_txt; static size_t vfg_len; static int vfg_failat, vfg_calls; static const void *vfg_used; static size_t vfg_gp;
extern "C" int vsnprintf(char *b, size_t n, const char *, va_list ap) throw() {
    vf_assert(vfg_used != (const void *)ap, "an argument list is not used again after it was consumed"); vfg_used = (const void *)ap; if (++vfg_calls == vfg_failat) return -1;
    if (n > 0) { size_t k = vfg_len < n - 1 ? vfg_len : n - 1; memcpy(b, vfg_txt, k); b[k] = 0; } return (int)vfg_len;
}
static std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string r = vstringprintf(f, ap); va_end(ap); return r; }
extern "C" void c22_format() {
    vfg_len = vf_u64("len"); vf_assume(vfg_len <= (vf_bounded() ? 1100 : 1u << 20)); vfg_txt = vf_bytes("text", vfg_len + 1); int direct = vf_choice("direct", 2); std::string r = direct ? fmt("%s", "x") : stringprintf("%s", "x");
    vf_assert(r.size() == vfg_len, "the formatted text is complete for any length"); if (r.size() != vfg_len) return; vf_assert_mem_eq(r.data(), vfg_txt, vfg_len, "the formatted text is complete for any length"); if (vfg_len >= 1024) vf_cover("long"); else vf_cover("short");
}
extern "C" void c22_badformat() { vfg_len = 3000; vfg_txt = vf_bytes("text", vfg_len + 1); vfg_failat = 1 + vf_choice("fails", 2); std::string r = stringprintf("%s", "x"); vf_assert(r.size() == 0, "formatting that fails gives no text"); vf_cover("failed"); }
