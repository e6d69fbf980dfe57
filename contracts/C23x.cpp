// Contracts for the C interface to certificates and keys (src/crypto.cpp): C23.
#include <vf.h>
#include <vector>
#include <string>
#include <string.h>
#include <stdio.h>
#include <openssl/ssl.h>
#include <openssl/pem.h>
#include "salticidae/crypto.h"
#include "sha_model.h"
namespace sl = salticidae;
struct x509_st { int id, refs; };
struct evp_pkey_st { int id, refs, priv; };
static x509_st vfg_c; static evp_pkey_st vfg_k; static int vfg_open, vfg_parse, vfg_pwlen, vfg_pwasked, vfg_derlen; static const void *vfg_der; static char vfg_pw[64]; static int vfg_fp; static int vfg_out;
static int pw(pem_password_cb *cb) { vfg_pwasked++; memset(vfg_pw, 0, sizeof vfg_pw); vfg_pwlen = cb(vfg_pw, sizeof vfg_pw, 0, nullptr); return vfg_pwlen; }
extern "C" {
#ifdef VF_VERIFY
FILE *fopen(const char *f, const char *) { vf_assert(f[0] == 'f' && f[1] == 0, "the file named"); if (!vfg_open) return nullptr; return (FILE *)&vfg_fp; }

char *strerror(int) throw() { return (char *)"system error"; }
int vsnprintf(char *b, size_t n, const char *, va_list) throw() { if (n > 1) { b[0] = 63; b[1] = 0; } else if (n) b[0] = 0; return 1; }
#endif
X509 *PEM_read_X509(FILE *, X509 **, pem_password_cb *cb, void *) { pw(cb); if (!vfg_parse) return nullptr; vfg_c.refs++; return &vfg_c; }
EVP_PKEY *PEM_read_PrivateKey(FILE *, EVP_PKEY **, pem_password_cb *cb, void *) { pw(cb); if (!vfg_parse) return nullptr; vfg_k.refs++; return &vfg_k; }
X509 *d2i_X509(X509 **, const unsigned char **p, long n) { vfg_der = *p; vfg_derlen = (int)n; if (!vfg_parse) return nullptr; vfg_c.refs++; return &vfg_c; }
EVP_PKEY *d2i_AutoPrivateKey(EVP_PKEY **, const unsigned char **p, long n) { vfg_der = *p; vfg_derlen = (int)n; if (!vfg_parse) return nullptr; vfg_k.refs++; return &vfg_k; }
EVP_PKEY *X509_get_pubkey(X509 *) { if (!vfg_parse) return nullptr; vfg_k.refs++; return &vfg_k; }
static int der(unsigned char **p, uint8_t tag) { if (!vfg_parse) return vfg_out; unsigned char *b = (unsigned char *)malloc(4); b[0] = tag; b[1] = 1; b[2] = 2; b[3] = 3; *p = b; return 4; }
int i2d_X509(const X509 *, unsigned char **p) { return der(p, 1); }
int i2d_PublicKey(const EVP_PKEY *, unsigned char **p) { return der(p, 2); }
int i2d_PrivateKey(const EVP_PKEY *, unsigned char **p) { return der(p, 3); }
void X509_free(X509 *x) { vf_assert(x->refs > 0, "certificate released once"); x->refs--; }
void EVP_PKEY_free(EVP_PKEY *k) { vf_assert(k->refs > 0, "key released once"); k->refs--; }
void OPENSSL_cleanse(void *p, size_t n) { memset(p, 0, n); }
void CRYPTO_free(void *p, const char *, int) { free(p); }
}
static SalticidaeCError any_err() { SalticidaeCError e; e.code = (int)vf_u32("code0"); e.oscode = (int)vf_u32("oscode0"); return e; }
#ifdef VF_VERIFY
static void prep() {}
#else
static void prep() { remove("f"); if (vfg_open) fclose(fopen("f", "w")); }   // in the scratch directory of the replay
#endif
extern "C" void c23x_load() {
    vfg_open = vf_choice("opens", 2); vfg_parse = vf_choice("parses", 2); int key = vf_choice("key", 2), what = vf_choice("what", 3); SalticidaeCError e = any_err(); void *r; uint8_t d[5] = {1, 2, 3, 4, 5}; bytearray_t *b = new bytearray_t(d, d + 5); prep(); const char *pws = what == 1 ? "secret" : nullptr;
    if (what == 2) { if (key) r = pkey_new_privkey_from_der(b, &e); else r = x509_new_from_der(b, &e); vf_assert(vfg_derlen == 5 && vfg_der == b->data(), "the bytes given are parsed"); } else { if (key) r = pkey_new_privkey_from_pem_file("f", pws, &e); else r = x509_new_from_pem_file("f", pws, &e); if (vfg_open) { vf_assert(vfg_pwasked == 1 && vfg_pwlen == (pws ? 6 : -1), "the passphrase is used exactly when given"); if (pws) vf_assert(vfg_pw[0] == 's' && vfg_pw[5] == 't' && vfg_pw[6] == 0, "that passphrase"); } }
    bool ok = vfg_parse && (what == 2 || vfg_open); vf_assert((r != nullptr) == ok, "an object is returned exactly when loading succeeded"); if (ok) { vf_assert(e.code == sl::SALTI_NORMAL && e.oscode == 0 && (key ? vfg_k.refs : vfg_c.refs) == 1, "success is reported"); if (key) pkey_free((pkey_t *)r); else x509_free((x509_t *)r); vf_assert(vfg_k.refs == 0 && vfg_c.refs == 0, "released"); vf_cover("loaded"); } else { vf_assert(e.code == (key ? sl::SALTI_ERROR_TLS_KEY : sl::SALTI_ERROR_TLS_X509), "failure is reported"); vf_cover("failed"); }
}
extern "C" void c23x_der() {
    vfg_c.refs = vfg_k.refs = 1; x509_t c(&vfg_c); pkey_t k(&vfg_k); vfg_parse = vf_choice("ok", 2); vfg_out = -(int)vf_choice("how", 2); int what = vf_choice("what", 4); bool left = false; void *r = nullptr; try { switch (what) { case 0: r = x509_get_der(&c); break; case 1: r = pkey_get_pubkey_der(&k); break; case 2: r = pkey_get_privkey_der(&k); break; default: r = x509_get_pubkey(&c); } } catch (...) { left = true; }
    vf_assert(!left, "no exception leaves a C function"); vf_assert((r != nullptr) == (bool)vfg_parse, "null is returned exactly when the operation failed"); if (r && what < 3) { bytearray_t *b = (bytearray_t *)r; vf_assert(bytearray_size(b) == 4 && (*b)[0] == what + 1 && (*b)[3] == 3, "the encoding"); bytearray_free(b); } else if (r) { vf_assert(vfg_k.refs == 2, "the certificate's key"); pkey_free((pkey_t *)r); } vf_cover(r ? "encoded" : "failed");
}
