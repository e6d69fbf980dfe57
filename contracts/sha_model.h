// Assumed contract of the OpenSSL digests: a digest is a function of the concatenated input bytes.
#pragma once
#include <openssl/sha.h>
#include <stdlib.h>
#include <string.h>
struct VfSha { uint8_t *p; size_t n; uint64_t tag; };
static void ref_sha1(const uint8_t *p, size_t n, uint8_t *out);
static void ref_sha256(const uint8_t *p, size_t n, uint8_t *out);
#ifdef VF_VERIFY
extern "C" {
static int vf_sha_init(void *c, uint64_t tag) { VfSha *s = (VfSha *)c; s->p = nullptr; s->n = 0; s->tag = tag; return 1; }
static int vf_sha_update(void *c, const void *d, size_t n, uint64_t tag) {
    VfSha *s = (VfSha *)c;
    vf_assert(s->tag == tag, "digest context is initialised");
    if (n) { uint8_t *q = (uint8_t *)malloc(s->n + n); memcpy(q, s->p, s->n); memcpy(q + s->n, d, n); s->p = q; s->n += n; }
    return 1;
}
static int vf_sha_final(unsigned char *md, void *c, uint64_t tag, size_t len) {
    VfSha *s = (VfSha *)c;
    vf_assert(s->tag == tag, "digest context is initialised");
    vf_hash(md, len, s->p, s->n, tag == 0x51 ? 1 : 256);
    s->tag = 0;
    return 1;
}
int SHA1_Init(SHA_CTX *c) { return vf_sha_init(c, 0x51); }
int SHA1_Update(SHA_CTX *c, const void *d, size_t n) { return vf_sha_update(c, d, n, 0x51); }
int SHA1_Final(unsigned char *md, SHA_CTX *c) { return vf_sha_final(md, c, 0x51, 20); }
int SHA256_Init(SHA256_CTX *c) { return vf_sha_init(c, 0x52); }
int SHA256_Update(SHA256_CTX *c, const void *d, size_t n) { return vf_sha_update(c, d, n, 0x52); }
int SHA256_Final(unsigned char *md, SHA256_CTX *c) { return vf_sha_final(md, c, 0x52, 32); }
}
static void ref_sha1(const uint8_t *p, size_t n, uint8_t *out) { vf_hash(out, 20, p, n, 1); }
static void ref_sha256(const uint8_t *p, size_t n, uint8_t *out) { vf_hash(out, 32, p, n, 256); }
#else
static void ref_sha1(const uint8_t *p, size_t n, uint8_t *out) { SHA1(p, n, out); }
static void ref_sha256(const uint8_t *p, size_t n, uint8_t *out) { SHA256(p, n, out); }
#endif
