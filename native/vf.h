// Verifier intrinsics.  In the verifier these are built in; natively (replay) they are implemented by native/vf_native.cpp.
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t vf_u64(const char *name);
uint32_t vf_u32(const char *name);
uint16_t vf_u16(const char *name);
uint8_t vf_u8(const char *name);
bool vf_bool(const char *name);
double vf_double(const char *name);
uint32_t vf_choice(const char *name, uint32_t n);   // arbitrary value in 0..n-1, case split
void vf_assume(bool c);
void vf_assert(bool c, const char *label);           // postcondition obligation
void vf_inv(bool c, const char *label);              // invariant obligation
void vf_cover(const char *label);                    // must be reachable (vacuity guard)
void vf_kill();                                      // abandon the path silently
int vf_is_native();
int vf_bounded();                                    // bounded (counterexample search) mode?
int vf_bound();
int vf_tier();
uint8_t *vf_bytes(const char *name, size_t n);       // fresh heap object with n arbitrary bytes
void vf_havoc(void *p, size_t n, const char *name);
void vf_assert_mem_eq(const void *p, const void *q, size_t n, const char *label);
void vf_assume_byte_facts(uint64_t i);
void vf_grow(void *p, size_t n);
void vf_raw_vector(void *v, size_t bytes);           // give a default vector uninitialised storage (prove mode only)
size_t vf_objsize(const void *p);
int vf_alive(const void *p);
uint64_t vf_leak_check();
void *vf_local(const char *name);
void *vf_param(int i);
void vf_hook_missing(const char *why);
void vf_hash(void *out, size_t outlen, const void *in, size_t inlen, int algo);
uint64_t vf_uf(uint64_t id, uint64_t a, uint64_t b);
void vf_dump(const char *l, ...);
}
#endif
