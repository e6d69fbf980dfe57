// Assumed contract of eventfd (Linux manual): counter; read returns it and resets it (or 1 and decrements, with EFD_SEMAPHORE);
// read of a zero counter fails with EAGAIN if non-blocking and blocks otherwise; write adds.  Replaces read/write/close/eventfd for
// the model's own descriptors (several eventfds), in the verifier and natively.
#ifndef EFD_MODEL_H
#define EFD_MODEL_H
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <string.h>
#ifndef EFDN_
#define EFDN_ 8
#endif
static const int EFD0 = 777, EFDN = EFDN_;
static uint64_t vfg_ev[EFDN]; static int vfg_evflags[EFDN], vfg_evopen[EFDN], vfg_nev;
extern "C" int eventfd(unsigned c, int f) throw() { if (vfg_nev >= EFDN) vf_kill(); vfg_ev[vfg_nev] = c; vfg_evflags[vfg_nev] = f; vfg_evopen[vfg_nev] = 1; return EFD0 + vfg_nev++; }
static bool is_efd(int fd) { return fd >= EFD0 && fd < EFD0 + EFDN; }
static bool efd_ready(int fd) { return is_efd(fd) && vfg_ev[fd - EFD0] > 0; }
static ssize_t efd_read(int fd, void *p, size_t n) {
    int i = fd - EFD0; uint64_t v; vf_assert(vfg_evopen[i], "notification descriptor open while used");
    if (n < 8) { errno = EINVAL; return -1; }
    if (vfg_ev[i] == 0) { vf_assert(vfg_evflags[i] & EFD_NONBLOCK, "the event loop never blocks on its notification descriptor"); errno = EAGAIN; return -1; }
    if (vfg_evflags[i] & EFD_SEMAPHORE) { v = 1; vfg_ev[i]--; } else { v = vfg_ev[i]; vfg_ev[i] = 0; }
    memcpy(p, &v, 8); return 8;
}
static ssize_t efd_write(int fd, const void *p, size_t n) {
    int i = fd - EFD0; uint64_t v; vf_assert(vfg_evopen[i], "notification descriptor open while used");
    if (n < 8) { errno = EINVAL; return -1; }
    memcpy(&v, p, 8); vfg_ev[i] += v; return 8;
}
#ifndef EFD_NO_RW
extern "C" ssize_t read(int fd, void *p, size_t n) { if (is_efd(fd)) return efd_read(fd, p, n); if (vf_is_native()) return syscall(SYS_read, fd, p, n); vf_kill(); return -1; }
extern "C" ssize_t write(int fd, const void *p, size_t n) { if (is_efd(fd)) return efd_write(fd, p, n); if (vf_is_native()) return syscall(SYS_write, fd, p, n); return n; }
extern "C" int close(int fd) { if (is_efd(fd)) { vf_assert(vfg_evopen[fd - EFD0], "notification descriptor closed once"); vfg_evopen[fd - EFD0] = 0; return 0; } if (vf_is_native()) return syscall(SYS_close, fd); return 0; }
#endif
#endif
