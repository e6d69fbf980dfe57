// Contract of include/salticidae/queue.h, proved for that file under C08: a FIFO; a bounded enqueue is refused when the queue is full.
// Stands in for the queue's body when code above it is verified (and in the native replay of such checks).
#ifndef _SALTICIDAE_MPMCQUEUE_H
#define _SALTICIDAE_MPMCQUEUE_H
#include <atomic>
#include <vector>
#include <cassert>
#include <thread>
#include <utility>
namespace salticidae {
extern size_t vfg_qcap;       // elements a bounded queue takes at the moment (set by the contract driver)
const size_t MPMCQ_SIZE = 4096;
template<typename T> class MPMCQueue {
    protected:
    struct N { T v; N *n; template<typename U> N(U &&u): v(std::forward<U>(u)), n(nullptr) {} };
    N *first = nullptr, *last = nullptr; size_t cnt = 0;
    public:
    size_t vfg_cap = (size_t)-1;
    MPMCQueue() {} MPMCQueue(const MPMCQueue &) = delete; MPMCQueue(MPMCQueue &&) = delete;
    ~MPMCQueue() { while (first) { N *x = first; first = x->n; delete x; } }
    void set_capacity(size_t capacity = 0) { vfg_cap = capacity; }
    template<typename U> bool enqueue(U &&e, bool unbounded = true) {
        if (!unbounded && cnt >= vfg_qcap) return false;
        N *x = new N(std::forward<U>(e)); if (last) last->n = x; else first = x; last = x; cnt++; return true;
    }
    template<typename U> bool try_enqueue(U &&e) { return enqueue(std::forward<U>(e), false); }
    bool try_dequeue(T &e) { if (!first) return false; N *x = first; first = x->n; if (!first) last = nullptr; cnt--; e = std::move(x->v); delete x; return true; }
};
template<typename T> struct MPSCQueue: public MPMCQueue<T> {
    template<typename U> bool rewind(U &&e) { typedef typename MPMCQueue<T>::N N; N *x = new N(std::forward<U>(e)); x->n = this->first; this->first = x; if (!this->last) this->last = x; this->cnt++; return true; }
};
}
#endif
