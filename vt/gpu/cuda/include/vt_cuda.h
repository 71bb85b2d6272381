// The parts of CUDA the kernels use, on host threads.  Every thread of a block
// is a thread of the host, so missing synchronisation and plain updates where
// atomic ones are needed are visible to ThreadSanitizer; blocks run one after
// the other.
#pragma once
#include <math.h>
#include <cmath>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <limits>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __constant__ static const
#define __forceinline__ inline
#define __noinline__ __attribute__((noinline))
#define __launch_bounds__(...)
#define __shared__ static
#ifndef __restrict__
#define __restrict__ __restrict
#endif
#define CUDART_INF (std::numeric_limits<double>::infinity())

struct vt_dim { unsigned x, y, z; };
typedef vt_dim dim3;
inline thread_local vt_dim threadIdx, blockIdx, blockDim, gridDim;
static const int warpSize = 32;

namespace vt {
// A barrier of the threads of a block that have not left the kernel yet.
struct Barrier {
    std::mutex m;
    std::condition_variable c;
    unsigned n = 0, left = 0, here = 0, round = 0;
    void set(unsigned k) { n = k; left = here = 0; }
    void open() { here = 0; round++; c.notify_all(); }
    void wait() {
        std::unique_lock<std::mutex> l(m);
        unsigned r = round;
        if (++here + left == n) open();
        else c.wait(l, [&] { return round != r; });
    }
    void leave() {
        std::lock_guard<std::mutex> l(m);
        left++;
        if (here && here + left == n) open();
    }
};
struct End {   // between blocks
    pthread_barrier_t b;
    explicit End(unsigned k) { pthread_barrier_init(&b, nullptr, k); }
    ~End() { pthread_barrier_destroy(&b); }
    void wait() { pthread_barrier_wait(&b); }
};
inline Barrier barrier;

template <class... A, size_t... I>
void call(void (*f)(A...), void **args, std::index_sequence<I...>) {
    f(*static_cast<std::remove_const_t<A> *>(args[I])...);
}

template <class... A>
int count(void (*)(A...)) { return sizeof...(A); }

template <class... A>
int launch(void (*f)(A...), const unsigned *g, const unsigned *b, void **args) {
    unsigned n = b[0] * b[1] * b[2], blocks = g[0] * g[1] * g[2];
    End end(n);
    barrier.set(n);
    // every thread reads its own copy of the parameters
    auto body = [=, &end](unsigned t) {
        blockDim = {b[0], b[1], b[2]};
        gridDim = {g[0], g[1], g[2]};
        threadIdx = {t % b[0], t / b[0] % b[1], t / (b[0] * b[1])};
        for (unsigned k = 0; k < blocks; k++) {
            blockIdx = {k % g[0], k / g[0] % g[1], k / (g[0] * g[1])};
            call(f, args, std::index_sequence_for<A...>{});
            barrier.leave();
            end.wait();
            if (t == 0) barrier.set(n);
            end.wait();
        }
    };
    std::vector<std::thread> th;
    for (unsigned t = 1; t < n; t++) th.emplace_back(body, t);
    body(0);
    for (auto &t : th) t.join();
    return 0;
}
}  // namespace vt

inline void __syncthreads() { vt::barrier.wait(); }
inline void __syncwarp(unsigned = 0xffffffffu) {}
inline void __threadfence_block() { std::atomic_thread_fence(std::memory_order_seq_cst); }
inline void __threadfence() { std::atomic_thread_fence(std::memory_order_seq_cst); }

template <class T, class U, class F>
T vt_atomic(T *p, U v, F f) {
    T old, want;
    __atomic_load(p, &old, __ATOMIC_SEQ_CST);
    do { want = f(old, (T)v); } while (!__atomic_compare_exchange(p, &old, &want, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
    return old;
}
template <class T, class U> T atomicAdd(T *p, U v) { return vt_atomic(p, v, [](T a, T b) { return (T)(a + b); }); }
template <class T, class U> T atomicSub(T *p, U v) { return vt_atomic(p, v, [](T a, T b) { return (T)(a - b); }); }
template <class T, class U> T atomicMax(T *p, U v) { return vt_atomic(p, v, [](T a, T b) { return a > b ? a : b; }); }
template <class T, class U> T atomicMin(T *p, U v) { return vt_atomic(p, v, [](T a, T b) { return a < b ? a : b; }); }
template <class T, class U> T atomicExch(T *p, U v) { return vt_atomic(p, v, [](T, T b) { return b; }); }
template <class T> T atomicCAS(T *p, T c, T v) { __atomic_compare_exchange(p, &c, &v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
template <class T> T __ldg(const T *p) { return *p; }
inline float __sinf(float x) { return sinf(x); }
inline float __cosf(float x) { return cosf(x); }
using std::max;
using std::min;
