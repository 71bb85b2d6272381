// cub::BlockReduce with the guarantees of its documentation and no more: the
// result is defined in thread 0 only, and the temporary storage may be used
// again only after a barrier.
#pragma once
#include "vt_cuda.h"
namespace cub {
struct Sum { template <class T> T operator()(const T &a, const T &b) const { return a + b; } };
struct Max { template <class T> T operator()(const T &a, const T &b) const { return a > b ? a : b; } };
struct Min { template <class T> T operator()(const T &a, const T &b) const { return a < b ? a : b; } };
enum BlockReduceAlgorithm { BLOCK_REDUCE_RAKING_COMMUTATIVE_ONLY, BLOCK_REDUCE_RAKING, BLOCK_REDUCE_WARP_REDUCTIONS };
template <class T, int NX, BlockReduceAlgorithm A = BLOCK_REDUCE_WARP_REDUCTIONS, int NY = 1, int NZ = 1>
struct BlockReduce {
    struct TempStorage { T v[NX * NY * NZ]; };
    TempStorage &s;
    explicit BlockReduce(TempStorage &t) : s(t) {}
    template <class F> T Reduce(T x, F f) {
        unsigned t = threadIdx.x + blockDim.x * (threadIdx.y + blockDim.y * threadIdx.z);
        if (t < NX * NY * NZ) s.v[t] = x;
        __syncthreads();
        if (t) return std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : T(0x7f7f7f7f);
        T r = s.v[0];
        for (int i = 1; i < NX * NY * NZ; i++) r = f(r, s.v[i]);   // all of them: the block has to have the size asked for
        return r;
    }
    template <class F, int K> T Reduce(T (&x)[K], F f) {
        T r = x[0];
        for (int i = 1; i < K; i++) r = f(r, x[i]);
        return Reduce(r, f);
    }
    T Sum(T x) { return Reduce(x, cub::Sum()); }
    template <int K> T Sum(T (&x)[K]) { return Reduce(x, cub::Sum()); }
};
}  // namespace cub
