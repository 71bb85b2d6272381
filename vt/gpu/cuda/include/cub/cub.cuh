#include "cub/block/block_reduce.cuh"
