"""Lets the repository compile its kernels for the emulated device."""
import os
import sys
from vt import env

env.install(sys.argv[1])
from longitudinal_tomography import cuda_kernels  # noqa
cuda_kernels.compile_kernels()
sys.stdout.flush()
os._exit(0)
