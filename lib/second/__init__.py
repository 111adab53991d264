"""A second device ("second:0") for torch, built here from device.cpp (about 15 s, kept in /verif/build by content).

Its tensors live in host memory and are computed by the CPU kernels, so every result can be compared with the CPU's bit for bit;
but torch takes it for a device of its own: tensors have to be moved there, and an operation given a tensor there together with
one on the CPU is refused in the way CUDA refuses it (0-dim operands and indices excepted)."""
import hashlib
import os
import subprocess
import sys
import tempfile
import types

import torch

HERE = os.path.dirname(os.path.abspath(__file__))


def build():
    src = os.path.join(HERE, "device.cpp")
    t = os.path.dirname(torch.__file__)
    cmd = ["g++", "-O1", "-std=c++17", "-fPIC", "-shared", "-w", "-D_GLIBCXX_USE_CXX11_ABI=%d" % int(torch._C._GLIBCXX_USE_CXX11_ABI),
           "-I%s/include" % t, "-I%s/include/torch/csrc/api/include" % t, src, "-L%s/lib" % t, "-ltorch_cpu", "-lc10", "-Wl,-rpath,%s/lib" % t]
    key = hashlib.sha256((open(src).read() + torch.__version__ + " ".join(cmd)).encode()).hexdigest()[:16]
    out = os.path.join(os.path.dirname(os.path.dirname(HERE)), "build", "second-%s.so" % key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".so", dir=os.path.dirname(out))
        os.close(fd)
        try:
            subprocess.run(cmd + ["-o", tmp], check=True, stdout=sys.stderr)
            os.replace(tmp, out)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
    return out


def load():
    if not hasattr(torch, "second"):
        torch.utils.rename_privateuse1_backend("second")
        torch.ops.load_library(build())
        m = types.ModuleType("second")
        m.is_available, m.current_device, m.device_count = (lambda: True), (lambda: 0), (lambda: 1)
        m._is_in_bad_fork, m.manual_seed_all = (lambda: False), (lambda s: None)
        torch._register_device_module("second", m)
    return torch.device("second:0")
