// A second device which computes on host memory, and which, like a GPU, refuses operations that mix devices.
#include <ATen/ATen.h>
#include <ATen/native/Resize.h>
#include <ATen/ops/as_strided_native.h>
#include <ATen/ops/view_native.h>
#include <ATen/ops/_reshape_alias_native.h>
#include <ATen/ops/set_native.h>
#include <ATen/EmptyTensor.h>
#include <c10/core/Allocator.h>
#include <c10/core/impl/DeviceGuardImplInterface.h>
#include <torch/library.h>

namespace {
using at::Tensor;
constexpr auto PU = c10::DispatchKey::PrivateUse1;

struct Alloc final : at::Allocator {
  static void del(void* p) { free(p); }
  at::DataPtr allocate(size_t n) const override {
    void* p = nullptr;
    if (posix_memalign(&p, 64, n ? n : 1)) throw std::bad_alloc();
    return {p, p, &del, at::Device(at::DeviceType::PrivateUse1, 0)};
  }
  at::DeleterFnPtr raw_deleter() const override { return &del; }
};
Alloc alloc;
REGISTER_ALLOCATOR(c10::DeviceType::PrivateUse1, &alloc);
C10_REGISTER_GUARD_IMPL(PrivateUse1, c10::impl::NoOpDeviceGuardImpl<c10::DeviceType::PrivateUse1>);

Tensor empty(c10::IntArrayRef size, c10::optional<at::ScalarType> dtype, c10::optional<at::Layout>, c10::optional<at::Device>,
             c10::optional<bool>, c10::optional<at::MemoryFormat> mf) {
  return at::detail::empty_generic(size, &alloc, c10::DispatchKeySet(PU), c10::dtype_or_default(dtype), mf);
}
Tensor empty_strided(c10::IntArrayRef size, c10::IntArrayRef stride, c10::optional<at::ScalarType> dtype, c10::optional<at::Layout>,
                     c10::optional<at::Device>, c10::optional<bool>) {
  return at::detail::empty_strided_generic(size, stride, &alloc, c10::DispatchKeySet(PU), c10::dtype_or_default(dtype));
}
// the same memory seen as a CPU tensor
Tensor host(const Tensor& t) {
  if (t.device().is_cpu()) return t;
  auto base = t.storage();
  void* p = const_cast<void*>(base.data());
  c10::Storage st(c10::Storage::use_byte_size_t(), base.nbytes(), at::DataPtr(p, p, [](void*) {}, at::kCPU),
                  c10::GetAllocator(at::kCPU), /*resizable=*/true);
  auto h = at::detail::make_tensor<c10::TensorImpl>(std::move(st), c10::DispatchKeySet(c10::DispatchKey::CPU), t.dtype());
  auto* impl = h.unsafeGetTensorImpl();
  impl->set_storage_offset(t.storage_offset());
  impl->set_sizes_and_strides(t.sizes(), t.strides());
  return h;
}
Tensor copy_from(const Tensor& self, const Tensor& dst, bool) {
  auto d = host(dst);
  d.copy_(host(self));
  return dst;
}
Tensor copy_from_and_resize(const Tensor& self, const Tensor& dst) {
  if (self.sizes() != dst.sizes()) const_cast<Tensor&>(dst).resize_(self.sizes());
  return copy_from(self, dst, false);
}
const Tensor& resize_(const Tensor& self, c10::IntArrayRef size, c10::optional<at::MemoryFormat>) {
  auto* impl = self.unsafeGetTensorImpl();
  impl->set_sizes_contiguous(size);
  size_t need = (impl->numel() + impl->storage_offset()) * impl->dtype().itemsize();
  auto s = impl->storage();
  if (s.nbytes() < need) {
    auto p = alloc.allocate(need);
    memcpy(p.get(), s.data(), s.nbytes());
    s.set_data_ptr(std::move(p));
    s.set_nbytes(need);
  }
  return self;
}
Tensor& set_storage(Tensor& self, at::Storage src, int64_t off, c10::IntArrayRef size, c10::IntArrayRef stride) {
  auto* impl = self.unsafeGetTensorImpl();
  impl->set_storage_keep_dtype(src);
  impl->set_storage_offset(off);
  impl->set_sizes_and_strides(size, stride);
  return self;
}
at::Scalar local_scalar(const Tensor& t) { return at::_local_scalar_dense(host(t)); }
Tensor as_strided(const Tensor& t, c10::IntArrayRef size, c10::IntArrayRef stride, c10::optional<int64_t> off) {
  return at::native::as_strided_tensorimpl(t, size, stride, off);
}
Tensor view(const Tensor& t, c10::IntArrayRef size) { return at::native::view(t, size); }
Tensor reshape_alias(const Tensor& t, c10::IntArrayRef size, c10::IntArrayRef stride) {
  return at::native::_reshape_alias(t, size, stride);
}

// Convolutions are not reached by the fallback.
Tensor there(const Tensor& t) {
  if (!t.defined()) return t;
  auto d = empty_strided(t.sizes(), t.strides(), t.scalar_type(), c10::nullopt, c10::nullopt, c10::nullopt);
  host(d).copy_(t);
  return d;
}
Tensor conv(const Tensor& x, const Tensor& w, const c10::optional<Tensor>& b, c10::IntArrayRef s, c10::IntArrayRef p, c10::IntArrayRef d,
            bool tr, c10::IntArrayRef op, int64_t g) {
  TORCH_CHECK(x.device() == w.device() && (!b.has_value() || !b->defined() || b->device() == x.device()), "Expected all tensors to be on the same device (convolution)");
  c10::optional<Tensor> hb = b.has_value() && b->defined() ? c10::optional<Tensor>(host(*b)) : c10::nullopt;
  return there(at::convolution(host(x), host(w), hb, s, p, d, tr, op, g));
}
std::tuple<Tensor, Tensor, Tensor> conv_back(const Tensor& gy, const Tensor& x, const Tensor& w, c10::IntArrayRef s, c10::IntArrayRef p,
                                             c10::IntArrayRef d, bool tr, c10::IntArrayRef op, int64_t g, std::array<bool, 3> m) {
  auto r = at::convolution_backward(host(gy), host(x), host(w), at::OptionalIntArrayRef(c10::IntArrayRef({w.size(tr ? 1 : 0)})), s, p, d, tr, op, g, m);
  return {there(std::get<0>(r)), there(std::get<1>(r)), there(std::get<2>(r))};
}

// Run the CPU kernel on the same memory.
void fallback(const c10::OperatorHandle& op, torch::jit::Stack* stack) {
  const auto& schema = op.schema();
  const auto& name = schema.name();
  const auto n = schema.arguments().size();
  const bool indexed = name.find("aten::index") == 0 || name.find("aten::_index") == 0;
  bool dev = false, cpu = false;
  std::vector<std::pair<Tensor, Tensor>> pairs;  // (tensor on this device, the same memory as a CPU tensor)
  auto see = [&](const Tensor& t, bool index) -> Tensor {
    if (!t.defined()) return t;
    if (t.device().type() != at::DeviceType::PrivateUse1) {
      if (t.dim() > 0 && !index) cpu = true;
      return t;
    }
    if (!index) dev = true;
    for (auto& p : pairs) if (p.first.is_same(t)) return p.second;
    pairs.emplace_back(t, host(t));
    return pairs.back().second;
  };
  std::vector<c10::IValue> args(stack->end() - n, stack->end());
  std::vector<c10::IValue> given = args;
  bool to_dev = false;
  for (size_t i = 0; i < n; ++i) {
    auto& v = args[i];
    bool index = indexed && schema.arguments()[i].name() == "indices";
    if (v.isTensor()) v = see(v.toTensor(), index);
    else if (v.isTensorList()) {
      c10::List<Tensor> l;
      for (const Tensor& t : v.toTensorVector()) l.push_back(see(t, index));
      v = l;
    } else if (v.isOptionalTensorList()) {
      c10::List<c10::optional<Tensor>> l;
      for (const auto& e : v.toOptionalTensorList()) {
        c10::optional<Tensor> t = e;
        l.push_back(t.has_value() ? c10::optional<Tensor>(see(*t, index)) : t);
      }
      v = l;
    } else if (v.isDevice() && v.toDevice().type() == at::DeviceType::PrivateUse1) {
      to_dev = true;
      v = at::Device(at::kCPU);
    }
  }
  TORCH_CHECK(!(dev && cpu), "Expected all tensors to be on the same device, but found at least two devices, ",
              "the second device and cpu! (", name, ")");
  TORCH_CHECK(dev || to_dev || !cpu, "indices should be either on cpu or on the same device as the indexed tensor (cpu) (", name, ")");
  stack->erase(stack->end() - n, stack->end());
  for (auto& v : args) stack->push_back(v);
  op.redispatchBoxed(c10::DispatchKeySet(c10::DispatchKey::CPU), stack);
  for (auto& p : pairs) {
    if (p.second.sizes() != p.first.sizes() || p.second.data_ptr() != host(p.first).data_ptr()) {
      if (!p.first.sizes().equals(p.second.sizes())) const_cast<Tensor&>(p.first).resize_(p.second.sizes());
      copy_from(p.second, p.first, false);
    }
  }
  const auto m = schema.returns().size();
  std::vector<c10::IValue> out(stack->end() - m, stack->end());
  stack->erase(stack->end() - m, stack->end());
  auto wrap = [&](const Tensor& t) -> Tensor {
    if (!t.defined() || !t.device().is_cpu()) return t;
    for (auto& p : pairs) if (p.second.is_same(t)) return p.first;
    for (auto& p : pairs)
      if (t.is_alias_of(p.second)) return at::native::as_strided_tensorimpl(p.first, t.sizes(), t.strides(), t.storage_offset());
    auto d = empty_strided(t.sizes(), t.strides(), t.scalar_type(), c10::nullopt, c10::nullopt, c10::nullopt);
    copy_from(t, d, false);
    return d;
  };
  for (auto& v : out) {
    if (v.isTensor()) v = wrap(v.toTensor());
    else if (v.isTensorList()) {
      c10::List<Tensor> l;
      for (const Tensor& t : v.toTensorVector()) l.push_back(wrap(t));
      v = l;
    }
    stack->push_back(v);
  }
}
}  // namespace

TORCH_LIBRARY_IMPL(aten, PrivateUse1, m) {
  m.impl("empty.memory_format", &empty);
  m.impl("empty_strided", &empty_strided);
  m.impl("_copy_from", &copy_from);
  m.impl("_copy_from_and_resize", &copy_from_and_resize);
  m.impl("resize_", &resize_);
  m.impl("set_.source_Storage_storage_offset", &set_storage);
  m.impl("_local_scalar_dense", &local_scalar);
  m.impl("as_strided", &as_strided);
  m.impl("convolution_overrideable", &conv);
  m.impl("convolution_backward_overrideable", &conv_back);
  m.impl("view", &view);
  m.impl("_reshape_alias", &reshape_alias);
}
TORCH_LIBRARY_IMPL(_, PrivateUse1, m) { m.fallback(torch::CppFunction::makeFromBoxedFunction<&fallback>()); }
