// Stand-ins for the parts of cuTENSOR, cuSOLVER and the CUDA stream interface that the extension calls, working on
// CPU memory. They compute what the libraries document, watch how they are used, and fail on demand. All accesses to
// the caller's tensors are made here, so a sanitizer sees every element a real kernel would touch.
#include <cutensor.h>
#include <cusolverDn.h>
#include <c10/cuda/CUDAStream.h>
#include <complex>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace standin {
long long calls = 0, contractions = 0, factorizations = 0, not_positive = 0, misuse_count = 0, fail_at = 0, failed = 0, created = 0, handles_made = 0;
long long workspace = 0;          // workspace asked for by plans with the default preference
std::string first_misuse;
std::set<const void*> tensors, operations, plans, preferences, handles, solvers;

void misuse(const std::string& what) {
  if (misuse_count++ == 0) first_misuse = what;
}
// every call of the libraries is a point where it can be told to fail
bool fails() {
  ++calls;
  if (fail_at > 0 && --fail_at == 0) { ++failed; return true; }
  return false;
}
}  // namespace standin
using namespace standin;

struct cutensorHandle { int unused; };
struct cutensorComputeDescriptor { int bits; };
struct cutensorTensorDescriptor { std::vector<int64_t> extent, stride; cudaDataType_t type; uint32_t alignment; };
struct Operand { cutensorTensorDescriptor desc; std::vector<int32_t> mode; cutensorOperator_t op; };
struct cutensorOperationDescriptor { Operand a, b, c, d; int bits; };
struct cutensorPlanPreference { int unused; };
struct cutensorPlan { cutensorOperationDescriptor op; uint64_t workspace; };
struct cusolverDnContext { cudaStream_t stream; };

static cutensorComputeDescriptor c16{10}, cbf{7}, c32{23}, c64{52};
extern "C" {
extern const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_16F = &c16;
extern const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_16BF = &cbf;
extern const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_TF32 = &c16;
extern const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_3XTF32 = &c32;
extern const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_32F = &c32;
extern const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_64F = &c64;

const char* cutensorGetErrorString(const cutensorStatus_t error) { return error == CUTENSOR_STATUS_SUCCESS ? "success" : "stand-in failure"; }

cutensorStatus_t cutensorCreate(cutensorHandle_t* handle) {
  if (fails()) return CUTENSOR_STATUS_ALLOC_FAILED;
  *handle = new cutensorHandle{0};
  handles.insert(*handle);
  ++handles_made;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorDestroy(cutensorHandle_t handle) {
  if (!handles.erase(handle)) { misuse("destroying an unknown cuTENSOR handle"); return CUTENSOR_STATUS_INVALID_VALUE; }
  delete handle;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorCreateTensorDescriptor(const cutensorHandle_t handle, cutensorTensorDescriptor_t* desc, const uint32_t n, const int64_t extent[],
                                                const int64_t stride[], cudaDataType_t type, uint32_t alignment) {
  if (fails()) return CUTENSOR_STATUS_ALLOC_FAILED;
  if (!handles.count(handle)) { misuse("tensor descriptor without a handle"); return CUTENSOR_STATUS_NOT_INITIALIZED; }
  auto t = new cutensorTensorDescriptor;
  for (uint32_t i = 0; i < n; ++i) {
    if (extent[i] <= 0) { misuse("tensor extent that is not positive"); delete t; return CUTENSOR_STATUS_INVALID_VALUE; }
    t->extent.push_back(extent[i]);
  }
  t->stride.resize(n);
  int64_t s = 1;
  for (uint32_t i = 0; i < n; ++i) {
    if (stride) t->stride[i] = stride[i];
    else { t->stride[i] = s; s *= extent[i]; }
  }
  t->type = type;
  t->alignment = alignment;
  *desc = t;
  tensors.insert(t);
  ++created;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorDestroyTensorDescriptor(cutensorTensorDescriptor_t desc) {
  if (desc == nullptr) return CUTENSOR_STATUS_SUCCESS;
  if (!tensors.erase(desc)) { misuse("destroying an unknown tensor descriptor"); return CUTENSOR_STATUS_INVALID_VALUE; }
  delete desc;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorCreateContraction(const cutensorHandle_t handle, cutensorOperationDescriptor_t* desc,
    const cutensorTensorDescriptor_t a, const int32_t ma[], cutensorOperator_t oa, const cutensorTensorDescriptor_t b, const int32_t mb[], cutensorOperator_t ob,
    const cutensorTensorDescriptor_t c, const int32_t mc[], cutensorOperator_t oc, const cutensorTensorDescriptor_t d, const int32_t md[],
    const cutensorComputeDescriptor_t compute) {
  if (fails()) return CUTENSOR_STATUS_ALLOC_FAILED;
  if (!handles.count(handle) || !tensors.count(a) || !tensors.count(b) || !tensors.count(c) || !tensors.count(d)) {
    misuse("contraction of descriptors that do not exist");
    return CUTENSOR_STATUS_INVALID_VALUE;
  }
  auto mode = [](const cutensorTensorDescriptor_t t, const int32_t m[]) { return std::vector<int32_t>(m, m + t->extent.size()); };
  auto o = new cutensorOperationDescriptor{{*a, mode(a, ma), oa}, {*b, mode(b, mb), ob}, {*c, mode(c, mc), oc}, {*d, mode(d, md), CUTENSOR_OP_IDENTITY}, compute->bits};
  std::map<int32_t, int64_t> extent;
  std::string wrong;
  for (auto* x : {&o->a, &o->b, &o->c, &o->d}) {
    for (size_t i = 0; i < x->mode.size(); ++i) {
      auto it = extent.emplace(x->mode[i], x->desc.extent[i]).first;
      if (it->second != x->desc.extent[i]) wrong = "modes of different extent in one contraction";
    }
    if (x->desc.type != a->type) wrong = "tensors of different types in one contraction";
    bool real = a->type == CUTENSOR_R_32F || a->type == CUTENSOR_R_64F;
    if (real && x->op == CUTENSOR_OP_CONJ) wrong = "complex conjugate of a real tensor";
  }
  for (size_t i = 0; i < o->d.mode.size(); ++i)
    if (std::count(o->a.mode.begin(), o->a.mode.end(), o->d.mode[i]) + std::count(o->b.mode.begin(), o->b.mode.end(), o->d.mode[i]) == 0)
      wrong = "output mode that is not in the input";
  if (!wrong.empty()) { misuse(wrong); delete o; return CUTENSOR_STATUS_INVALID_VALUE; }
  *desc = o;
  operations.insert(o);
  ++created;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorDestroyOperationDescriptor(cutensorOperationDescriptor_t desc) {
  if (desc == nullptr) return CUTENSOR_STATUS_SUCCESS;
  if (!operations.erase(desc)) { misuse("destroying an unknown operation descriptor"); return CUTENSOR_STATUS_INVALID_VALUE; }
  delete desc;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorCreatePlanPreference(const cutensorHandle_t handle, cutensorPlanPreference_t* pref, cutensorAlgo_t, cutensorJitMode_t) {
  if (fails()) return CUTENSOR_STATUS_ALLOC_FAILED;
  if (!handles.count(handle)) { misuse("plan preference without a handle"); return CUTENSOR_STATUS_NOT_INITIALIZED; }
  *pref = new cutensorPlanPreference{0};
  preferences.insert(*pref);
  ++created;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorDestroyPlanPreference(cutensorPlanPreference_t pref) {
  if (pref == nullptr) return CUTENSOR_STATUS_SUCCESS;
  if (!preferences.erase(pref)) { misuse("destroying an unknown plan preference"); return CUTENSOR_STATUS_INVALID_VALUE; }
  delete pref;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorEstimateWorkspaceSize(const cutensorHandle_t handle, const cutensorOperationDescriptor_t desc, const cutensorPlanPreference_t pref,
                                               const cutensorWorksizePreference_t kind, uint64_t* size) {
  if (fails()) return CUTENSOR_STATUS_INTERNAL_ERROR;
  if (!handles.count(handle) || !operations.count(desc) || !preferences.count(pref)) { misuse("workspace estimate for unknown objects"); return CUTENSOR_STATUS_INVALID_VALUE; }
  *size = kind == CUTENSOR_WORKSPACE_MIN ? 0 : (uint64_t)workspace;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorCreatePlan(const cutensorHandle_t handle, cutensorPlan_t* plan, const cutensorOperationDescriptor_t desc, const cutensorPlanPreference_t pref,
                                    uint64_t limit) {
  if (fails()) return CUTENSOR_STATUS_ALLOC_FAILED;
  if (!handles.count(handle) || !operations.count(desc) || (pref && !preferences.count(pref))) { misuse("plan for unknown objects"); return CUTENSOR_STATUS_INVALID_VALUE; }
  *plan = new cutensorPlan{*desc, std::min<uint64_t>(limit, workspace)};
  plans.insert(*plan);
  ++created;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorDestroyPlan(cutensorPlan_t plan) {
  if (plan == nullptr) return CUTENSOR_STATUS_SUCCESS;
  if (!plans.erase(plan)) { misuse("destroying an unknown plan"); return CUTENSOR_STATUS_INVALID_VALUE; }
  delete plan;
  return CUTENSOR_STATUS_SUCCESS;
}

cutensorStatus_t cutensorPlanGetAttribute(const cutensorHandle_t handle, const cutensorPlan_t plan, cutensorPlanAttribute_t attr, void* buf, size_t size) {
  if (fails()) return CUTENSOR_STATUS_INTERNAL_ERROR;
  if (!handles.count(handle) || !plans.count(plan)) { misuse("attribute of an unknown plan"); return CUTENSOR_STATUS_INVALID_VALUE; }
  if (attr != CUTENSOR_PLAN_REQUIRED_WORKSPACE || size != sizeof(uint64_t)) { misuse("plan attribute of wrong size"); return CUTENSOR_STATUS_INVALID_VALUE; }
  std::memcpy(buf, &plan->workspace, sizeof(uint64_t));
  return CUTENSOR_STATUS_SUCCESS;
}
}  // extern "C"

template <typename T> struct Wide { using type = double; static T conj(T x) { return x; } };
template <typename R> struct Wide<std::complex<R>> { using type = std::complex<double>; static std::complex<R> conj(std::complex<R> x) { return std::conj(x); } };

static double rounded(double x, int bits) { return bits >= 52 ? x : (double)(float)x; }
static std::complex<double> rounded(std::complex<double> x, int bits) { return {rounded(x.real(), bits), rounded(x.imag(), bits)}; }

template <typename T>
static void multiply(const cutensorPlan& p, const T* alpha, const T* A, const T* B, const T* beta, const T* C, T* D) {
  using W = typename Wide<T>::type;
  const auto& o = p.op;
  // all modes, those of the output first
  std::vector<int32_t> modes = o.d.mode;
  std::vector<int64_t> extent = o.d.desc.extent;
  for (auto* x : {&o.a, &o.b})
    for (size_t i = 0; i < x->mode.size(); ++i)
      if (!std::count(modes.begin(), modes.end(), x->mode[i])) { modes.push_back(x->mode[i]); extent.push_back(x->desc.extent[i]); }
  auto strides = [&](const Operand& x) {
    std::vector<int64_t> s(modes.size(), 0);
    for (size_t i = 0; i < x.mode.size(); ++i)
      for (size_t j = 0; j < modes.size(); ++j)
        if (modes[j] == x.mode[i]) s[j] += x.desc.stride[i];
    return s;
  };
  auto sa = strides(o.a), sb = strides(o.b), sc = strides(o.c), sd = strides(o.d);
  size_t free = o.d.mode.size();
  int64_t outer = 1, inner = 1;
  for (size_t j = 0; j < modes.size(); ++j) (j < free ? outer : inner) *= extent[j];
  bool use_c = *beta != T(0);
  std::vector<W> result(outer);
  std::vector<int64_t> at(outer);
  for (int64_t u = 0; u < outer; ++u) {
    int64_t ia = 0, ib = 0, ic = 0, id = 0, r = u;
    for (size_t j = free; j-- > 0;) { int64_t k = r % extent[j]; r /= extent[j]; ia += k * sa[j]; ib += k * sb[j]; ic += k * sc[j]; id += k * sd[j]; }
    W sum = 0;
    for (int64_t v = 0; v < inner; ++v) {
      int64_t ja = ia, jb = ib, q = v;
      for (size_t j = modes.size(); j-- > free;) { int64_t k = q % extent[j]; q /= extent[j]; ja += k * sa[j]; jb += k * sb[j]; }
      W x = rounded(W(o.a.op == CUTENSOR_OP_CONJ ? Wide<T>::conj(A[ja]) : A[ja]), o.bits);
      W y = rounded(W(o.b.op == CUTENSOR_OP_CONJ ? Wide<T>::conj(B[jb]) : B[jb]), o.bits);
      sum += x * y;
    }
    W res = W(*alpha) * sum;
    if (use_c) res += W(*beta) * W(o.c.op == CUTENSOR_OP_CONJ ? Wide<T>::conj(C[ic]) : C[ic]);
    result[u] = rounded(res, o.bits);
    at[u] = id;
  }
  // kernels give no order in which the output is written; writing last exposes an output that overlaps an input
  for (int64_t u = 0; u < outer; ++u) D[at[u]] = T(result[u]);
}

static bool overlaps(const void* x, const Operand& ox, const void* y, const Operand& oy, size_t item) {
  auto last = [&](const Operand& o) { int64_t n = 0; for (size_t i = 0; i < o.mode.size(); ++i) n += (o.desc.extent[i] - 1) * o.desc.stride[i]; return (n + 1) * (int64_t)item; };
  auto a = (intptr_t)x, b = (intptr_t)y;
  return a < b + last(oy) && b < a + last(ox);
}

extern "C" cutensorStatus_t cutensorContract(const cutensorHandle_t handle, const cutensorPlan_t plan, const void* alpha, const void* A, const void* B, const void* beta,
                                             const void* C, void* D, void* work, uint64_t size, cudaStream_t) {
  if (fails()) return CUTENSOR_STATUS_EXECUTION_FAILED;
  if (!handles.count(handle) || !plans.count(plan)) { misuse("contraction with an unknown plan"); return CUTENSOR_STATUS_INVALID_VALUE; }
  if (size < plan->workspace || (plan->workspace > 0 && work == nullptr)) { misuse("workspace smaller than the plan requires"); return CUTENSOR_STATUS_INSUFFICIENT_WORKSPACE; }
  for (const void* p : {A, B, C, (const void*)D})
    // memory of the CPU allocator is aligned to 64 bytes only
    if ((uintptr_t)p % std::min<uint32_t>(64, plan->op.a.desc.alignment) != 0) misuse("pointer not aligned as promised in the tensor descriptor");
  size_t item = plan->op.a.desc.type == CUTENSOR_R_32F ? 4 : plan->op.a.desc.type == CUTENSOR_C_64F ? 16 : 8;
  if (overlaps(A, plan->op.a, D, plan->op.d, item) || overlaps(B, plan->op.b, D, plan->op.d, item)) misuse("output of a contraction overlaps its input");
  ++contractions;
  switch (plan->op.a.desc.type) {
    case CUTENSOR_R_32F: multiply<float>(*plan, (const float*)alpha, (const float*)A, (const float*)B, (const float*)beta, (const float*)C, (float*)D); break;
    case CUTENSOR_R_64F: multiply<double>(*plan, (const double*)alpha, (const double*)A, (const double*)B, (const double*)beta, (const double*)C, (double*)D); break;
    case CUTENSOR_C_32F: { using T = std::complex<float>; multiply<T>(*plan, (const T*)alpha, (const T*)A, (const T*)B, (const T*)beta, (const T*)C, (T*)D); break; }
    case CUTENSOR_C_64F: { using T = std::complex<double>; multiply<T>(*plan, (const T*)alpha, (const T*)A, (const T*)B, (const T*)beta, (const T*)C, (T*)D); break; }
    default: misuse("unknown data type"); return CUTENSOR_STATUS_NOT_SUPPORTED;
  }
  return CUTENSOR_STATUS_SUCCESS;
}

// ------------------------------------------------------------------ cuSOLVER (column major)
extern "C" cusolverStatus_t cusolverDnCreate(cusolverDnHandle_t* handle) {
  if (fails()) return CUSOLVER_STATUS_ALLOC_FAILED;
  *handle = new cusolverDnContext{nullptr};
  solvers.insert(*handle);
  ++handles_made;
  return CUSOLVER_STATUS_SUCCESS;
}
extern "C" cusolverStatus_t cusolverDnDestroy(cusolverDnHandle_t handle) {
  if (!solvers.erase(handle)) { misuse("destroying an unknown cuSOLVER handle"); return CUSOLVER_STATUS_INVALID_VALUE; }
  delete handle;
  return CUSOLVER_STATUS_SUCCESS;
}
extern "C" cusolverStatus_t cusolverDnSetStream(cusolverDnHandle_t handle, cudaStream_t stream) {
  if (fails()) return CUSOLVER_STATUS_INTERNAL_ERROR;
  if (!solvers.count(handle)) { misuse("stream of an unknown cuSOLVER handle"); return CUSOLVER_STATUS_NOT_INITIALIZED; }
  handle->stream = stream;
  return CUSOLVER_STATUS_SUCCESS;
}

static int needed(int n) { return 8 * n + 16; }

template <typename T>
static cusolverStatus_t factor(cusolverDnHandle_t h, cublasFillMode_t uplo, int n, T* A, int lda, T* work, int lwork, int* info) {
  if (fails()) return CUSOLVER_STATUS_INTERNAL_ERROR;
  if (!solvers.count(h)) { misuse("potrf with an unknown handle"); return CUSOLVER_STATUS_NOT_INITIALIZED; }
  if (n < 0 || lda < std::max(1, n)) { misuse("potrf with a leading dimension that is too small"); return CUSOLVER_STATUS_INVALID_VALUE; }
  if (lwork < needed(n)) { misuse("potrf with a workspace that is too small"); return CUSOLVER_STATUS_INVALID_VALUE; }
  for (int i = 0; i < lwork; ++i) work[i] = T(std::numeric_limits<double>::quiet_NaN());
  ++factorizations;
  bool lower = uplo == CUBLAS_FILL_MODE_LOWER;
  // only the chosen triangle is read and written
  auto at = [&](int i, int j) -> T& { return lower ? A[i + (int64_t)j * lda] : A[j + (int64_t)i * lda]; };
  auto get = [&](int i, int j) { return lower ? at(i, j) : Wide<T>::conj(at(i, j)); };
  auto put = [&](int i, int j, T v) { at(i, j) = lower ? v : Wide<T>::conj(v); };
  using W = typename Wide<T>::type;
  for (int j = 0; j < n; ++j) {
    W s = W(get(j, j));
    for (int k = 0; k < j; ++k) s -= W(get(j, k)) * W(Wide<T>::conj(get(j, k)));
    double d = std::real(s);
    if (!(d > 0)) { *info = j + 1; ++not_positive; return CUSOLVER_STATUS_SUCCESS; }
    d = std::sqrt(d);
    put(j, j, T(d));
    for (int i = j + 1; i < n; ++i) {
      W t = W(get(i, j));
      for (int k = 0; k < j; ++k) t -= W(get(i, k)) * W(Wide<T>::conj(get(j, k)));
      put(i, j, T(t / d));
    }
  }
  *info = 0;
  return CUSOLVER_STATUS_SUCCESS;
}

template <typename T>
static cusolverStatus_t solve(cusolverDnHandle_t h, cublasFillMode_t uplo, int n, int nrhs, const T* A, int lda, T* B, int ldb, int* info) {
  if (fails()) return CUSOLVER_STATUS_INTERNAL_ERROR;
  if (!solvers.count(h)) { misuse("potrs with an unknown handle"); return CUSOLVER_STATUS_NOT_INITIALIZED; }
  if (n < 0 || nrhs < 0 || lda < std::max(1, n) || ldb < std::max(1, n)) { misuse("potrs with a leading dimension that is too small"); return CUSOLVER_STATUS_INVALID_VALUE; }
  bool lower = uplo == CUBLAS_FILL_MODE_LOWER;
  using W = typename Wide<T>::type;
  auto get = [&](int i, int j) { return W(lower ? A[i + (int64_t)j * lda] : Wide<T>::conj(A[j + (int64_t)i * lda])); };
  auto cj = [&](W x) { return Wide<W>::conj(x); };
  for (int c = 0; c < nrhs; ++c) {
    T* x = B + (int64_t)c * ldb;
    for (int i = 0; i < n; ++i) {
      W s = W(x[i]);
      for (int k = 0; k < i; ++k) s -= get(i, k) * W(x[k]);
      x[i] = T(s / get(i, i));
    }
    for (int i = n; i-- > 0;) {
      W s = W(x[i]);
      for (int k = i + 1; k < n; ++k) s -= cj(get(k, i)) * W(x[k]);
      x[i] = T(s / cj(get(i, i)));
    }
  }
  *info = 0;
  return CUSOLVER_STATUS_SUCCESS;
}

#define SOLVER(L, CT, ST)                                                                                                                             \
  extern "C" cusolverStatus_t cusolverDn##L##potrf_bufferSize(cusolverDnHandle_t h, cublasFillMode_t, int n, CT*, int lda, int* lwork) {              \
    if (fails()) return CUSOLVER_STATUS_INTERNAL_ERROR;                                                                                               \
    if (!solvers.count(h) || lda < n) { misuse("potrf_bufferSize with invalid arguments"); return CUSOLVER_STATUS_INVALID_VALUE; }                    \
    *lwork = needed(n);                                                                                                                               \
    return CUSOLVER_STATUS_SUCCESS;                                                                                                                   \
  }                                                                                                                                                   \
  extern "C" cusolverStatus_t cusolverDn##L##potrf(cusolverDnHandle_t h, cublasFillMode_t u, int n, CT* A, int lda, CT* w, int lw, int* info) {        \
    return factor<ST>(h, u, n, (ST*)A, lda, (ST*)w, lw, info);                                                                                        \
  }                                                                                                                                                   \
  extern "C" cusolverStatus_t cusolverDn##L##potrs(cusolverDnHandle_t h, cublasFillMode_t u, int n, int nrhs, const CT* A, int lda, CT* B, int ldb,    \
                                                   int* info) {                                                                                       \
    return solve<ST>(h, u, n, nrhs, (const ST*)A, lda, (ST*)B, ldb, info);                                                                            \
  }
SOLVER(S, float, float)
SOLVER(D, double, double)
SOLVER(C, cuComplex, std::complex<float>)
SOLVER(Z, cuDoubleComplex, std::complex<double>)

// ------------------------------------------------------------------ streams
namespace c10::cuda {
CUDAStream getCurrentCUDAStream(DeviceIndex) { return CUDAStream(CUDAStream::UNCHECKED, c10::Stream(c10::Stream::DEFAULT, c10::Device(c10::DeviceType::CUDA, 0))); }
cudaStream_t CUDAStream::stream() const { return nullptr; }
}  // namespace c10::cuda

// ------------------------------------------------------------------ what the monitors read and set
extern "C" __attribute__((visibility("default"))) long long standin_get(const char* name) {
  std::string n = name;
  if (n == "calls") return calls;
  if (n == "contractions") return contractions;
  if (n == "factorizations") return factorizations;
  if (n == "not_positive") return not_positive;
  if (n == "misuse") return misuse_count;
  if (n == "failed") return failed;
  if (n == "created") return created;
  if (n == "handles_made") return handles_made;
  if (n == "live") return (long long)(tensors.size() + operations.size() + plans.size() + preferences.size());
  if (n == "tensors") return tensors.size();
  if (n == "operations") return operations.size();
  if (n == "plans") return plans.size();
  if (n == "preferences") return preferences.size();
  if (n == "handles") return handles.size() + solvers.size();
  return -1;
}
extern "C" __attribute__((visibility("default"))) void standin_set(const char* name, long long v) {
  std::string n = name;
  if (n == "fail_at") fail_at = v;
  if (n == "workspace") workspace = v;
  if (n == "misuse") { misuse_count = v; first_misuse.clear(); }
  if (n == "forget") { tensors.clear(); operations.clear(); plans.clear(); preferences.clear(); }
}
extern "C" __attribute__((visibility("default"))) const char* standin_misuse() { return first_misuse.c_str(); }
