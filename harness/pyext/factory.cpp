// Harness factory: dispatches a subset of the combinations of python/include/dispatch_generated.hpp, one TU each, so
// that the real extension module sources can be rebuilt from the working tree within seconds.
#include <stdexcept>
#include "index_factory.hpp"
#include <pybind11/numpy.h>
namespace alaya {
#define D(n) std::unique_ptr<BasePyIndex> n(const IndexParams &);
D(make_none_scalar) D(make_none_plain) D(make_sq8_scalar) D(make_sq4_scalar)
auto IndexFactory::create(const IndexParams &p) -> std::unique_ptr<BasePyIndex> {
  if (!p.data_type_.is(py::dtype::of<float>()) || !p.id_type_.is(py::dtype::of<uint32_t>()) || p.index_type_ != IndexType::HNSW)
    throw std::runtime_error("harness factory: combination not built");
  if (p.quantization_type_ == QuantizationType::NONE) return p.has_scalar_data_ ? make_none_scalar(p) : make_none_plain(p);
  if (p.quantization_type_ == QuantizationType::SQ8 && p.has_scalar_data_) return make_sq8_scalar(p);
  if (p.quantization_type_ == QuantizationType::SQ4 && p.has_scalar_data_) return make_sq4_scalar(p);
  throw std::runtime_error("harness factory: combination not built");
}
}
