#include "index.hpp"
namespace alaya {
std::unique_ptr<BasePyIndex> make_sq8_scalar(const IndexParams &p) {
  using B = RawSpace<float,float,uint32_t,SequentialStorage<float,uint32_t>,EmptyScalarData>;
  using S = SQ8Space<float,float,uint32_t,SequentialStorage<uint8_t,uint32_t>,ScalarData>;
  return std::make_unique<PyIndex<HNSWBuilder<B>, S>>(p);
}
}
