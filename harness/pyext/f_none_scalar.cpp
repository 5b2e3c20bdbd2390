#include "index.hpp"
namespace alaya {
std::unique_ptr<BasePyIndex> make_none_scalar(const IndexParams &p) {
  using S = RawSpace<float,float,uint32_t,SequentialStorage<float,uint32_t>,ScalarData>;
  return std::make_unique<PyIndex<HNSWBuilder<S>, S>>(p);
}
}
