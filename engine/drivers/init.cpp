// Instantiates the public templates of the library so that their bodies are
// part of the analysed program.  Never linked or executed.
#include "INNC/INNC.hpp"
namespace verif_driver {
using namespace INNC;
void use(std::initializer_list<std::int8_t> a, std::initializer_list<std::int16_t> b,
         std::initializer_list<std::int32_t> c, std::initializer_list<std::int64_t> d,
         std::initializer_list<float> e, std::initializer_list<double> f,
         std::initializer_list<TensorInit> g) {
  TensorInit x1(a), x2(b), x3(c), x4(d), x5(e), x6(f), x7(g);
}
} // namespace verif_driver
