#include "sx.h"
#include "awkward/array/NumpyArray.h"
#include "awkward/array/ListOffsetArray.h"
using namespace awkward;
extern "C" void h_smoke1() {
  int64_t i = sx_range("i", -5, 5);
  int64_t* p = (int64_t*)malloc(3 * 8);
  for (int k = 0; k < 3; k++) p[k] = sx_i64("x");
  Index64 ix(std::shared_ptr<int64_t>(p, kernel::array_deleter<int64_t>()), 0, 3, kernel::lib::cpu);
  NumpyArray a(ix);
  try {
    ContentPtr r = a.getitem_at(i);
    NumpyArray* n = dynamic_cast<NumpyArray*>(r.get());
    int64_t v = *(int64_t*)n->data();
    int64_t j = i < 0 ? i + 3 : i;
    sx_check(j >= 0 && j < 3, "in range");
    sx_check(v == p[j], "value");
    sx_reach("ok");
  } catch (std::invalid_argument& e) { sx_check(i < -3 || i >= 3, "error only out of range"); sx_reach("err"); }
}
extern "C" void h_smoke2() {
  int64_t* p = (int64_t*)malloc(5 * 8); 
  for (int k = 0; k < 5; k++) p[k] = sx_i64("x");
  Index64 ix(std::shared_ptr<int64_t>(p, kernel::array_deleter<int64_t>()), 0, 5, kernel::lib::cpu);
  ContentPtr a = std::make_shared<NumpyArray>(ix);
  Index64 off(4); int64_t last = 0; for (int k = 0; k < 4; k++) { int64_t v = sx_i64("o"); sx_assume(v >= last && v <= 5); off.setitem_at_nowrap(k, v); last = v; }
  ListOffsetArray64 l(Identities::none(), util::Parameters(), off, a);
  ContentPtr r = l.num(1, 0); sx_reach("n");
}
