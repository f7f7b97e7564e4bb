#include "values.inc.h"
namespace vals {
void part7(Ctx &c) {
  places<S7>(c);
  places<S15>(c);
  places<S23>(c);
  places<S31>(c);
  places<S39>(c);
  places<S47>(c);
  places<S55>(c);
  places<S63>(c);
  places<S71>(c);
  places<S79>(c);
  places<S87>(c);
  places<S95>(c);
}
}  // namespace vals
