#include "values.inc.h"
namespace vals {
void part2(Ctx &c) {
  places<S2>(c);
  places<S10>(c);
  places<S18>(c);
  places<S26>(c);
  places<S34>(c);
  places<S42>(c);
  places<S50>(c);
  places<S58>(c);
  places<S66>(c);
  places<S74>(c);
  places<S82>(c);
  places<S90>(c);
  places<S98>(c);
}
}  // namespace vals
