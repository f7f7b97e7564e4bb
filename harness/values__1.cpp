#include "values.inc.h"
namespace vals {
void part1(Ctx &c) {
  places<S1>(c);
  places<S9>(c);
  places<S17>(c);
  places<S25>(c);
  places<S33>(c);
  places<S41>(c);
  places<S49>(c);
  places<S57>(c);
  places<S65>(c);
  places<S73>(c);
  places<S81>(c);
  places<S89>(c);
  places<S97>(c);
}
}  // namespace vals
