#include "values.inc.h"
namespace vals {
void part6(Ctx &c) {
  places<S6>(c);
  places<S14>(c);
  places<S22>(c);
  places<S30>(c);
  places<S38>(c);
  places<S46>(c);
  places<S54>(c);
  places<S62>(c);
  places<S70>(c);
  places<S78>(c);
  places<S86>(c);
  places<S94>(c);
}
}  // namespace vals
