#include "values.inc.h"
namespace vals {
void part0(Ctx &c) {
  places<S0>(c);
  places<S8>(c);
  places<S16>(c);
  places<S24>(c);
  places<S32>(c);
  places<S40>(c);
  places<S48>(c);
  places<S56>(c);
  places<S64>(c);
  places<S72>(c);
  places<S80>(c);
  places<S88>(c);
  places<S96>(c);
}
}  // namespace vals
