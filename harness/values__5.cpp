#include "values.inc.h"
namespace vals {
void part5(Ctx &c) {
  places<S5>(c);
  places<S13>(c);
  places<S21>(c);
  places<S29>(c);
  places<S37>(c);
  places<S45>(c);
  places<S53>(c);
  places<S61>(c);
  places<S69>(c);
  places<S77>(c);
  places<S85>(c);
  places<S93>(c);
}
}  // namespace vals
