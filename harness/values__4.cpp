#include "values.inc.h"
namespace vals {
void part4(Ctx &c) {
  places<S4>(c);
  places<S12>(c);
  places<S20>(c);
  places<S28>(c);
  places<S36>(c);
  places<S44>(c);
  places<S52>(c);
  places<S60>(c);
  places<S68>(c);
  places<S76>(c);
  places<S84>(c);
  places<S92>(c);
  places<S100>(c);
}
}  // namespace vals
