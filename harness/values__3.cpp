#include "values.inc.h"
namespace vals {
void part3(Ctx &c) {
  places<S3>(c);
  places<S11>(c);
  places<S19>(c);
  places<S27>(c);
  places<S35>(c);
  places<S43>(c);
  places<S51>(c);
  places<S59>(c);
  places<S67>(c);
  places<S75>(c);
  places<S83>(c);
  places<S91>(c);
  places<S99>(c);
}
}  // namespace vals
