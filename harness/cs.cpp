// P15-P19: services and clients in one process, in-process transport
#include "cs_model.h"

SCENARIO(cs_requests) { cs::requests<cs::Itc>(c); }
SCENARIO(cs_endings) { cs::endings<cs::Itc>(c); }
SCENARIO(cs_dropped) { cs::dropped<cs::Itc>(c); }
SCENARIO(cs_owned) { cs::owned<cs::Itc>(c); }
SCENARIO(cs_outage) { cs::outage<cs::Itc>(c); }
SCENARIO(cs_properties) { cs::properties<cs::Itc>(c); }
SCENARIO(cs_signals) { cs::broadcasts<cs::Itc>(c); }
SCENARIO(cs_statuses) { cs::statuses<cs::Itc>(c); }
SCENARIO(cs_model) { cs::model<cs::Itc>(c); }
SCENARIO(cs_reqmodel) { cs::requestModel<cs::Itc>(c); }
