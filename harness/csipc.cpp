// P15-P19: services and clients which talk through local sockets
#include "cs_model.h"

SCENARIO(ipc_requests) { cs::requests<cs::Ipc>(c); }
SCENARIO(ipc_endings) { cs::endings<cs::Ipc>(c); }
SCENARIO(ipc_dropped) { cs::dropped<cs::Ipc>(c); }
SCENARIO(ipc_owned) { cs::owned<cs::Ipc>(c); }
SCENARIO(ipc_outage) { cs::outage<cs::Ipc>(c); }
SCENARIO(ipc_properties) { cs::properties<cs::Ipc>(c); }
SCENARIO(ipc_signals) { cs::broadcasts<cs::Ipc>(c); }
SCENARIO(ipc_statuses) { cs::statuses<cs::Ipc>(c); }
SCENARIO(ipc_connects) { cs::connects(c); }
SCENARIO(ipc_model) { cs::model<cs::Ipc>(c); }
SCENARIO(ipc_reqmodel) { cs::requestModel<cs::Ipc>(c); }
