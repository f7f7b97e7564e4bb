// P24: messages nobody of the library would send
#include "hostile_msgs.h"

SCENARIO(ipc_hostile_msgs) { cs::hostileMessages(c); }
