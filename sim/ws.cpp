#include "ws_duplex.hpp"
#include "ws_raw.hpp"
static sim::add_scenario r0("duplex", ws::duplex);
static sim::add_scenario r1("peer", ws::peer);
static sim::add_scenario r2("hostile", ws::hostile);
static sim::add_scenario r3("hs_server", ws::hs_server);
static sim::add_scenario r4("hs_client", ws::hs_client);
