#include "runner.hpp"
#ifdef SIM_WEB
int web_main(int c, char** v) { return sim::sim_main(c, v); }
#else
int main(int c, char** v) { return sim::sim_main(c, v); }
#endif
