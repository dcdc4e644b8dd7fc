void setup_pfor(); 
#include "vp.hpp"
void vp::setup() { setup_pfor(); }
