void setup_worker(); 
#include "vp.hpp"
void vp::setup() { setup_worker(); }
