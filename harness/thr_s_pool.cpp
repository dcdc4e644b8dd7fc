void setup_pool(); 
#include "vp.hpp"
void vp::setup() { setup_pool(); }
