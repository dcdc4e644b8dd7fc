void setup_queue(); 
#include "vp.hpp"
void vp::setup() { setup_queue(); }
