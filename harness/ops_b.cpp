#include "ops.hpp"
void setup_ops_c();
void setup_ops_b() {
    vp::add("d2", 100, 5000, [](rng& r, long i) { all<2>(r, i, i % 4 == 0); });
    setup_ops_c();
}
