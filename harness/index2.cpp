// D = 2
#include "index.hpp"
void setup2() {
    vp::add("d2", 900, 40000, [](rng& r, long i) {
        auto d = vv::rdims<2>(r, i % 10 == 0 ? 0 : 1, i % 5 == 0 ? 14 : 5);
        auto s = rs2(r, d);
        auto v = vv::iota<2,int>(d);
        if (i % 2) at<2>("at", v, s); else cat<2>("at", v, s);
    });
}
