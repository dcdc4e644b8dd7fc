// D = 3
#include "index.hpp"
void setup3() {
    vp::add("d3", 900, 40000, [](rng& r, long i) {
        auto d = vv::rdims<3>(r, i % 11 == 0 && i % 3 != 2 ? 0 : 1, i % 7 == 0 ? 7 : 4);
        auto s = rsn<3>(r, d, true);
        auto v = vv::iota<3,int>(d);
        if (i % 3 == 0) at<1>("at", v, s);
        else if (i % 3 == 1) cat<1>("at", v, s);
        else {
            std::array<std::size_t,3> bd{{d[0]+1, d[1], d[2]+2}};
            auto b = vv::iota<3,int>(bd);
            vec1u i2; for (uint_t k = 0; k < d[2]; ++k) i2.push_back((k*2+1) % bd[2]);
            auto w = b(1-_, _, i2);
            at<1>("at", w, s);
        }
    });
}
