// Contracts of the random placement helpers: for every value of the random numbers the result lies on its set.
#include "vc_std.h"
#include "vc.h"
#include "Util/EquatnHelper.hpp"
#include "Util/GeoUtil.hpp"
VC_HARNESS(quaternion) {
    double u1 = __vc_realin("u1", 0, 1), u2 = __vc_realin("u2", 0, 1), u3 = __vc_realin("u3", 0, 1); Equatn q;
    EquatnHelper::setUnitRandomEquatn(q, u1, u2, u3);
    __vc_assert_eq(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1, "random orientation is a unit quaternion");
    __vc_assert_eq(q.w() * q.w() + q.x() * q.x(), 1 - u1, "weight of the first pair is 1-u1"); __vc_assert_eq(q.y() * q.y() + q.z() * q.z(), u1, "weight of the second pair is u1");
    const double pi = 3.14159265358979323846;
    __vc_assert_eq(q.w() * std::cos(2 * pi * u2), q.x() * std::sin(2 * pi * u2), "phase of the first pair is 2 pi u2"); __vc_assert_eq(q.y() * std::cos(2 * pi * u3), q.z() * std::sin(2 * pi * u3), "phase of the second pair is 2 pi u3");
    __vc_cover("quaternion");
}
VC_HARNESS(disc) {
    double R = __vc_pos("R"), a = __vc_realin("a", 0, 1), b = __vc_realin("b", 0, 1), x, y; const double pi = 3.14159265358979323846;
    getRandPointInCircle(R, a, b, x, y);
    __vc_assert_eq(x * x + y * y, R * R * b, "radius grows with the square root of the random number");
    __vc_assert_le(x * x + y * y, R * R, "point is inside the circle");
    __vc_assert_eq(x * std::sin(2 * pi * a), y * std::cos(2 * pi * a), "polar angle is 2 pi times the random number");
    __vc_cover("disc");
}
VC_HARNESS(sphere) {
    double R = __vc_pos("R"), a = __vc_realin("a", 0, 1), b = __vc_realin("b", 0, 1), p[3]; const double pi = 3.14159265358979323846;
    getRandPointOnSphere(R, a, b, p);
    __vc_assert_eq(p[0] * p[0] + p[1] * p[1] + p[2] * p[2], R * R, "point is on the sphere");
    __vc_assert_eq(p[2], R * (2 * b - 1), "height is uniform in the random number");
    __vc_assert_eq(p[0] * std::sin(2 * pi * a), p[1] * std::cos(2 * pi * a), "azimuth is 2 pi times the random number");
    __vc_cover("sphere");
}
