// Contract of the drag coefficients.
#include "vc_std.h"
#include "vc.h"
#include "Sylinder/Sylinder.cpp"
VC_HARNESS(drag) {
    Sylinder s; s.radius = __vc_pos("radius"); s.length = __vc_pos("length"); s.radiusCollision = __vc_pos("radiusCollision"); s.lengthCollision = __vc_pos("lengthCollision");
    double mu = __vc_pos("mu"), a = -1, b = -1, c = -1; const double pi = 3.141592653589793238462643383279;
    s.calcDragCoeff(mu, a, b, c);
    __vc_assert(s.isSphere() == (s.length < 2 * s.radius), "sphere test on the physical shape"); __vc_assert(s.isSphere(true) == (s.lengthCollision < 2 * s.radiusCollision), "sphere test on the collision shape");
    if (s.length < 2 * s.radius) {
        double R = s.radius + s.length / 2;
        __vc_assert_eq(a, 6 * pi * mu * R, "Stokes drag of the enclosing sphere, parallel"); __vc_assert_eq(b, 6 * pi * mu * R, "Stokes drag of the enclosing sphere, perpendicular"); __vc_assert_eq(c, 8 * pi * mu * R * R * R, "Stokes rotational drag of the enclosing sphere");
        __vc_assert(a > 0 && b > 0 && c > 0, "drag is positive");
        __vc_cover("sphere");
    } else {
        double B = -1 - 2 * std::log(s.radius / s.length);
        __vc_assume(B != 0); __vc_assume(B != -2);
        __vc_assert_eq(a * 2 * B, 8 * pi * mu * s.length, "slender body drag, parallel"); __vc_assert_eq(b * (B + 2), 8 * pi * mu * s.length, "slender body drag, perpendicular"); __vc_assert_eq(c * 3 * (B + 2), 2 * pi * mu * s.length * s.length * s.length, "slender body drag, rotation");
        __vc_cover("rod");
    }
}
