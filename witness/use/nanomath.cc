float use(float x, double d) { using namespace nanostl; return nanostl::sin(x) + nanostl::cos(x) + nanostl::tan(x) + nanostl::exp(x) + nanostl::log(x) + nanostl::log10(x) + nanostl::sqrt(x) + nanostl::pow(x, x) + nanostl::sinh(x) + nanostl::cosh(x) + nanostl::tanh(x) + nanostl::erf(x) + nanostl::cbrt(x) + nanostl::fabs(x) + nanostl::floor(x) + nanostl::ceil(x) + nanostl::fabs(d) + nanostl::floor(d) + nanostl::ceil(d) + nanostl::fmin(x, x) + nanostl::fmax(d, d) + nanostl::clamp(x, x, x) + nanostl::copysign(x, x) + nanostl::isnan(x) + nanostl::isinf(d) + nanostl::isfinite(x) + nanostl::isnormal(d); }
