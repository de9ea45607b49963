// Shared by the drivers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include "fuzzylite/Headers.h"
using namespace fl;
typedef std::vector<double> V;

static Term* term(const std::string& c, double h, const V& p) {
    if (c == "Triangle") return new Triangle("t", p[0], p[1], p[2], h);
    if (c == "Trapezoid") return new Trapezoid("t", p[0], p[1], p[2], p[3], h);
    if (c == "Rectangle") return new Rectangle("t", p[0], p[1], h);
    if (c == "Ramp") return new Ramp("t", p[0], p[1], h);
    if (c == "Bell") return new Bell("t", p[0], p[1], p[2], h);
    if (c == "Binary") return new Binary("t", p[0], p[1], h);
    if (c == "Concave") return new Concave("t", p[0], p[1], h);
    if (c == "Cosine") return new Cosine("t", p[0], p[1], h);
    if (c == "Gaussian") return new Gaussian("t", p[0], p[1], h);
    if (c == "GaussianProduct") return new GaussianProduct("t", p[0], p[1], p[2], p[3], h);
    if (c == "PiShape") return new PiShape("t", p[0], p[1], p[2], p[3], h);
    if (c == "SShape") return new SShape("t", p[0], p[1], h);
    if (c == "ZShape") return new ZShape("t", p[0], p[1], h);
    if (c == "Sigmoid") return new Sigmoid("t", p[0], p[1], h);
    if (c == "SigmoidDifference") return new SigmoidDifference("t", p[0], p[1], p[2], p[3], h);
    if (c == "SigmoidProduct") return new SigmoidProduct("t", p[0], p[1], p[2], p[3], h);
    if (c == "Spike") return new Spike("t", p[0], p[1], h);
    if (c == "Constant") return new Constant("t", p[0]);
    if (c == "Discrete") {
        std::vector<Discrete::Pair> xy;
        for (std::size_t i = 0; i + 1 < p.size(); i += 2) xy.push_back(Discrete::Pair(p[i], p[i + 1]));
        return new Discrete("t", xy, h);
    }
    return 0;
}
static Norm* norm(const std::string& c) {
#define N(X) if (c == #X) return new X;
    N(AlgebraicProduct) N(BoundedDifference) N(DrasticProduct) N(EinsteinProduct) N(HamacherProduct) N(Minimum) N(NilpotentMinimum)
    N(AlgebraicSum) N(BoundedSum) N(DrasticSum) N(EinsteinSum) N(HamacherSum) N(Maximum) N(NilpotentMaximum) N(NormalizedSum) N(UnboundedSum)
    return 0;
}
static Hedge* hedge(const std::string& c) {
    N(Any) N(Extremely) N(Not) N(Seldom) N(Somewhat) N(Very)
    return 0;
}
static double num(std::istream& is) {
    std::string s;
    is >> s;
    return std::strtod(s.c_str(), 0);
}
static V nums(std::istream& is) {
    int n = 0;
    is >> n;
    V v;
    for (int i = 0; i < n; ++i) v.push_back(num(is));
    return v;
}
