// Drives the numeric functions of the library: one command per input line, one result per output line.
#include "common.h"
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string k, c;
        is >> k >> c;
        try {
            if (k == "m" || k == "t" || k == "mono") {
                double h = num(is);
                V p = nums(is);
                double x = num(is);
                std::unique_ptr<Term> t(term(c, h, p));
                if (!t.get()) std::printf("none\n");
                else if (k == "mono") std::printf("%d\n", t->isMonotonic() ? 1 : 0);
                else std::printf("%.17g\n", k == "m" ? t->membership(x) : t->tsukamoto(x));
            } else if (k == "n") {
                double a = num(is), b = num(is);
                std::unique_ptr<Norm> t(norm(c));
                std::printf("%.17g\n", t->compute(a, b));
            } else if (k == "h") {
                std::unique_ptr<Hedge> t(hedge(c));
                std::printf("%.17g\n", t->hedge(num(is)));
            } else if (k == "o") {
                V p = nums(is);
                double r = 0;
                if (c == "isEq") r = Op::isEq(p[0], p[1]);
                else if (c == "isLt") r = Op::isLt(p[0], p[1]);
                else if (c == "isLE") r = Op::isLE(p[0], p[1]);
                else if (c == "isGt") r = Op::isGt(p[0], p[1]);
                else if (c == "isGE") r = Op::isGE(p[0], p[1]);
                else if (c == "isClose") r = Op::isClose(p[0], p[1]);
                else if (c == "isNaN") r = Op::isNaN(p[0]);
                else if (c == "isInf") r = Op::isInf(p[0]);
                else if (c == "isFinite") r = Op::isFinite(p[0]);
                else if (c == "min") r = Op::min(p[0], p[1]);
                else if (c == "max") r = Op::max(p[0], p[1]);
                else if (c == "bound") r = Op::bound(p[0], p[1], p[2]);
                else if (c == "in") r = Op::in(p[0], p[1], p[2], p[3] != 0, p[4] != 0);
                else if (c == "scale") r = p.size() == 5 ? Op::scale(p[0], p[1], p[2], p[3], p[4]) : Op::scale(p[0], p[1], p[2], p[3], p[4], p[5] != 0);
                else if (c == "add") r = Op::add(p[0], p[1]);
                else if (c == "subtract") r = Op::subtract(p[0], p[1]);
                else if (c == "multiply") r = Op::multiply(p[0], p[1]);
                else if (c == "divide") r = Op::divide(p[0], p[1]);
                else if (c == "modulo") r = Op::modulo(p[0], p[1]);
                else if (c == "and") r = Op::logicalAnd(p[0], p[1]);
                else if (c == "or") r = Op::logicalOr(p[0], p[1]);
                else if (c == "not") r = Op::logicalNot(p[0]);
                else if (c == "negate") r = Op::negate(p[0]);
                else if (c == "round") r = Op::round(p[0]);
                else if (c == "gt") r = Op::gt(p[0], p[1]);
                else if (c == "ge") r = Op::ge(p[0], p[1]);
                else if (c == "eq") r = Op::eq(p[0], p[1]);
                else if (c == "neq") r = Op::neq(p[0], p[1]);
                else if (c == "le") r = Op::le(p[0], p[1]);
                else if (c == "lt") r = Op::lt(p[0], p[1]);
                else if (c == "mean") r = Op::mean(p);
                else if (c == "sum") r = Op::sum(p);
                else if (c == "variance") r = Op::variance(p);
                else if (c == "sd") r = Op::standardDeviation(p);
                else { std::printf("none\n"); continue; }
                std::printf("%.17g\n", r);
            } else if (k == "mid") {
                V p = nums(is);
                V r = Op::midpoints(p[0], p[1], (int) p[2]);
                std::printf("%d", (int) r.size());
                for (std::size_t i = 0; i < r.size(); ++i) std::printf(" %.17g", r[i]);
                std::printf("\n");
            } else if (k == "eps") {
                fl::fuzzylite::setMachEps(std::strtod(c.c_str(), 0));
                std::printf("ok\n");
            } else
                std::printf("none\n");
        } catch (std::exception&) {
            std::printf("throw\n");
        }
        std::fflush(stdout);
    }
    return 0;
}
