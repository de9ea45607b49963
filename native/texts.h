// The text helpers; texts travel in hexadecimal ('-' is the empty text).
#pragma once
static std::string unhex(const std::string& h) {
    std::string r;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::strtol(h.substr(i, 2).c_str(), 0, 16));
    return r;
}
static std::string tohex(const std::string& s) {
    if (s.empty()) return "-";
    static const char* d = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) { r += d[(unsigned char)(s[i]) >> 4]; r += d[(unsigned char)(s[i]) & 15]; }
    return r;
}
static void textCommand(std::istream& is) {
    std::string op;
    is >> op;
    std::vector<std::string> raw, a;
    std::string t;
    while (is >> t) { raw.push_back(t); a.push_back(t == "-" ? "" : unhex(t)); }
    if (op == "split") {
        std::vector<std::string> r = raw[2] == "d" ? Op::split(a[0], a[1]) : Op::split(a[0], a[1], raw[2] == "1");
        std::printf("%d", int(r.size()));
        for (std::size_t i = 0; i < r.size(); ++i) std::printf(" %s", tohex(r[i]).c_str());
    } else if (op == "join") std::printf("%s", tohex(Op::join(std::vector<std::string>(a.begin() + 1, a.end()), a[0])).c_str());
    else if (op == "round") std::printf("%s", tohex(Op::join(Op::split(a[0], a[1], false), a[1])).c_str());
    else if (op == "joinv") {
        const char* c[4] = {a[1].c_str(), a.size() > 2 ? a[2].c_str() : "", a.size() > 3 ? a[3].c_str() : "", a.size() > 4 ? a[4].c_str() : ""};
        std::printf("%s", tohex(Op::join(int(a.size()) - 1, a[0], c[0], c[1], c[2], c[3])).c_str());
    } else if (op == "joins") {
        std::vector<scalar> v;
        for (std::size_t i = 1; i < raw.size(); ++i) v.push_back(std::strtod(raw[i].c_str(), 0));
        std::string x = Op::join(v, a[0]);
        if (v.size() == 1 && Op::join(1, a[0], v[0]) != x) x = "vararg";
        if (v.size() == 2 && Op::join(2, a[0], v[0], v[1]) != x) x = "vararg";
        if (v.size() == 3 && Op::join(3, a[0], v[0], v[1], v[2]) != x) x = "vararg";
        std::printf("%s", tohex(x).c_str());
    } else if (op == "trim") std::printf("%s", tohex(Op::trim(a[0])).c_str());
    else if (op == "rep") {
        std::string r = raw[3] == "d" ? Op::findReplace(a[0], a[1], a[2]) : Op::findReplace(a[0], a[1], a[2], raw[3] == "1");
        std::string r2 = raw[3] == "0" ? Op::replaceFirst(a[0], a[1], a[2]) : Op::replaceAll(a[0], a[1], a[2]);
        std::printf("%s %s", tohex(r).c_str(), tohex(r2).c_str());
    } else if (op == "num") {
        bool n = Op::isNumeric(a[0]);
        bool ok = !n, ok2 = !n;
        double x = Op::toScalar(a[0], 77.5, &ok), y = Op::toScalar(a[0], -3.25);
        (void) ok2;
        double z;
        try { z = Op::toScalar(a[0]); std::printf("%d %d %.17g %.17g %.17g", n, ok, x, y, z); }
        catch (std::exception&) { std::printf("%d %d %.17g %.17g throw", n, ok, x, y); }
    } else if (op == "nums") {
        bool ok = true, pr = true;
        std::vector<scalar> v = Op::toScalars(a[0], 77.5, &ok), w;
        std::printf("%d %d", ok, int(v.size()));
        for (std::size_t i = 0; i < v.size(); ++i) std::printf(" %.17g", v[i]);
        try { w = Op::toScalars(a[0]); pr = w.size() == v.size(); for (std::size_t i = 0; pr && i < v.size(); ++i) pr = v[i] == w[i] || (v[i] != v[i] && w[i] != w[i]); std::printf(" %s", pr ? "same" : "different"); }
        catch (std::exception&) { std::printf(" throw"); }
    } else if (op == "valid") std::printf("%s", tohex(Op::validName(a[0])).c_str());
    else if (op == "str") {
        double x = std::strtod(raw[0].c_str(), 0);
        std::string s = raw.size() > 1 ? Op::str(x, std::atoi(raw[1].c_str())) : Op::str(x);
        std::printf("%s %s", s.c_str(), Op::isNumeric(s) ? "1" : "0");
    } else std::printf("none");
}
