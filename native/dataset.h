// Dataset export: the rows of the text, and the values three engines compute for a row (inputs shifted by -d, 0, d).
static std::vector<std::string> rows;
static std::vector<std::string> pieces(const std::string& s, const std::string& sep) {
    std::vector<std::string> r;
    std::size_t at = 0, to;
    while ((to = s.find(sep, at)) != std::string::npos) {
        r.push_back(s.substr(at, to - at));
        at = to + sep.size();
    }
    r.push_back(s.substr(at));
    return r;
}
static bool fldOut = true, fldIn = true;
static std::string fldSep;
// fld SEPARATOR(_ is blank) header in out form values scope mask | text
static void dataset(std::istream& is) {
    std::string sep, form, mask, scope;
    bool header, in, out;
    int values;
    is >> sep >> header >> in >> out >> form >> values >> scope >> mask;
    std::string text = rest(is);
    for (std::size_t i = 0; i < sep.size(); ++i)
        if (sep[i] == '_') sep[i] = ' ';
    FldExporter x(sep);
    x.setExportHeader(header);
    x.setExportInputValues(in);
    x.setExportOutputValues(out);
    fldSep = sep, fldIn = in, fldOut = out;
    FldExporter::ScopeOfValues s = scope == "each" ? FldExporter::EachVariable : FldExporter::AllVariables;
    std::vector<InputVariable*> active = eng()->inputVariables();
    for (std::size_t i = 0; i < active.size(); ++i)
        if (i < mask.size() and mask[i] == '0') active[i] = 0;
    int before = fl::fuzzylite::decimals();
    fl::fuzzylite::setDecimals(12);
    std::ostringstream os;
    std::string r;
    try {
        if (form == "write") x.write(eng(), os, values, s, active), r = os.str();
        else if (form == "writeall") x.write(eng(), os, values, s), r = os.str();
        else if (form == "string") r = x.toString(eng(), values, s, active);
        else if (form == "stringall") r = x.toString(eng(), values, s);
        else if (form == "default") r = x.toString(eng());
        else if (form == "read") { std::istringstream t(text); x.write(eng(), os, t); r = os.str(); }
        else if (form == "readstring") { std::istringstream t(text); r = x.toString(eng(), t); }
    } catch (...) {
        fl::fuzzylite::setDecimals(before);
        throw;
    }
    fl::fuzzylite::setDecimals(before);
    rows = pieces(r, "\n");
    std::string h;
    if (header and not rows.empty()) {
        h = rows[0];
        rows.erase(rows.begin());
    }
    bool last = not rows.empty() and rows.back().empty();
    if (last) rows.pop_back();
    std::vector<std::string> c = pieces(h, sep);
    std::printf("%d %d %d", (int) rows.size(), last ? 1 : 0, (int) c.size());
    for (std::size_t i = 0; i < c.size(); ++i) std::printf(" [%s]", c[i].c_str());
}
static bool near(double a, double b) {
    if (a != a or b != b) return a != a and b != b;
    if (a == b) return true;
    double m = std::fabs(b) > 1 ? std::fabs(b) : 1;
    return std::fabs(a - b) <= 1e-7 * m;
}
// fldrow I X1 .. Xn (engines 1, 2, 3 are alike)
static void datarow(std::istream& is) {
    std::size_t i = 0;
    is >> i;
    std::vector<double> x;
    std::string t;
    while (is >> t) x.push_back(d(t));
    if (i >= rows.size()) { std::printf("no row"); return; }
    std::vector<std::string> c;
    if (not rows[i].empty()) c = pieces(rows[i], fldSep);
    const char* key[3] = {"1", "2", "3"};
    std::vector<double> want[3];
    for (int e = 0; e < 3; ++e) {
        Engine* g = engines[key[e]];
        for (std::size_t j = 0; j < g->numberOfInputVariables() and not x.empty(); ++j) {
            double w = 1e-11 * (std::fabs(x[j]) > 1 ? std::fabs(x[j]) : 1);
            g->getInputVariable(j)->setValue(x[j] + (e - 1) * w);
            if (fldIn) want[e].push_back(x[j]);
        }
        if (not x.empty()) g->process();
        for (std::size_t j = 0; j < g->numberOfOutputVariables() and fldOut and not x.empty(); ++j)
            want[e].push_back(g->getOutputVariable(j)->getValue());
    }
    if (c.size() != want[0].size()) { std::printf("%d values instead of %d", (int) c.size(), (int) want[0].size()); return; }
    for (std::size_t j = 0; j < c.size(); ++j) {
        if (not near(want[0][j], want[1][j]) or not near(want[2][j], want[1][j])) continue;  // the inputs are at a jump of the output
        if (c[j].empty() or not near(Op::toScalar(c[j]), want[1][j])) {
            std::printf("value %d is %s instead of %.12g", (int) j, c[j].c_str(), want[1][j]);
            return;
        }
    }
    ok();
}
