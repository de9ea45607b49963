// Export and import of engines with layouts, names and descriptions.
#pragma once
static std::string layout(const std::string& s) { return unesc(s == "-" ? "" : s == "_" ? " " : s); }
static std::string exact(const std::string& s) {      // the text as one word
    std::string r, t = esc(s);
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (t[i] == ' ') r += "\\s";
        else if (t[i] == '\t') r += "\\t";
        else r += t[i];
    }
    return r;
}
static void fllCommand(std::istream& is) {
    std::string op, a, b;
    is >> op;
    if (op == "name") { eng()->setName(rest(is)); ok(); }
    else if (op == "desc") {     // desc engine|var|rb NAME text
        is >> a >> b;
        std::string t = rest(is);
        if (a == "engine") eng()->setDescription(t);
        else if (a == "var") var(b)->setDescription(t);
        else eng()->getRuleBlock(b)->setDescription(t);
        ok();
    } else if (op == "export") {      // export INDENT SEPARATOR (b: with blanks as _)
        is >> a >> b;
        for (std::size_t i = 0; i < a.size(); ++i) if (a[i] == '_') a[i] = ' ';
        std::printf("%s", exact(FllExporter(a == "-" ? "" : unesc(a), unesc(b)).toString(eng())).c_str());
    } else if (op == "import") {      // import K SEPARATOR text
        is >> a >> b;
        fl::fuzzylite::setLogging(false);
        Engine* e = FllImporter(unesc(b)).fromString(rest(is));
        delete engines[a];
        engines[a] = e;
        cur = a;
        ok();
    } else if (op == "piece") {       // piece var|term|rb|rule ...: the exporter of a part
        is >> a >> b;
        FllExporter x;
        if (a == "var") std::printf("%s", esc(x.toString(var(b))).c_str());
        else if (a == "in") std::printf("%s", esc(x.toString(eng()->getInputVariable(b))).c_str());
        else if (a == "out") std::printf("%s", esc(x.toString(eng()->getOutputVariable(b))).c_str());
        else std::printf("%s", esc(x.toString(eng()->getRuleBlock(b))).c_str());
    } else
        std::printf("none");
}
