// Formulas: parsing, evaluation and Function terms; the current term refers to the current engine or to none.
#pragma once
static std::map<std::string, Function*> formulaTerms;
static void formulaCommand(std::istream& is, Engine* engine) {
    std::string op, id;
    is >> op >> id;
    if (op == "new") {          // new ID ENGINE? name formula: a term that is loaded later
        int withEngine, n;
        is >> withEngine >> n;
        std::map<std::string, scalar> vs;
        for (int i = 0; i < n; ++i) {
            std::string a;
            is >> a;
            vs[a] = num(is);
        }
        std::string text;
        std::getline(is >> std::ws, text); text = unesc(text);
        delete formulaTerms[id];
        formulaTerms[id] = 0;
        formulaTerms[id] = new Function("f", text, vs, withEngine ? engine : 0, false);
        std::printf("ok");
        return;
    }
    Function* f = formulaTerms[id];
    if (op == "load") f->load();
    else if (op == "reload") {
        std::string text;
        std::getline(is >> std::ws, text); text = unesc(text);
        f->load(text);
    } else if (op == "configure") {
        std::string text;
        std::getline(is >> std::ws, text); text = unesc(text);
        f->configure(text);
    } else if (op == "create") {
        std::string text;
        int withEngine;
        is >> withEngine;
        std::getline(is >> std::ws, text); text = unesc(text);
        Function* g = Function::create("f", text, withEngine ? engine : 0);
        delete f;
        formulaTerms[id] = g;
    } else if (op == "update") f->updateReference(engine);
    else if (op == "unload") f->unload();
    else if (op == "loaded") {
        std::printf("%d", f->isLoaded() ? 1 : 0);
        return;
    } else if (op == "text") {
        std::printf("%s", esc(f->getFormula()).c_str());
        return;
    } else if (op == "var") {
        std::string a;
        is >> a;
        f->variables[a] = num(is);
    } else if (op == "mem") {
        put(f->membership(num(is)));
        return;
    } else if (op == "eval") {
        int n;
        is >> n;
        std::map<std::string, scalar> m;
        for (int i = 0; i < n; ++i) {
            std::string a;
            is >> a;
            m[a] = num(is);
        }
        put(n ? f->evaluate(m) : f->evaluate());
        return;
    } else if (op == "size") {
        std::printf("%d", int(f->root()->treeSize()));
        return;
    }
    std::printf("ok");
}
