// Loading of rules from text: structure of what was built, and the state that is left.
#pragma once
struct RuleText {
    static std::string prop(const Proposition* p) {
        std::string s = "[" + p->variable->getName();
        for (std::size_t j = 0; j < p->hedges.size(); ++j) s += " " + p->hedges[j]->name();
        return s + " " + (p->term ? p->term->getName() : "-") + "]";
    }
    static std::string ex(const Expression* e) {
        if (e->type() == Expression::Proposition) return prop(static_cast<const Proposition*>(e));
        const Operator* o = static_cast<const Operator*>(e);
        return "(" + ex(o->left) + " " + o->name + " " + ex(o->right) + ")";
    }
    static std::string all(Rule* r) {
        std::string s = ex(r->getAntecedent()->getExpression()) + " =>";
        for (std::size_t j = 0; j < r->getConsequent()->conclusions().size(); ++j)
            s += " " + prop(r->getConsequent()->conclusions()[j]);
        return s;
    }
};
static void ruleState(Rule* r) {
    std::printf("%d %d %d ", r->isLoaded() ? 1 : 0, r->getAntecedent()->isLoaded() ? 1 : 0, r->getConsequent()->isLoaded() ? 1 : 0);
    put(r->getActivationDegree());
    std::printf(" %d ", r->isTriggered() ? 1 : 0);
    if (r->isLoaded()) {
        put(r->getWeight());
        std::printf(" %s", RuleText::all(r).c_str());
    }
}
static void ruleCommand(std::istream& is, Engine* engine) {
    std::string op, b;
    is >> op;
    if (op == "parse") {
        std::unique_ptr<Rule> r(Rule::parse(rest(is), engine));
        ruleState(r.get());
        return;
    }
    std::size_t i;
    is >> b >> i;
    Rule* r = engine->getRuleBlock(b)->getRule(i);
    if (op == "text") r->setText(rest(is));
    else if (op == "load") r->load(rest(is), engine);
    else if (op == "reload") r->load(engine);
    else if (op == "unload") r->unload();
    else if (op == "gettext") { std::printf("%s", esc(r->getText()).c_str()); return; }
    else if (op == "state") { ruleState(r); return; }
    else if (op == "antecedent") { r->getAntecedent()->load(rest(is), engine); std::printf("%s", RuleText::ex(r->getAntecedent()->getExpression()).c_str()); return; }
    else if (op == "consequent") {
        r->getConsequent()->load(rest(is), engine);
        for (std::size_t j = 0; j < r->getConsequent()->conclusions().size(); ++j) std::printf(" %s", RuleText::prop(r->getConsequent()->conclusions()[j]).c_str());
        return;
    } else if (op == "isloaded") { std::printf("%d %d", r->getAntecedent()->isLoaded() ? 1 : 0, r->getConsequent()->isLoaded() ? 1 : 0); return; }
    ok();
}
