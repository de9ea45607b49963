// Copies: what an engine owns and refers to, and copies of the parts of an engine.
#pragma once
#include <set>
static std::string why;
static void need(bool b, const std::string& s) {
    if (not b and why.empty()) why = s;
}
static std::set<const void*> owned(const Engine* e) {
    std::set<const void*> r;
    std::vector<Variable*> vs = e->variables();
    for (std::size_t i = 0; i < vs.size(); ++i) {
        r.insert(vs[i]);
        for (std::size_t t = 0; t < vs[i]->numberOfTerms(); ++t) {
            r.insert(vs[i]->getTerm(t));
            if (Function* f = dynamic_cast<Function*>(vs[i]->getTerm(t))) r.insert(f->root());
        }
        if (OutputVariable* o = dynamic_cast<OutputVariable*>(vs[i])) {
            r.insert(o->fuzzyOutput());
            r.insert(o->fuzzyOutput()->getAggregation());
            r.insert(o->getDefuzzifier());
        }
    }
    for (std::size_t i = 0; i < e->numberOfRuleBlocks(); ++i) {
        RuleBlock* b = e->getRuleBlock(i);
        r.insert(b);
        r.insert(b->getConjunction());
        r.insert(b->getDisjunction());
        r.insert(b->getImplication());
        r.insert(b->getActivation());
        for (std::size_t j = 0; j < b->numberOfRules(); ++j) {
            r.insert(b->getRule(j));
            r.insert(b->getRule(j)->getAntecedent());
            r.insert(b->getRule(j)->getConsequent());
        }
    }
    r.erase((const void*) 0);
    return r;
}
static void refers(const Engine* e, const Variable* v, const Term* t, const char* what) {
    std::vector<Variable*> vs = e->variables();
    if (std::find(vs.begin(), vs.end(), v) == vs.end()) { need(false, std::string(what) + "-of-a-foreign-variable"); return; }
    need(not t or std::find(v->terms().begin(), v->terms().end(), t) != v->terms().end(), std::string(what) + "-of-a-foreign-term");
}
static void tree(const Engine* e, const Expression* x) {
    if (not x) return;
    if (x->type() == Expression::Proposition) {
        const Proposition* p = static_cast<const Proposition*>(x);
        refers(e, p->variable, p->term, "proposition");
    } else {
        tree(e, static_cast<const Operator*>(x)->left);
        tree(e, static_cast<const Operator*>(x)->right);
    }
}
static void ownCommand() {
    Engine* e = eng();
    why = "";
    std::vector<Variable*> vs = e->variables();
    for (std::size_t i = 0; i < vs.size(); ++i) {
        for (std::size_t t = 0; t < vs[i]->numberOfTerms(); ++t) {
            if (Function* f = dynamic_cast<Function*>(vs[i]->getTerm(t))) need(f->getEngine() == e, "function-of-another-engine");
            if (Linear* f = dynamic_cast<Linear*>(vs[i]->getTerm(t))) need(f->getEngine() == e, "linear-of-another-engine");
        }
        if (OutputVariable* o = dynamic_cast<OutputVariable*>(vs[i])) {
            for (std::size_t t = 0; t < o->fuzzyOutput()->numberOfTerms(); ++t) {
                const Activated& a = o->fuzzyOutput()->getTerm(t);
                refers(e, o, a.getTerm(), "activated-term");
                bool mine = not a.getImplication();
                for (std::size_t b = 0; b < e->numberOfRuleBlocks(); ++b) mine = mine or a.getImplication() == e->getRuleBlock(b)->getImplication();
                need(mine, "activated-term-with-a-foreign-implication");
            }
        }
    }
    for (std::size_t i = 0; i < e->numberOfRuleBlocks(); ++i)
        for (std::size_t j = 0; j < e->getRuleBlock(i)->numberOfRules(); ++j) {
            Rule* r = e->getRuleBlock(i)->getRule(j);
            tree(e, r->getAntecedent()->getExpression());
            for (std::size_t c = 0; c < r->getConsequent()->conclusions().size(); ++c)
                refers(e, r->getConsequent()->conclusions().at(c)->variable, r->getConsequent()->conclusions().at(c)->term, "conclusion");
        }
    std::set<const void*> mine = owned(e);
    for (std::map<std::string, Engine*>::iterator it = engines.begin(); it != engines.end(); ++it)
        if (it->second and it->second != e) {
            std::set<const void*> his = owned(it->second);
            for (std::set<const void*>::iterator p = his.begin(); p != his.end(); ++p) need(not mine.count(*p), "part-of-two-engines");
        }
    std::printf("%s", why.empty() ? "own" : why.c_str());
}
// Everything that can be seen of a part, as text.
static void see(std::ostream& o, double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g ", x); o << b; }
static void see(std::ostream& o, const Term* t) {
    o << t->className() << " " << t->getName() << " ";
    see(o, t->getHeight());
    int before = fl::fuzzylite::decimals();
    fl::fuzzylite::setDecimals(17);
    o << t->parameters() << " ";
    fl::fuzzylite::setDecimals(before);
    for (int i = -3; i < 6; ++i) {
        try {
            see(o, t->membership(i * 1.75));
        } catch (std::exception&) { o << "error "; }
    }
    o << t->isMonotonic() << "\n";
}
static void see(std::ostream& o, const Variable* v) {
    o << v->getName() << " " << v->getDescription() << " " << v->isEnabled() << v->isLockValueInRange() << " " << v->type() << " ";
    see(o, v->getMinimum());
    see(o, v->getMaximum());
    see(o, v->getValue());
    for (std::size_t i = 0; i < v->numberOfTerms(); ++i) see(o, v->getTerm(i));
}
static void see(std::ostream& o, const Norm* n) {
    if (not n) o << "none ";
    else {
        o << n->className() << " ";
        see(o, n->compute(0.75, 0.5));
        see(o, n->compute(0.25, 0.5));
        see(o, n->compute(1, 0.0));
    }
}
static void see(std::ostream& o, const Defuzzifier* d) {
    if (not d) o << "none ";
    else {
        o << d->className() << " ";
        if (const IntegralDefuzzifier* i = dynamic_cast<const IntegralDefuzzifier*>(d)) o << i->getResolution() << " ";
        if (const WeightedDefuzzifier* w = dynamic_cast<const WeightedDefuzzifier*>(d)) o << w->getTypeName() << " ";
    }
}
static void see(std::ostream& o, const Activation* a) {
    if (not a) o << "none ";
    else o << a->className() << " " << a->parameters() << " ";
}
static void see(std::ostream& o, const Aggregated* g) {
    o << g->getName() << " ";
    see(o, g->getMinimum());
    see(o, g->getMaximum());
    see(o, g->getAggregation());
    for (std::size_t i = 0; i < g->numberOfTerms(); ++i) {
        const Activated& a = g->getTerm(i);
        o << (a.getTerm() ? a.getTerm()->getName() : "null") << " ";
        see(o, a.getDegree());
        see(o, a.getImplication());
    }
    o << "\n";
}
static void see(std::ostream& o, const OutputVariable* v) {
    see(o, static_cast<const Variable*>(v));
    see(o, v->fuzzyOutput());
    see(o, v->getDefuzzifier());
    see(o, v->getPreviousValue());
    see(o, v->getDefaultValue());
    o << v->isLockPreviousValue() << "\n";
}
static void see(std::ostream& o, const Rule* r) {
    o << r->getText() << " " << r->isEnabled() << " ";
    see(o, r->getWeight());
    see(o, r->getActivationDegree());
    o << "\n";
}
static void see(std::ostream& o, const RuleBlock* b) {
    o << b->getName() << " " << b->getDescription() << " " << b->isEnabled() << " ";
    see(o, b->getConjunction());
    see(o, b->getDisjunction());
    see(o, b->getImplication());
    see(o, b->getActivation());
    for (std::size_t i = 0; i < b->numberOfRules(); ++i) see(o, b->getRule(i));
}
template <class T> static std::string seen(const T* t) {
    std::ostringstream o;
    see(o, t);
    return o.str();
}
// The pointers of a part that it owns.
static std::set<const void*> hold(const Term* t) {
    std::set<const void*> r;
    r.insert(t);
    if (const Function* f = dynamic_cast<const Function*>(t)) r.insert(f->root());
    r.erase((const void*) 0);
    return r;
}
static std::set<const void*> hold(const Variable* v) {
    std::set<const void*> r;
    r.insert(v);
    for (std::size_t t = 0; t < v->numberOfTerms(); ++t) {
        std::set<const void*> q = hold(v->getTerm(t));
        r.insert(q.begin(), q.end());
    }
    return r;
}
static std::set<const void*> hold(const Aggregated* g) {
    std::set<const void*> r;
    r.insert(g);
    r.insert(g->getAggregation());
    r.erase((const void*) 0);
    return r;
}
static std::set<const void*> hold(const OutputVariable* v) {
    std::set<const void*> r = hold(static_cast<const Variable*>(v)), q = hold(v->fuzzyOutput());
    r.insert(q.begin(), q.end());
    r.insert(v->getDefuzzifier());
    r.erase((const void*) 0);
    return r;
}
static std::set<const void*> hold(const Rule* x) {
    std::set<const void*> r;
    r.insert(x);
    r.insert(x->getAntecedent());
    r.insert(x->getConsequent());
    return r;
}
static std::set<const void*> hold(const RuleBlock* b) {
    std::set<const void*> r;
    r.insert(b);
    r.insert(b->getConjunction());
    r.insert(b->getDisjunction());
    r.insert(b->getImplication());
    r.insert(b->getActivation());
    for (std::size_t i = 0; i < b->numberOfRules(); ++i) {
        std::set<const void*> q = hold(b->getRule(i));
        r.insert(q.begin(), q.end());
    }
    r.erase((const void*) 0);
    return r;
}
static void spoil(Term* t) {
    t->setName("spoiled");
    t->setHeight(0.125);
    if (Discrete* x = dynamic_cast<Discrete*>(t)) { x->setXY(std::vector<Discrete::Pair>(1, Discrete::Pair(0, 1))); return; }
    if (Linear* x = dynamic_cast<Linear*>(t)) { x->setCoefficients(std::vector<scalar>(1, 42)); return; }
    if (Function* x = dynamic_cast<Function*>(t)) { x->unload(); x->setFormula("42"); return; }
    try { t->configure("1 2 3 4 0.5"); } catch (std::exception&) {}
    try { t->configure("1 2 3 0.5"); } catch (std::exception&) {}
    try { t->configure("1 2 0.5"); } catch (std::exception&) {}
    try { t->configure("1"); } catch (std::exception&) {}
}
static void spoil(Variable* v) {
    v->setName("spoiled");
    v->setDescription("spoiled");
    v->setEnabled(not v->isEnabled());
    v->setLockValueInRange(not v->isLockValueInRange());
    v->setRange(-77, 77);
    v->setValue(42);
    for (std::size_t i = 0; i < v->numberOfTerms(); ++i) spoil(v->getTerm(i));
    if (v->numberOfTerms()) delete v->removeTerm(0);
    v->addTerm(new Triangle("spoiled", 0, 1, 2));
}
static void spoil(InputVariable* v) { spoil(static_cast<Variable*>(v)); }
static void spoil(Aggregated* g) {
    g->setName("spoiled");
    g->setRange(-77, 77);
    g->setAggregation(new EinsteinSum);
    g->addTerm((const Term*) 0, 0.5, (const TNorm*) 0);
}
static void spoil(OutputVariable* v) {
    spoil(static_cast<Variable*>(v));
    spoil(v->fuzzyOutput());
    if (IntegralDefuzzifier* i = dynamic_cast<IntegralDefuzzifier*>(v->getDefuzzifier())) i->setResolution(77);
    if (WeightedDefuzzifier* i = dynamic_cast<WeightedDefuzzifier*>(v->getDefuzzifier())) i->setType(i->getType() == WeightedDefuzzifier::Automatic ? WeightedDefuzzifier::Tsukamoto : WeightedDefuzzifier::Automatic);
    v->setDefuzzifier(0);
    v->setPreviousValue(42);
    v->setDefaultValue(42);
    v->setLockPreviousValue(not v->isLockPreviousValue());
}
static void spoil(Rule* r) {
    r->setText("if spoiled is spoiled then spoiled is spoiled");
    r->setEnabled(not r->isEnabled());
    r->setWeight(42);
    r->setActivationDegree(42);
}
static void spoil(RuleBlock* b) {
    b->setName("spoiled");
    b->setDescription("spoiled");
    b->setEnabled(not b->isEnabled());
    if (b->getActivation()) try { b->getActivation()->configure("7 0.5"); } catch (std::exception&) {}
    if (b->getActivation()) try { b->getActivation()->configure("> 0.5"); } catch (std::exception&) {}
    b->setConjunction(0);
    b->setDisjunction(0);
    b->setImplication(0);
    for (std::size_t i = 0; i < b->numberOfRules(); ++i) spoil(b->getRule(i));
    if (b->numberOfRules()) delete b->removeRule(0);
    b->addRule(new Rule("spoiled"));
}
template <class T> static bool alone(const T*, const T*) { return true; }
static bool alone(const OutputVariable* original, const OutputVariable* copy) {
    for (std::size_t i = 0; i < copy->fuzzyOutput()->numberOfTerms(); ++i) {
        const Term* t = copy->fuzzyOutput()->getTerm(i).getTerm();
        for (std::size_t j = 0; j < original->numberOfTerms(); ++j)
            if (original->getTerm(j) == t) return false;
    }
    return true;
}
// The copy shows what the original shows, they share nothing, and neither notices what happens to the other.
template <class T> static void copies(const std::string& what, T* original, T* copy, T* another) {
    std::string before = seen(original);
    need(seen(copy) == before, what + "-copy-differs");
    need(typeid(*copy) == typeid(*original), what + "-copy-of-another-class");
    std::set<const void*> a = hold(original), b = hold(copy);
    for (std::set<const void*>::iterator p = a.begin(); p != a.end(); ++p) need(not b.count(*p), what + "-copy-shares-a-part");
    need(alone(original, copy), what + "-copy-refers-to-a-term-of-the-original");
    need(a.size() == b.size(), what + "-copy-with-fewer-parts");
    spoil(copy);
    need(seen(original) == before, what + "-changed-by-its-copy");
    delete copy;
    need(seen(original) == before, what + "-changed-by-the-end-of-its-copy");
    spoil(another);
    need(seen(original) == before, what + "-changed-by-another-copy");
    delete another;
}
static Term* aTerm(const std::string& cls) {
    Term* t = FactoryManager::instance()->term()->constructObject(cls);
    spoil(t);
    return t;
}
template <class C> static bool assignTerm(Term* to, const Term* from) {
    C* a = dynamic_cast<C*>(to);
    const C* b = dynamic_cast<const C*>(from);
    if (not a or not b) return false;
    *a = *b;
    return true;
}
static void assignTerm(Term* to, const Term* from) {
    bool done = assignTerm<Bell>(to, from) or assignTerm<Binary>(to, from) or assignTerm<Concave>(to, from) or assignTerm<Constant>(to, from)
        or assignTerm<Cosine>(to, from) or assignTerm<Discrete>(to, from) or assignTerm<Function>(to, from) or assignTerm<Gaussian>(to, from)
        or assignTerm<GaussianProduct>(to, from) or assignTerm<Linear>(to, from) or assignTerm<PiShape>(to, from) or assignTerm<Ramp>(to, from)
        or assignTerm<Rectangle>(to, from) or assignTerm<SShape>(to, from) or assignTerm<Sigmoid>(to, from) or assignTerm<SigmoidDifference>(to, from)
        or assignTerm<SigmoidProduct>(to, from) or assignTerm<Spike>(to, from) or assignTerm<Trapezoid>(to, from) or assignTerm<Triangle>(to, from)
        or assignTerm<ZShape>(to, from);
    need(done, "term-of-unknown-class");
}
template <class T> static T* assigned(const T& from) {
    T* r = new T;
    spoil(r);
    *r = from;
    return r;
}
static void copiesCommand() {
    Engine* e = eng();
    why = "";
    std::vector<Variable*> vs = e->variables();
    for (std::size_t i = 0; i < vs.size() and why.empty(); ++i) {
        Variable* v = vs[i];
        for (std::size_t t = 0; t < v->numberOfTerms(); ++t) {
            Term* x = v->getTerm(t);
            Term* a = aTerm(x->className());
            assignTerm(a, x);
            copies<Term>("term", x, x->clone(), a);
            a = aTerm(x->className());
            assignTerm(a, x);
            copies<Term>("assigned-term", x, a, x->clone());
        }
        if (InputVariable* x = dynamic_cast<InputVariable*>(v)) {
            copies<InputVariable>("input", x, x->clone(), new InputVariable(*x));
            copies<InputVariable>("input", x, new InputVariable(*x), x->clone());
            copies<InputVariable>("assigned-input", x, assigned(*x), assigned(*x));
        }
        if (OutputVariable* x = dynamic_cast<OutputVariable*>(v)) {
            copies<OutputVariable>("output", x, x->clone(), new OutputVariable(*x));
            copies<OutputVariable>("output", x, new OutputVariable(*x), x->clone());
            copies<OutputVariable>("assigned-output", x, assigned(*x), assigned(*x));
            copies<Aggregated>("aggregated", x->fuzzyOutput(), x->fuzzyOutput()->clone(), assigned(*x->fuzzyOutput()));
            copies<Aggregated>("aggregated", x->fuzzyOutput(), assigned(*x->fuzzyOutput()), x->fuzzyOutput()->clone());
        }
    }
    for (std::size_t i = 0; i < e->numberOfRuleBlocks() and why.empty(); ++i) {
        RuleBlock* b = e->getRuleBlock(i);
        copies<RuleBlock>("rule-block", b, b->clone(), new RuleBlock(*b));
        copies<RuleBlock>("rule-block", b, new RuleBlock(*b), b->clone());
        copies<RuleBlock>("assigned-rule-block", b, assigned(*b), assigned(*b));
        for (std::size_t j = 0; j < b->numberOfRules(); ++j) {
            Rule* r = b->getRule(j);
            copies<Rule>("rule", r, r->clone(), new Rule(*r));
            copies<Rule>("assigned-rule", r, assigned(*r), assigned(*r));
        }
    }
    std::printf("%s", why.empty() ? "same" : why.c_str());
}
