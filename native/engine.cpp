// Builds engines and drives them: one command per input line, one result per output line.
#include <map>
#include <typeinfo>
#include <algorithm>
#include "common.h"

static std::map<std::string, Engine*> engines;
static std::string cur = "0";
static Engine*& eng() { return engines[cur]; }

static std::string esc(const std::string& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == '\n') r += "\\n";
        else if (c == '\\') r += "\\\\";
        else if (c == '\r') r += "\\r";
        else r += c;
    }
    return r;
}
static std::string unesc(const std::string& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\\' and i + 1 < s.size()) {
            ++i;
            r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == 'r' ? '\r' : s[i];
        } else
            r += s[i];
    }
    return r;
}
static std::string rest(std::istream& is) {
    std::string r;
    std::getline(is, r);
    if (not r.empty() and r[0] == ' ') r = r.substr(1);
    return unesc(r);
}
static std::vector<std::string> parts(const std::string& s) {
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string t;
    while (std::getline(is, t, ':')) r.push_back(t);
    return r;
}
static double d(const std::string& s) { return std::strtod(s.c_str(), 0); }
static Defuzzifier* defuzzifier(const std::string& s) {
    std::vector<std::string> p = parts(s);
    if (p[0] == "none") return 0;
    if (p[0] == "Centroid") return new Centroid(std::atoi(p[1].c_str()));
    if (p[0] == "Bisector") return new Bisector(std::atoi(p[1].c_str()));
    if (p[0] == "SmallestOfMaximum") return new SmallestOfMaximum(std::atoi(p[1].c_str()));
    if (p[0] == "LargestOfMaximum") return new LargestOfMaximum(std::atoi(p[1].c_str()));
    if (p[0] == "MeanOfMaximum") return new MeanOfMaximum(std::atoi(p[1].c_str()));
    if (p[0] == "WeightedAverage") return new WeightedAverage(p[1]);
    if (p[0] == "WeightedSum") return new WeightedSum(p[1]);
    return 0;
}
static Activation* activation(const std::string& s) {
    std::vector<std::string> p = parts(s);
    if (p[0] == "General") return new General;
    if (p[0] == "Proportional") return new Proportional;
    if (p[0] == "First") return new First(std::atoi(p[1].c_str()), d(p[2]));
    if (p[0] == "Last") return new Last(std::atoi(p[1].c_str()), d(p[2]));
    if (p[0] == "Highest") return new Highest(std::atoi(p[1].c_str()));
    if (p[0] == "Lowest") return new Lowest(std::atoi(p[1].c_str()));
    if (p[0] == "Threshold") return new Threshold(p[1], d(p[2]));
    return 0;
}
static TNorm* tn(const std::string& s) { return s == "none" ? 0 : static_cast<TNorm*>(norm(s)); }
static SNorm* sn(const std::string& s) { return s == "none" ? 0 : static_cast<SNorm*>(norm(s)); }
static Variable* var(const std::string& n) {
    if (eng()->hasInputVariable(n)) return eng()->getInputVariable(n);
    return eng()->getOutputVariable(n);
}
static OutputVariable* ov(const std::string& n) { return eng()->getOutputVariable(n); }
static void put(double x) { std::printf("%.17g", x); }
static std::string name(const Term* t) { return t ? t->getName() : "null"; }
static void put(const Activated& a) {
    std::printf(" %s ", name(a.getTerm()).c_str());
    put(a.getDegree());
    std::printf(" %s", a.getImplication() ? a.getImplication()->className().c_str() : "none");
}
static void ok() { std::printf("ok"); }

#include "collections.h"
#include "dataset.h"
#include "factories.h"
#include "texts.h"
#include "functions.h"
#include "rules.h"
#include "fll.h"
#include "copies.h"

static void command(const std::string& k, std::istream& is) {
    std::string a, b, c, e;
    if (k == "new") {
        is >> a;
        delete engines[a];
        engines[a] = new Engine;
        cur = a;
        ok();
    } else if (k == "use") {
        is >> cur;
        ok();
    } else if (k == "clone") {
        is >> a;
        Engine* o = eng()->clone();
        delete engines[a];
        engines[a] = o;
        ok();
    } else if (k == "assign") {
        is >> a;
        if (not engines[a]) engines[a] = new Engine;
        *engines[a] = *eng();
        ok();
    } else if (k == "drop") {
        is >> a;
        delete engines[a];
        engines[a] = 0;
        ok();
    } else if (k == "iv") {
        InputVariable* v = new InputVariable;
        is >> a; v->setName(a);
        double lo = num(is), hi = num(is);
        v->setRange(lo, hi);
        is >> a; v->setLockValueInRange(a == "1");
        is >> a; v->setEnabled(a == "1");
        eng()->addInputVariable(v);
        ok();
    } else if (k == "ov") {
        OutputVariable* v = new OutputVariable;
        is >> a; v->setName(a);
        double lo = num(is), hi = num(is);
        v->setRange(lo, hi);
        is >> a; v->setLockValueInRange(a == "1");
        is >> a; v->setEnabled(a == "1");
        v->setDefaultValue(num(is));
        is >> a; v->setLockPreviousValue(a == "1");
        is >> a; v->setAggregation(sn(a));
        is >> a; v->setDefuzzifier(defuzzifier(a));
        eng()->addOutputVariable(v);
        ok();
    } else if (k == "term") {
        is >> a >> b >> c;
        Variable* v = var(a);
        if (b == "Function") {
            std::string f = rest(is);
            Function* t = new Function(c, f, eng());
            v->addTerm(t);
            t->load();
        } else {
            double h = num(is);
            V p = nums(is);
            Term* t = b == "Linear" ? new Linear(c, p, eng()) : term(b, h, p);
            t->setName(c);
            v->addTerm(t);
        }
        ok();
    } else if (k == "rb") {
        RuleBlock* r = new RuleBlock;
        is >> a; r->setName(a);
        is >> a; r->setEnabled(a == "1");
        is >> a; r->setConjunction(tn(a));
        is >> a; r->setDisjunction(sn(a));
        is >> a; r->setImplication(tn(a));
        is >> a; r->setActivation(a == "none" ? 0 : activation(a));
        eng()->addRuleBlock(r);
        ok();
    } else if (k == "rule") {      // rule RB ENABLED LOAD text
        is >> a >> b >> c;
        Rule* r = new Rule;
        eng()->getRuleBlock(a)->addRule(r);
        std::string t = rest(is);
        r->setText(t);
        if (c == "1") r->load(t, eng());
        r->setEnabled(b == "1");
        std::printf("%d", r->isLoaded() ? 1 : 0);
    } else if (k == "load") {
        eng()->getRuleBlock((is >> a, a))->loadRules(eng());
        ok();
    } else if (k == "unload") {
        eng()->getRuleBlock((is >> a, a))->unloadRules();
        ok();
    } else if (k == "reload") {
        eng()->getRuleBlock((is >> a, a))->reloadRules(eng());
        ok();
    } else if (k == "set") {
        is >> a;
        var(a)->setValue(num(is));
        ok();
    } else if (k == "setin") {
        is >> a;
        eng()->setInputValue(a, num(is));
        ok();
    } else if (k == "prevset") {
        is >> a;
        ov(a)->setPreviousValue(num(is));
        ok();
    } else if (k == "flag") {      // flag WHAT NAME VALUE
        is >> a >> b;
        double x = num(is);
        if (a == "enabled") var(b)->setEnabled(x != 0);
        else if (a == "lockrange") var(b)->setLockValueInRange(x != 0);
        else if (a == "lockprev") ov(b)->setLockPreviousValue(x != 0);
        else if (a == "default") ov(b)->setDefaultValue(x);
        else if (a == "min") var(b)->setMinimum(x);
        else if (a == "max") var(b)->setMaximum(x);
        else if (a == "rbenabled") eng()->getRuleBlock(b)->setEnabled(x != 0);
        else if (a == "ruleenabled") { std::size_t i; is >> i; eng()->getRuleBlock(b)->getRule(i)->setEnabled(x != 0); }
        else if (a == "weight") { std::size_t i; is >> i; eng()->getRuleBlock(b)->getRule(i)->setWeight(x); }
        ok();
    } else if (k == "aggregation") {
        is >> a >> b;
        ov(a)->setAggregation(sn(b));
        ok();
    } else if (k == "setdef") {
        is >> a >> b;
        ov(a)->setDefuzzifier(defuzzifier(b));
        ok();
    } else if (k == "get") {
        is >> a;
        put(var(a)->getValue());
    } else if (k == "prev") {
        is >> a;
        put(ov(a)->getPreviousValue());
    } else if (k == "out") {
        is >> a;
        put(eng()->getOutputValue(a));
    } else if (k == "process") {
        eng()->process();
        ok();
    } else if (k == "restart") {
        eng()->restart();
        ok();
    } else if (k == "activate") {
        is >> a;
        eng()->getRuleBlock(a)->activate();
        ok();
    } else if (k == "ready") {
        std::printf("%d", eng()->isReady() ? 1 : 0);
    } else if (k == "type") {
        std::printf("%d", (int) eng()->type());
    } else if (k == "rules") {
        is >> a;
        RuleBlock* r = eng()->getRuleBlock(a);
        std::printf("%d", (int) r->numberOfRules());
        for (std::size_t i = 0; i < r->numberOfRules(); ++i) {
            std::printf(" %d %d ", r->getRule(i)->isTriggered() ? 1 : 0, r->getRule(i)->isEnabled() ? 1 : 0);
            put(r->getRule(i)->getActivationDegree());
            std::printf(" ");
            put(r->getRule(i)->getWeight());
        }
    } else if (k == "ruleop") {    // ruleop RB INDEX activate|trigger|deactivate|degree VALUE
        std::size_t i;
        is >> a >> i >> b;
        RuleBlock* rb = eng()->getRuleBlock(a);
        Rule* r = rb->getRule(i);
        if (b == "activate") put(r->activateWith(rb->getConjunction(), rb->getDisjunction()));
        else if (b == "trigger") { r->trigger(rb->getImplication()); ok(); }
        else if (b == "deactivate") { r->deactivate(); ok(); }
        else if (b == "degree") { r->setActivationDegree(num(is)); ok(); }
        else if (b == "antecedent") std::printf("%s", esc(r->getAntecedent()->toPostfix()).c_str());
        else if (b == "consequent") std::printf("%s", esc(r->getConsequent()->toString()).c_str());
        else if (b == "loaded") std::printf("%d", r->isLoaded() ? 1 : 0);
    } else if (k == "tree") {      // structure of the antecedent and conclusions of a rule
        std::size_t i;
        is >> a >> i;
        Rule* r = eng()->getRuleBlock(a)->getRule(i);
        struct W {
            static std::string prop(const Proposition* p) {
                std::string s = "[" + p->variable->getName();
                for (std::size_t j = 0; j < p->hedges.size(); ++j) s += " " + p->hedges[j]->name();
                return s + " " + (p->term ? p->term->getName() : "-") + "]";
            }
            static std::string ex(const Expression* e) {
                if (e->type() == Expression::Proposition) return prop(static_cast<const Proposition*>(e));
                const Operator* o = static_cast<const Operator*>(e);
                return "(" + ex(o->left) + " " + o->name + " " + ex(o->right) + ")";
            }
        };
        std::string s = W::ex(r->getAntecedent()->getExpression()) + " =>";
        for (std::size_t j = 0; j < r->getConsequent()->conclusions().size(); ++j)
            s += " " + W::prop(r->getConsequent()->conclusions()[j]);
        std::printf("%s", s.c_str());
    } else if (k == "fuzzy") {
        is >> a;
        const std::vector<Activated>& t = ov(a)->fuzzyOutput()->terms();
        std::printf("%d", (int) t.size());
        for (std::size_t i = 0; i < t.size(); ++i) put(t[i]);
    } else if (k == "grouped") {
        is >> a;
        std::vector<Activated> t = ov(a)->fuzzyOutput()->groupedTerms();
        std::printf("%d", (int) t.size());
        for (std::size_t i = 0; i < t.size(); ++i) put(t[i]);
    } else if (k == "maximal") {
        is >> a;
        std::vector<Activated> t = ov(a)->fuzzyOutput()->maximallyActivatedTerms();
        std::printf("%d", (int) t.size());
        for (std::size_t i = 0; i < t.size(); ++i) put(t[i]);
    } else if (k == "highest") {
        is >> a;
        Activated t = ov(a)->fuzzyOutput()->highestActivatedTerm();
        std::printf("%s ", name(t.getTerm()).c_str());
        put(t.getDegree());
    } else if (k == "addact") {    // addact OV TERM DEGREE IMPLICATION
        is >> a >> b;
        double x = num(is);
        is >> c;
        static std::map<std::string, TNorm*> norms;
        if (not norms[c]) norms[c] = tn(c);
        ov(a)->fuzzyOutput()->addTerm(b == "null" ? 0 : ov(a)->getTerm(b), x, norms[c]);
        ok();
    } else if (k == "clearact") {
        is >> a;
        ov(a)->fuzzyOutput()->clear();
        ok();
    } else if (k == "actdeg") {
        is >> a >> b;
        put(ov(a)->fuzzyOutput()->activationDegree(ov(a)->getTerm(b)));
    } else if (k == "aggmem") {
        is >> a;
        put(ov(a)->fuzzyOutput()->membership(num(is)));
    } else if (k == "agginfo") {
        is >> a;
        Aggregated* g = ov(a)->fuzzyOutput();
        std::printf("%s ", g->getName().c_str());
        put(g->getMinimum());
        std::printf(" ");
        put(g->getMaximum());
        std::printf(" %s", g->getAggregation() ? g->getAggregation()->className().c_str() : "none");
    } else if (k == "defuzz") {    // value of the defuzzifier alone
        is >> a;
        put(ov(a)->getDefuzzifier()->defuzzify(ov(a)->fuzzyOutput(), ov(a)->getMinimum(), ov(a)->getMaximum()));
    } else if (k == "defuzzterm") {
        is >> a >> b;
        put(ov(a)->getDefuzzifier()->defuzzify(ov(a)->getTerm(b), ov(a)->getMinimum(), ov(a)->getMaximum()));
    } else if (k == "ovdef") {
        is >> a;
        ov(a)->defuzzify();
        ok();
    } else if (k == "ovclear") {
        is >> a;
        ov(a)->clear();
        ok();
    } else if (k == "infer") {
        is >> a;
        std::printf("%d", (int) dynamic_cast<WeightedDefuzzifier*>(ov(a)->getDefuzzifier())->inferType(ov(a)->fuzzyOutput()));
    } else if (k == "hm") {
        is >> a;
        double y = -7;
        Term* t = var(a)->highestMembership(num(is), &y);
        std::printf("%s ", name(t).c_str());
        put(y);
    } else if (k == "mem") {
        is >> a >> b;
        put(var(a)->getTerm(b)->membership(num(is)));
    } else if (k == "tsu") {
        is >> a >> b;
        put(var(a)->getTerm(b)->tsukamoto(num(is)));
    } else if (k == "height") {
        is >> a >> b;
        var(a)->getTerm(b)->setHeight(num(is));
        ok();
    } else if (k == "fll") {
        std::printf("%s", esc(FllExporter().toString(eng())).c_str());
    } else if (k == "import") {
        is >> a;
        Engine* e2 = FllImporter().fromString(rest(is));
        delete engines[a];
        engines[a] = e2;
        ok();
    } else if (k == "vars") {
        std::printf("%d %d %d", (int) eng()->numberOfInputVariables(), (int) eng()->numberOfOutputVariables(), (int) eng()->numberOfRuleBlocks());
    } else if (k == "formula") {   // formula NVARS name value ... text : evaluate
        int n;
        is >> n;
        std::map<std::string, scalar> m;
        for (int i = 0; i < n; ++i) { is >> a; m[a] = num(is); }
        std::string f = rest(is);
        Function fn;
        std::unique_ptr<Function::Node> root(fn.parse(f));
        put(root->evaluate(&m));
    } else if (k == "postfix") {
        Function fn;
        std::printf("%s", esc(fn.toPostfix(rest(is))).c_str());
    } else if (k == "decimals") {
        int n;
        is >> n;
        fl::fuzzylite::setDecimals(n);
        ok();
    } else if (k == "eps") {
        is >> a;
        fl::fuzzylite::setMachEps(d(a));
        ok();
#include "engine_more.inc"
    } else
        std::printf("none");
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        try {
            command(k, is);
        } catch (std::exception&) {
            std::printf("throw");
        }
        std::printf("\n");
        std::fflush(stdout);
    }
    return 0;
}
