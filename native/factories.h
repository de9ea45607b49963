// Histories of registrations on copies of the factories.
#pragma once
template <typename T, typename F>
struct Fac {
    static F*& f() { static F* p = 0; return p; }
    static std::map<std::string, T* (*)()>& table() { static std::map<std::string, T* (*)()> t; return t; }
};
static std::string nameOf(const Norm* n) { return n->className(); }
static std::string nameOf(const Activation* n) { return n->className(); }
static std::string nameOf(const Defuzzifier* n) { return n->className(); }
static std::string nameOf(const Term* n) { return n->className(); }
static std::string nameOf(const Hedge* n) { return n->name(); }
template <typename T> static bool isA(const std::string&, const void*) { return true; }
template <typename T, typename F>
static void facOp(const std::string& op, std::istream& is) {
    F*& f = Fac<T, F>::f();
    if (!f) f = new F();
    std::string key, c;
    is >> key; key = key.empty() ? key : key.substr(1);
    if (op == "fresh") { delete f; f = new F(); std::printf("ok"); }
    else if (op == "copy") { F* g = dynamic_cast<F*>(f->clone()); if (!g) std::printf("none"); else { delete f; f = g; std::printf("ok"); } }
    else if (op == "has") std::printf("%d", f->hasConstructor(key) ? 1 : 0);
    else if (op == "reg") {
        is >> c;
        if (c == "null") f->registerConstructor(key, 0);
        else f->registerConstructor(key, Fac<T, F>::table()[c]);
        std::printf("ok");
    } else if (op == "dereg") { f->deregisterConstructor(key); std::printf("ok"); }
    else if (op == "ptr") {
        T* (*p)() = f->getConstructor(key);
        if (!p) std::printf("null");
        else { std::unique_ptr<T> t(p()); std::printf("%s", nameOf(t.get()).c_str()); }
    } else if (op == "make") {
        T* a = f->constructObject(key);
        if (!a) std::printf("null");
        else {
            T* b = f->constructObject(key);
            std::printf("%s %d", nameOf(a).c_str(), a != b && b && nameOf(b) == nameOf(a) && typeid(*a) == typeid(*b) && typeid(*a) == *static_cast<const std::type_info*>(Fac<T, F>::table().count(nameOf(a)) ? ({ std::unique_ptr<T> r(Fac<T, F>::table()[nameOf(a)]()); &typeid(*r); }) : &typeid(*a)) ? 1 : 0);
            delete b;
        }
        delete a;
    } else if (op == "avail") {
        std::vector<std::string> v = f->available();
        std::printf("%d", int(v.size()));
        for (std::size_t i = 0; i < v.size(); ++i) std::printf(" <%s>", v[i].c_str());
        if (f->constructors().size() != v.size()) std::printf(" different");
    } else std::printf("none");
}
template <typename T, typename D> static T* make_() { return new D; }
#define TB(T, F, X) Fac<T, F>::table()[nameOf(std::unique_ptr<T>(new X).get())] = &make_<T, X>;
static void tables() {
    static bool done = false;
    if (done) return;
    done = true;
#define X_(C) TB(TNorm, TNormFactory, C)
    X_(AlgebraicProduct) X_(BoundedDifference) X_(DrasticProduct) X_(EinsteinProduct) X_(HamacherProduct) X_(Minimum) X_(NilpotentMinimum)
#undef X_
#define X_(C) TB(SNorm, SNormFactory, C)
    X_(AlgebraicSum) X_(BoundedSum) X_(DrasticSum) X_(EinsteinSum) X_(HamacherSum) X_(Maximum) X_(NilpotentMaximum) X_(NormalizedSum) X_(UnboundedSum)
#undef X_
#define X_(C) TB(Activation, ActivationFactory, C)
    X_(First) X_(General) X_(Highest) X_(Last) X_(Lowest) X_(Proportional) X_(Threshold)
#undef X_
#define X_(C) TB(Defuzzifier, DefuzzifierFactory, C)
    X_(Bisector) X_(Centroid) X_(LargestOfMaximum) X_(MeanOfMaximum) X_(SmallestOfMaximum) X_(WeightedAverage) X_(WeightedSum)
#undef X_
#define X_(C) TB(Hedge, HedgeFactory, C)
    X_(Any) X_(Extremely) X_(Not) X_(Seldom) X_(Somewhat) X_(Very)
#undef X_
#define X_(C) TB(Term, TermFactory, C)
    X_(Bell) X_(Binary) X_(Concave) X_(Constant) X_(Cosine) X_(Discrete) X_(Function) X_(Gaussian) X_(GaussianProduct) X_(Linear) X_(PiShape) X_(Ramp)
    X_(Rectangle) X_(SShape) X_(Sigmoid) X_(SigmoidDifference) X_(SigmoidProduct) X_(Spike) X_(Trapezoid) X_(Triangle) X_(ZShape)
#undef X_
}
static void facFunction(const std::string& op, std::istream& is) {
    static FunctionFactory* f = 0;
    if (!f) f = new FunctionFactory;
    std::string key;
    is >> key; key = key.empty() ? key : key.substr(1);
    if (op == "fresh") { delete f; f = new FunctionFactory; std::printf("ok"); }
    else if (op == "copy") { FunctionFactory* g = f->clone(); delete f; f = g; std::printf("ok"); }
    else if (op == "assign") { FunctionFactory* g = new FunctionFactory; *g = *f; delete f; f = g; std::printf("ok"); }
    else if (op == "has") std::printf("%d", f->hasObject(key) ? 1 : 0);
    else if (op == "reg") {
        std::string n;
        int p;
        is >> n >> p;
        f->registerObject(key, n == "null" ? 0 : new Function::Element(n, "x", Function::Element::Operator, &(Op::add), p));
        std::printf("ok");
    } else if (op == "dereg") { f->deregisterObject(key); std::printf("ok"); }
    else if (op == "make" || op == "ptr") {
        Function::Element* e = op == "ptr" ? f->getObject(key) : f->cloneObject(key);
        if (!e) std::printf("null");
        else std::printf("%s %d %d %d %d %d %d", e->name.c_str(), e->isOperator() ? 1 : 0, e->arity, e->precedence, e->associativity, e->unary ? 1 : 0, e->binary ? 1 : 0);
        if (op == "make" && e) { std::printf(" %d", e != f->getObject(key) ? 1 : 0); delete e; }
    } else if (op == "avail" || op == "ops" || op == "funs") {
        std::vector<std::string> v = op == "avail" ? f->available() : op == "ops" ? f->availableOperators() : f->availableFunctions();
        std::printf("%d", int(v.size()));
        for (std::size_t i = 0; i < v.size(); ++i) std::printf(" <%s>", v[i].c_str());
    } else std::printf("none");
}
static void factoryCommand(std::istream& is) {
    tables();
    std::string k, op;
    is >> k >> op;
    if (k == "tnorm") facOp<TNorm, TNormFactory>(op, is);
    else if (k == "snorm") facOp<SNorm, SNormFactory>(op, is);
    else if (k == "activation") facOp<Activation, ActivationFactory>(op, is);
    else if (k == "defuzzifier") facOp<Defuzzifier, DefuzzifierFactory>(op, is);
    else if (k == "term") facOp<Term, TermFactory>(op, is);
    else if (k == "hedge") facOp<Hedge, HedgeFactory>(op, is);
    else if (k == "function") facFunction(op, is);
    else if (k == "manager") {
        FactoryManager* m = FactoryManager::instance();
        FactoryManager c(*m);
        FactoryManager d(0, 0, 0, 0, 0, 0, 0);
        d = c;
        const FactoryManager* all[3] = {m, &c, &d};
        for (int i = 0; i < 3; ++i)
            std::printf("%d %d %d %d %d %d %d %d ", int(all[i]->tnorm()->available().size()), int(all[i]->snorm()->available().size()), int(all[i]->activation()->available().size()),
                int(all[i]->defuzzifier()->available().size()), int(all[i]->term()->available().size()), int(all[i]->hedge()->available().size()),
                int(all[i]->function()->available().size()), i && (all[i]->tnorm() == m->tnorm() || all[i]->function() == m->function() || all[i]->term() == m->term()) ? 1 : 0);
    } else std::printf("none");
}
