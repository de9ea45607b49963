// Histories of collection operations: items are identified by number.
static std::map<const void*, int> ids;
static Variable* termed = 0;
static RuleBlock* ruled = 0;
static std::string quoted(std::istream& is) {
    std::string r;
    std::getline(is, r);
    std::size_t b = r.find('"'), e = r.rfind('"');
    return b == std::string::npos or e <= b ? "" : r.substr(b + 1, e - b - 1);
}
template <typename T>
static void show(const std::vector<T*>& v) {
    std::printf("%d", (int) v.size());
    for (std::size_t i = 0; i < v.size(); ++i) std::printf(" %d", ids[v.at(i)]);
}
static int id(const void* p) { return ids.count(p) ? ids[p] : -1; }
#define COLL_COMMON(T, W, OWNER, MAKE, ALL)                                                           \
    if (op == "add") { is >> n >> at; T* x = MAKE; ids[x] = n; OWNER->add##W(x); std::printf("ok"); } \
    else if (op == "insert") { is >> n >> at; T* x = MAKE; ids[x] = n; OWNER->insert##W(x, at); std::printf("ok"); } \
    else if (op == "remove") { is >> at; std::printf("%d", id(OWNER->remove##W(at))); }               \
    else if (op == "get") { is >> at; std::printf("%d", id(OWNER->get##W(at))); }                     \
    else if (op == "list") {                                                                          \
        if (OWNER->numberOf##W##s() != OWNER->ALL().size()) std::printf("count "); show(OWNER->ALL()); }
#define COLL_NAMED(T, W, OWNER)                                                                       \
    else if (op == "getname") std::printf("%d", id(OWNER->get##W(quoted(is))));                       \
    else if (op == "has") std::printf("%d", OWNER->has##W(quoted(is)) ? 1 : 0);
#define COLL_ENGINE(T, W, MAKE)                                                                       \
    else if (op == "removename") std::printf("%d", id(eng()->remove##W(quoted(is))));                 \
    else if (op == "set") { is >> n >> at; T* x = MAKE; ids[x] = n; std::printf("%d", id(eng()->set##W(x, at))); }
static InputVariable* makeIn(std::istream& is) { return new InputVariable(quoted(is)); }
static OutputVariable* makeOut(std::istream& is) { return new OutputVariable(quoted(is)); }
static RuleBlock* makeBlock(std::istream& is) { return new RuleBlock(quoted(is)); }
static Term* makeTerm(std::istream& is) { return new Triangle(quoted(is), 0, 1, 2); }
static void collection(std::istream& is) {
    std::string kind, op;
    int n = 0;
    std::size_t at = 0;
    is >> kind >> op;
    if (kind == "reset") {
        ids.clear();
        delete termed;
        delete ruled;
        termed = new Variable("v");
        ruled = new RuleBlock("rb");
        std::printf("ok");
    } else if (kind == "variables") show(eng()->variables());
    else if (kind == "in") {
        COLL_COMMON(InputVariable, InputVariable, eng(), makeIn(is), inputVariables)
        COLL_NAMED(InputVariable, InputVariable, eng())
        COLL_ENGINE(InputVariable, InputVariable, makeIn(is))
    } else if (kind == "out") {
        COLL_COMMON(OutputVariable, OutputVariable, eng(), makeOut(is), outputVariables)
        COLL_NAMED(OutputVariable, OutputVariable, eng())
        COLL_ENGINE(OutputVariable, OutputVariable, makeOut(is))
    } else if (kind == "rb") {
        COLL_COMMON(RuleBlock, RuleBlock, eng(), makeBlock(is), ruleBlocks)
        COLL_NAMED(RuleBlock, RuleBlock, eng())
        COLL_ENGINE(RuleBlock, RuleBlock, makeBlock(is))
    } else if (kind == "term") {
        COLL_COMMON(Term, Term, termed, makeTerm(is), terms)
        COLL_NAMED(Term, Term, termed)
    } else if (kind == "rule") {
        COLL_COMMON(Rule, Rule, ruled, new Rule, rules)
    }
}
