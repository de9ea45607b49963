seed('P01-sigmoid-difference', 'P01', [('src/term/SigmoidDifference.cpp', 'std::abs(a - b)', 'Op::max(scalar(0.0), a - b)')],
     '''SigmoidDifference t("t", 5, 10, 10, 2); double a = 1 / (1 + std::exp(-10 * (3.5 - 5))), b = 1 / (1 + std::exp(-10 * (3.5 - 2))); EXPECT(near(t.membership(3.5), std::fabs(a - b)));''',
     'a sigmoid difference whose left sigmoid lies below the right one at the input', 'the membership is zero instead of the absolute difference')
seed('P01-binary-direction', 'P01', [('src/term/Binary.cpp', 'if (_direction > _start and', 'if (_direction > 0.0 and')],
     '''Binary t("t", 2, 1); EXPECT(near(t.membership(3), 0)); EXPECT(near(t.membership(1.5), 1)); Binary u("u", 2, fl::inf); EXPECT(near(u.membership(3), 1));''',
     'a binary edge whose direction is a finite value between zero and the start', 'the edge answers on both sides')
seed('P02-sigmoid-height', 'P02', [('src/term/Sigmoid.cpp', 'std::log(h / y - 1.0) / -s', 'std::log(1.0 / y - 1.0) / -s')],
     '''Sigmoid t("t", 0, 10, 0.5); EXPECT(near(t.membership(t.tsukamoto(0.3)), 0.3)); Sigmoid u("u", 0, 10); EXPECT(near(u.membership(u.tsukamoto(0.3)), 0.3));''',
     'a sigmoid with a height other than one', 'the Tsukamoto value is not the inverse of the membership')
seed('P03-hamacher-guard', 'P03', [('src/norm/t/HamacherProduct.cpp', 'Op::isEq(a + b, 0.0)', 'Op::isEq(a * b, 0.0)')],
     '''HamacherProduct n; double a = 5e-4, b = 1e-3; EXPECT(near(n.compute(a, b), a * b / (a + b - a * b))); EXPECT(near(n.compute(0, 0), 0));''',
     'two small positive degrees whose product is below the tolerance', 'the operator answers zero')
seed('P04-nilpotent-exact', 'P04', [('src/norm/s/NilpotentMaximum.cpp', 'Op::isLt(a + b, 1.0)', 'a + b < 1.0')],
     '''NilpotentMaximum n; EXPECT(near(n.compute(0.4, 0.6 - 4e-7), 1)); EXPECT(near(n.compute(0.4, 0.5), 0.5));''',
     'two degrees that add up to one only within the tolerance', 'the operator answers the maximum instead of one')
seed('P05-seldom-threshold', 'P05', [('src/hedge/Seldom.cpp', 'Op::isLE(x, 0.5)', 'Op::isLE(x, 0.55)')],
     '''Seldom h; EXPECT(near(h.hedge(0.54), 1 - std::sqrt(0.5 * 0.46))); EXPECT(near(h.hedge(0.25), std::sqrt(0.125)));''',
     'a degree slightly above one half', 'the wrong branch of the contrast function is used')
seed('P07-bisector-nan', 'P07', [('src/defuzzifier/Bisector.cpp', '''            if (Op::isFinite(yi))
                sum += yi;''', '''            sum += yi;''')],
     '''std::unique_ptr<Function> t(Function::create("t", "log(x)")); Bisector b(100); double v = b.defuzzify(t.get(), -1, 2); EXPECT(Op::isFinite(v)); Triangle u("u", 0, 0.5, 1); EXPECT(std::fabs(b.defuzzify(&u, 0, 1) - 0.5) < 0.02);''',
     'a term that is not defined at some points of the range', 'one undefined degree makes the bisector NaN')
seed('P07-mom-above-one', 'P07', [('src/defuzzifier/MeanOfMaximum.cpp', 'ymax = y;', 'ymax = Op::min(y, scalar(1.0));')],
     '''Triangle t("t", 0, 0.5, 1, 4.0); MeanOfMaximum m(101); EXPECT(std::fabs(m.defuzzify(&t, 0, 1) - 0.5) < 0.02); Triangle u("u", 0, 0.2, 1, 4.0); EXPECT(std::fabs(m.defuzzify(&u, 0, 1) - 0.2) < 0.02);''',
     'a fuzzy output whose degrees exceed one (as with the unbounded sum)', 'points of lower membership count as maxima')
ENG = '''std::unique_ptr<Engine> e(FllImporter().fromString("Engine: e\\nInputVariable: a\\n  range: 0 1\\n  term: low Ramp 1 0\\n  term: high Ramp 0 1\\nInputVariable: b\\n  range: 0 1\\n  term: low Ramp 1 0\\n  term: high Ramp 0 1\\nOutputVariable: o\\n  range: 0 1\\n  %s\\n  term: low %s\\n  term: high %s\\n%sRuleBlock: r\\n  conjunction: %s\\n  disjunction: %s\\n  implication: %s\\n  activation: %s\\n%s"));
InputVariable* a = e->getInputVariable("a"); InputVariable* b = e->getInputVariable("b"); OutputVariable* o = e->getOutputVariable("o"); (void) a; (void) b; (void) o; RuleBlock* r = e->getRuleBlock(0); (void) r;
'''


def eng(rules, out='aggregation: Maximum\\n  defuzzifier: Centroid 100', low='Ramp 1 0', high='Ramp 0 1', more='', c='Minimum', d='Maximum', i='Minimum', act='General'):
    return ENG % (out, low, high, more, c, d, i, act, ''.join('  rule: %s\\n' % x for x in rules))


TS = 'aggregation: Maximum\\n  defuzzifier: WeightedAverage'
seed('P06-open-end', 'P06', [('fuzzylite/Operation.h', 'bool right = leq ? Op::isLE(x, max) : Op::isLt(x, max);', 'bool right = leq ? Op::isLE(x, max) : (x < max);')],
     '''EXPECT(not Op::in(1.0 - 4e-7, 0.0, 1.0, true, false)); EXPECT(Op::in(0.5, 0.0, 1.0, true, false));''',
     'a value that equals the open end of the interval only within the tolerance', 'the value counts as inside')
seed('P06-round-half', 'P06', [('fuzzylite/Operation.h', '(x > 0.0) ? std::floor(x + 0.5)', '(x > -1.0) ? std::floor(x + 0.5)')],
     '''EXPECT(Op::round(-0.5) == -1.0); EXPECT(Op::round(0.5) == 1.0);''', 'minus one half', 'minus one half is rounded up')
seed('P08-tsukamoto-height', 'P08', [('src/defuzzifier/WeightedAverage.cpp', '''            const scalar z = activated.getTerm()->tsukamoto(w);
            sum += w * z;
            weights += w;''', '''            const scalar z = activated.getTerm()->tsukamoto(w);
            sum += w * z;
            weights += w * activated.getTerm()->getHeight();''')],
     '''Aggregated g("g", 0, 1, new Maximum); Ramp p("p", 0, 1, 0.5), q("q", 0, 4); g.addTerm(&p, 0.25, nullptr); g.addTerm(&q, 0.5, nullptr); WeightedAverage w; EXPECT(near(w.defuzzify(&g, 0, 1), (0.25 * 0.5 + 0.5 * 2) / 0.75));''',
     'an activated monotonic term whose height is not one', 'the weights are scaled with the height')
seed('P09-maximal-tolerant', 'P09', [('src/term/Aggregated.cpp', 'maxDegree > 0.0 and maxDegree == term.getDegree()', 'maxDegree > 0.0 and Op::isEq(maxDegree, term.getDegree())')],
     '''Aggregated g("g", 0, 1); Ramp p("p", 0, 1), q("q", 0, 1); g.addTerm(&p, 0.5, nullptr); g.addTerm(&q, 0.5 - 4e-7, nullptr); EXPECT(g.maximallyActivatedTerms().size() == 1); g.addTerm(&q, 0.5, nullptr); EXPECT(g.maximallyActivatedTerms().size() == 2);''',
     'two degrees that differ by less than the tolerance', 'a term that is not maximally activated is reported')
seed('P09-sum-bounded', 'P09', [('src/term/Aggregated.cpp', 'result += activatedTerm.getDegree();  // Default', 'result = Op::min(scalar(1.0), result + activatedTerm.getDegree());  // Default')],
     '''Aggregated g("g", 0, 1); Ramp p("p", 0, 1); g.addTerm(&p, 0.75, nullptr); g.addTerm(&p, 0.5, nullptr); EXPECT(near(g.activationDegree(&p), 1.25));''',
     'activations of a term without aggregation operator that sum up to more than one', 'the sum is cut at one')
seed('P10-any-shortcut', 'P10', [('src/rule/Antecedent.cpp', '''                    while (++rit != proposition->hedges.rend())
                        result = (*rit)->hedge(result);''', '''                    if (++rit != proposition->hedges.rend())
                        result = (*rit)->hedge(result);''')],
     eng(['if a is not not any then o is low']) + '''a->setValue(0.3); e->process(); EXPECT(near(r->getRule(0)->getActivationDegree(), 1));''',
     'two or more hedges in front of any', 'only the innermost hedge is applied')
seed('P10-or-shortcut', 'P10', [('src/rule/Antecedent.cpp', '''                return disjunction->compute(
                    this->activationDegree(conjunction, disjunction, fuzzyOperator->left),
                    this->activationDegree(conjunction, disjunction, fuzzyOperator->right)
                );''', '''                const scalar left = this->activationDegree(conjunction, disjunction, fuzzyOperator->left);
                if (left >= 1.0)
                    return left;
                return disjunction->compute(
                    left, this->activationDegree(conjunction, disjunction, fuzzyOperator->right)
                );''')],
     eng(['if a is high or b is high then o is low'], d='UnboundedSum') + '''a->setValue(1); b->setValue(0.5); e->process(); EXPECT(near(r->getRule(0)->getActivationDegree(), 1.5)); a->setValue(0.5); e->process(); EXPECT(near(r->getRule(0)->getActivationDegree(), 1.0));''',
     'a left operand of degree one and a disjunction that is not bounded', 'the right operand is ignored')
seed('P11-degree-capped', 'P11', [('src/rule/Rule.cpp', 'setActivationDegree(getWeight() * getAntecedent()->activationDegree(conjunction, disjunction));', 'setActivationDegree(Op::min(scalar(1.0), getWeight() * getAntecedent()->activationDegree(conjunction, disjunction)));')],
     eng(['if a is high then o is low with 2.0']) + '''a->setValue(0.75); e->process(); EXPECT(near(r->getRule(0)->getActivationDegree(), 1.5));''',
     'a weight that lifts the degree above one', 'the degree is cut at one')
seed('P11-full-degree', 'P11', [('src/rule/Consequent.cpp', 'if (not proposition->hedges.empty()) {', 'if (activationDegree < 1.0 and not proposition->hedges.empty()) {')],
     eng(['if a is high then o is not low']) + '''a->setValue(1); e->process(); EXPECT(near(o->fuzzyOutput()->terms().at(0).getDegree(), 0)); a->setValue(0.25); e->process(); EXPECT(near(o->fuzzyOutput()->terms().at(0).getDegree(), 0.75));''',
     'a rule of degree one whose conclusion is negated', 'the hedge is skipped')
seed('P12-first-break', 'P12', [('src/activation/First.cpp', '            rule->deactivate();\n', '            if (activated >= _numberOfRules)\n                break;\n            rule->deactivate();\n')],
     eng(['if a is high then o is low', 'if a is low then o is high'], act='First 1 0.0') + '''r->getRule(1)->setActivationDegree(0.7); a->setValue(0.75); e->process(); EXPECT(near(r->getRule(1)->getActivationDegree(), 0.25));''',
     'rules after the last one to fire', 'their degrees are those of the previous run')
seed('P12-proportional-fired', 'P12', [('src/activation/Proportional.cpp', '                sumActivationDegrees += activationDegree;', '                if (rule->isEnabled())\n                    sumActivationDegrees += activationDegree;')],
     eng(['if a is high then o is low', 'if a is low then o is high']) + '''r->setActivation(new Proportional); r->getRule(1)->setEnabled(false); a->setValue(0.5); e->process(); EXPECT(near(r->getRule(0)->getActivationDegree(), 0.5));''',
     'a disabled rule in a block with proportional activation', 'the degrees are divided by another sum')
seed('P14-clear-enabled', 'P14', [('src/Engine.cpp', '            _outputVariables.at(i)->fuzzyOutput()->clear();\n\n        FL_DEBUG_BEGIN', '            if (_outputVariables.at(i)->isEnabled())\n                _outputVariables.at(i)->fuzzyOutput()->clear();\n\n        FL_DEBUG_BEGIN')],
     eng(['if a is high then o is low']) + '''a->setValue(0.5); e->process(); EXPECT(o->fuzzyOutput()->numberOfTerms() == 1); o->setEnabled(false); e->process(); EXPECT(o->fuzzyOutput()->numberOfTerms() == 0);''',
     'an output variable disabled after the engine has been processed', 'its fuzzy output is kept')
seed('P14-restart-disabled', 'P14', [('src/Engine.cpp', '        for (std::size_t i = 0; i < outputVariables().size(); ++i)\n            outputVariables().at(i)->clear();', '        for (std::size_t i = 0; i < outputVariables().size(); ++i)\n            if (outputVariables().at(i)->isEnabled())\n                outputVariables().at(i)->clear();')],
     eng(['if a is high then o is low']) + '''o->setValue(0.5); o->setEnabled(false); e->restart(); EXPECT(Op::isNaN(o->getValue()));''',
     'a disabled output variable', 'restarting the engine keeps its values')
seed('P15-last-of-the-highest', 'P15', [('src/variable/Variable.cpp', 'result = maxActivations.front();', 'result = maxActivations.back();')],
     '''Variable v("v", 0, 1); v.addTerm(new Ramp("p", 0, 1)); v.addTerm(new Ramp("q", 0, 1)); EXPECT(v.highestMembership(0.5)->getName() == "p");''',
     'two terms of the same highest membership', 'the last of them is answered')
seed('P17-antecedent-end', 'P17', [('src/rule/Antecedent.cpp', '                        if (dynamic_cast<Any*>(hedge))\n                            state = S_VARIABLE bitor S_AND_OR;\n', '                        if (dynamic_cast<Any*>(hedge) and proposition->hedges.size() == 1)\n                            state = S_VARIABLE bitor S_AND_OR;\n')],
     eng(['if a is low then o is low']) + '''r->getRule(0)->load("if a is any then o is low", e.get()); EXPECT(r->getRule(0)->isLoaded()); r->getRule(0)->load("if a is not any then o is low", e.get()); EXPECT(r->getRule(0)->isLoaded());''',
     'a hedge in front of any', 'the proposition is rejected')
seed('P17-weight-kept', 'P17', [('src/rule/Rule.cpp', '            setWeight(weight);\n        } catch', '            if (state == S_END)\n                setWeight(weight);\n        } catch')],
     eng(['if a is low then o is low with 0.5']) + '''r->getRule(0)->load("if a is low then o is low", e.get()); EXPECT(r->getRule(0)->getWeight() == 1.0);''',
     'a rule with a weight that is loaded again from a text without weight', 'the earlier weight remains')
seed('P20-front-height', 'P20', [('src/term/Discrete.cpp', 'return Term::_height * _xy.front().second;', 'return Op::min(Term::_height, _xy.front().second);')],
     '''Discrete d("d", {Discrete::Pair(0, 0.5), Discrete::Pair(1, 1)}, 0.5); EXPECT(near(d.membership(-1), 0.25)); Discrete f("f", {Discrete::Pair(0, 0), Discrete::Pair(1, 1)}); EXPECT(near(f.membership(-1), 0));''',
     'a height other than one and a first ordinate other than zero', 'the membership left of the span is not scaled')
seed('P21-first-conclusion', 'P21', [('src/Engine.cpp', 'c < consequent->conclusions().size(); ++c) {', 'c < std::min(std::size_t(1), consequent->conclusions().size()); ++c) {')],
     '''std::unique_ptr<Engine> e(FllImporter().fromString("Engine: e\\nInputVariable: a\\n  term: low Ramp 1 0\\nOutputVariable: p\\n  defuzzifier: WeightedAverage\\n  term: low Constant 1\\nOutputVariable: q\\n  range: 0 1\\n  aggregation: Maximum\\n  defuzzifier: Centroid 10\\n  term: low Ramp 1 0\\nRuleBlock: r\\n  activation: General\\n  rule: if a is low then p is low and q is low\\n")); EXPECT(not e->isReady()); e->getRuleBlock(0)->setImplication(new Minimum); EXPECT(e->isReady());''',
     'a rule whose first conclusion is about a weighted output variable and another one about an integral one', 'an engine without implication operator reports itself ready')
seed('P21-aggregation-first', 'P21', [('src/Engine.cpp', 'if (not aggregation and dynamic_cast<IntegralDefuzzifier*>(defuzzifier))', 'if (not aggregation and i == 0 and dynamic_cast<IntegralDefuzzifier*>(defuzzifier))')],
     '''std::unique_ptr<Engine> e(FllImporter().fromString("Engine: e\\nInputVariable: a\\n  term: low Ramp 1 0\\nOutputVariable: p\\n  range: 0 1\\n  aggregation: Maximum\\n  defuzzifier: Centroid 10\\n  term: low Ramp 1 0\\nOutputVariable: q\\n  range: 0 1\\n  defuzzifier: Centroid 10\\n  term: low Ramp 1 0\\nRuleBlock: r\\n  implication: Minimum\\n  activation: General\\n  rule: if a is low then p is low\\n")); EXPECT(not e->isReady()); e->getOutputVariable("q")->setAggregation(new Maximum); EXPECT(e->isReady());''',
     'a second output variable without aggregation operator', 'the engine reports itself ready')
seed('P22-larsen-last-block', 'P22', [('src/Engine.cpp', 'for (std::size_t i = 0; larsen and i < ruleBlocks().size(); ++i) {', 'for (std::size_t i = 0; larsen and i < std::max(std::size_t(1), ruleBlocks().size() - 1); ++i) {')],
     eng(['if a is high then o is low'], i='AlgebraicProduct') + '''EXPECT(e->type() == Engine::Larsen); RuleBlock* s = new RuleBlock; s->setImplication(new Minimum); e->addRuleBlock(s); EXPECT(e->type() == Engine::Mamdani);''',
     'two rule blocks of which only the last one has another implication', 'the engine counts as Larsen')
seed('P22-takagi-type', 'P22', [('src/Engine.cpp', '(weightedDefuzzifier->getType() == WeightedDefuzzifier::Automatic or weightedDefuzzifier->getType() == WeightedDefuzzifier::TakagiSugeno)', '(weightedDefuzzifier->getType() != WeightedDefuzzifier::Tsukamoto or outputVariable->terms().empty())')],
     eng(['if a is high then o is low'], out='defuzzifier: WeightedAverage Tsukamoto', low='Constant 1', high='Constant 1') + '''EXPECT(e->type() == Engine::InverseTsukamoto); o->terms().clear(); EXPECT(e->type() == Engine::Tsukamoto);''',
     'an output variable without terms whose weighted defuzzifier has the type Tsukamoto', 'the engine counts as Takagi-Sugeno')
seed('P23-first-wins', 'P23', [('fuzzylite/factory/ConstructionFactory.h', 'this->_constructors[key] = constructor;', 'this->_constructors.insert(std::make_pair(key, constructor));')],
     '''HedgeFactory f; f.registerConstructor("very", &Not::constructor); std::unique_ptr<Hedge> h(f.constructObject("very")); EXPECT(h->name() == "not");''',
     'a name that is registered again', 'the first registration remains')
seed('P23-neighbour', 'P23', [('fuzzylite/factory/ConstructionFactory.h', '''        typename std::map<std::string, Constructor>::iterator it = this->_constructors.find(key);
        if (it != this->_constructors.end())
            this->_constructors.erase(it);''', '''        typename std::map<std::string, Constructor>::iterator it = this->_constructors.lower_bound(key);
        if (it != this->_constructors.end())
            this->_constructors.erase(it);''')],
     '''HedgeFactory f; f.deregisterConstructor("somebody"); EXPECT(f.hasConstructor("somewhat")); f.deregisterConstructor("very"); EXPECT(not f.hasConstructor("very"));''',
     'removing a name that is not registered', 'the next name is removed')
seed('P24-last-of-the-name', 'P24', [('src/Engine.cpp', '''        for (std::size_t i = 0; i < outputVariables().size(); ++i)
            if (outputVariables().at(i)->getName() == name)
                return outputVariables().at(i);''', '''        for (std::size_t i = outputVariables().size(); i > 0; --i)
            if (outputVariables().at(i - 1)->getName() == name)
                return outputVariables().at(i - 1);''')],
     '''Engine e; OutputVariable* p = new OutputVariable("v"); OutputVariable* q = new OutputVariable("v"); e.addOutputVariable(p); e.addOutputVariable(q); EXPECT(e.getOutputVariable("v") == p);''',
     'two output variables of the same name', 'the last one is found')
seed('P24-insert-end', 'P24', [('src/variable/Variable.cpp', '_terms.insert(_terms.begin() + index, term);', '_terms.insert(_terms.begin() + (index + 1 < _terms.size() ? index : _terms.size()), term);')],
     '''Variable v; v.addTerm(new Ramp("p")); v.addTerm(new Ramp("q")); v.insertTerm(new Ramp("s"), 1); EXPECT(v.getTerm(1)->getName() == "s"); v.insertTerm(new Ramp("t"), 0); EXPECT(v.getTerm(std::size_t(0))->getName() == "t");''',
     'an insertion in front of the last term', 'the term is added at the end')
seed('P25-indented-comment', 'P25', [('src/imex/FldExporter.cpp', '''            ++lineNumber;
            line = Op::trim(line);
            if (not line.empty() and line.at(0) == '#')
                continue;  // comments are ignored, blank lines are retained
            std::vector<scalar> inputValues;
            if (lineNumber == 1) {  // automatic detection of header.
                try {
                    inputValues = parse(line);
                } catch (std::exception&) { continue; }
            } else {
                inputValues = parse(line);
            }
            try {''', '''            ++lineNumber;
            if (not line.empty() and line.at(0) == '#')
                continue;  // comments are ignored, blank lines are retained
            line = Op::trim(line);
            std::vector<scalar> inputValues;
            if (lineNumber == 1) {  // automatic detection of header.
                try {
                    inputValues = parse(line);
                } catch (std::exception&) { continue; }
            } else {
                inputValues = parse(line);
            }
            try {''')],
     eng(['if a is high then o is low']) + '''std::istringstream in("0.5 0.5\\n  # remark\\n1 1\\n"); std::ostringstream out; FldExporter x(" "); x.setExportHeader(false); x.setExportOutputValues(false); x.write(e.get(), out, in); EXPECT(out.str() == "0.500 0.500\\n1.000 1.000\\n");''',
     'a comment with leading blanks', 'a blank row is written for it')
seed('P25-locked-input', 'P25', [('src/imex/FldExporter.cpp', '                values.push_back(inputValue);', '                values.push_back(inputVariable->getValue());')],
     eng(['if a is high then o is low']) + '''a->setLockValueInRange(true); std::istringstream in("2 0.5\\n"); std::ostringstream out; FldExporter x(" "); x.setExportHeader(false); x.setExportOutputValues(false); x.write(e.get(), out, in); EXPECT(out.str() == "2.000 0.500\\n");''',
     'a given input value out of the range of a locked variable', 'the row shows another input value than the given one')
seed('P26-trailing-empty', 'P26', [('fuzzylite/Operation.h', '        while (next != str.end()) {\n            next = std::search', '        while (next != str.end() and position != str.end()) {\n            next = std::search')],
     '''EXPECT(Op::join(Op::split("a,b,", ",", false), ",") == "a,b,"); EXPECT(Op::split("a,b", ",").size() == 2);''',
     'text that ends with the delimiter', 'the last, empty part is lost')
seed('P26-lenient-number', 'P26', [('fuzzylite/Operation.h', '''            *ok = true;
        std::istringstream iss(x);
        scalar result;
        iss >> result;
        char strict;''', '''            *ok = true;
        std::istringstream iss(x);
        scalar result;
        iss >> result >> std::ws;
        char strict;''')],
     '''EXPECT(near(Op::toScalar("1.5 ", -1.0), -1.0)); EXPECT(near(Op::toScalar("1.5", -1.0), 1.5));''',
     'a number followed by blanks, converted with an alternative', 'the text is accepted')
seed('P27-disabled-input', 'P27', [('src/term/Linear.cpp', '            if (i < numberOfCoefficients)\n', '            if (i < numberOfCoefficients and _engine->inputVariables().at(i)->isEnabled())\n')],
     eng(['if a is high then o is low']) + '''Linear l("l", {2, 3, 1}, e.get()); a->setValue(0.5); b->setValue(0.25); EXPECT(near(l.membership(0), 2.75)); b->setEnabled(false); EXPECT(near(l.membership(0), 2.75));''',
     'a disabled input variable', 'its coefficient is ignored')
seed('P27-nan-input', 'P27', [('src/term/Linear.cpp', '                result += _coefficients.at(i) * _engine->inputVariables().at(i)->getValue();', '                result += Op::isEq(_coefficients.at(i), 0.0) ? 0.0 : _coefficients.at(i) * _engine->inputVariables().at(i)->getValue();')],
     eng(['if a is high then o is low']) + '''Linear l("l", {5e-7, 3, 1}, e.get()); a->setValue(1e7); b->setValue(0.25); EXPECT(near(l.membership(0), 6.75));''',
     'a coefficient below the tolerance and a large input', 'the coefficient is taken for zero')
RT = '''std::unique_ptr<Engine> r(FllImporter().fromString(FllExporter().toString(&e)));'''
seed('P18-colon-in-value', 'P18', [('src/imex/FllImporter.cpp', 'std::size_t half = text.find_first_of(separator);', 'std::size_t half = text.find_last_of(separator);')],
     '''Engine e("e"); e.addInputVariable(new InputVariable("a", 0, 1)); e.getInputVariable(0)->setDescription("speed: fast"); ''' + RT + '''EXPECT(r->getInputVariable(0)->getDescription() == "speed: fast");''',
     'a description that contains a colon', 'the import fails')
seed('P18-lock-range', 'P18', [('src/imex/FllImporter.cpp', '''            } else if ("lock-range" == keyValue.first) {
                outputVariable->setLockValueInRange(''', '''            } else if ("lock-range" == keyValue.first) {
                outputVariable->setLockPreviousValue(''')],
     '''Engine e("e"); OutputVariable* o = new OutputVariable("o", 0, 1); o->setLockValueInRange(true); e.addOutputVariable(o); ''' + RT + '''EXPECT(r->getOutputVariable(0)->isLockValueInRange()); EXPECT(not r->getOutputVariable(0)->isLockPreviousValue());''',
     'an output variable locked in its range', 'the flag is lost')
seed('P18-height-above-one', 'P18', [('src/term/Bell.cpp', '(not Op::isEq(getHeight(), 1.0) ? " " + Op::str(getHeight()) : "")', '(Op::isLt(getHeight(), 1.0) ? " " + Op::str(getHeight()) : "")')],
     '''Engine e("e"); InputVariable* v = new InputVariable("a", 0, 1); v->addTerm(new Bell("b", 0.5, 1, 2, 1.5)); e.addInputVariable(v); ''' + RT + '''EXPECT(near(r->getInputVariable(0)->getTerm(0)->getHeight(), 1.5));''',
     'a bell with a height above one', 'the height is lost')
seed('P18-unlocked-rule', 'P18', [('src/imex/FllImporter.cpp', '                } catch (std::exception& ex) { FL_LOG(ex.what()); }\n                ruleBlock->addRule(rule);', '                    ruleBlock->addRule(rule);\n                } catch (std::exception& ex) { FL_LOG(ex.what()); delete rule; }')],
     '''Engine e("e"); RuleBlock* b = new RuleBlock; b->setActivation(new General); Rule* q = new Rule; q->setText("if a is b then c is d"); b->addRule(q); e.addRuleBlock(b); ''' + RT + '''EXPECT(r->getRuleBlock(0)->numberOfRules() == 1);''',
     'a rule that cannot be loaded', 'the rule is dropped from the imported engine')
