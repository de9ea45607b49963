P('P01', 'Parametric terms compute their documented membership function',
  'For every parametric linguistic term, every well-formed parameter vector (infinite values where the term supports them), every height in (0, 1] and every input, the membership degree equals height times the documented membership function, is NaN exactly for NaN inputs (a constant term answers its value for any input), and otherwise lies in [0, height] outside the tolerance band around breakpoints. Comparisons against breakpoints are tolerant to the library-wide machine epsilon.',
  ['inputs', 'configurations'], 'all well-formed parameter vectors, heights and inputs, including NaN and infinities',
  'The tests sample a fixed grid of inputs for one or two parameter vectors per term with height 1 or 0.5.',
  [S + 'term/Triangle.cpp', S + 'term/Trapezoid.cpp', S + 'term/PiShape.cpp', S + 'term/Bell.cpp', S + 'term/Ramp.cpp'],
  [('Term::membership and its overrides', 'src/term/*.cpp')], ['return value of membership()'],
  note='Every path of every membership body is proved equal to the documented function over extended reals (NaN and infinities exact; rounding not modelled); exp, cos, pow, sqrt, atan are uninterpreted with sign and monotonicity facts. A randomized execution of the same contract on the compiled code runs beside the proof.')

P('P02', 'Monotonic terms invert their membership function for Tsukamoto reasoning',
  'A term reports itself monotonic exactly when its documented shape is monotonic, and for every monotonic term, well-formed parameters and every activation degree strictly between zero and the height, the Tsukamoto value is the input at which the membership degree equals the activation degree. Asking for the Tsukamoto value of a term that is not monotonic is an error.',
  ['inputs', 'configurations'], 'all well-formed monotonic terms, heights and activation degrees',
  'The tests evaluate the inverse for one shape per term at a handful of degrees.',
  [S + 'term/Ramp.cpp', S + 'term/Concave.cpp', S + 'term/Sigmoid.cpp', S + 'term/SShape.cpp', S + 'term/ZShape.cpp', S + 'term/Term.cpp'],
  [('Term::tsukamoto and Term::isMonotonic overrides', 'src/term/*.cpp')], ['return values of tsukamoto(), membership(), isMonotonic()'],
  note='Proved for all parameters over extended reals; inverse pairs exp/log and sqrt/square are used through assumed facts about <cmath>.')

P('P03', 'T-norms compute their formula and satisfy the T-norm axioms',
  'For all pairs of degrees in [0, 1], each conjunction operator computes its documented formula. The result is commutative, monotone in each argument, has identity one and annihilator zero, never exceeds the smaller argument and stays in [0, 1], apart from the machine-epsilon tolerance of the operators defined by comparisons.',
  ['inputs'], 'all pairs of degrees in the unit square',
  'The tests evaluate each operator at a few points.',
  [S + 'norm/t/%s.cpp' % n for n in ('AlgebraicProduct', 'BoundedDifference', 'DrasticProduct', 'EinsteinProduct', 'HamacherProduct', 'Minimum', 'NilpotentMinimum')],
  [('TNorm::compute overrides', 'src/norm/t/*.cpp')], ['return value of compute()'],
  note='Formula and axioms discharged for all reals in the unit square (nonlinear real arithmetic).')

P('P04', 'S-norms compute their formula and satisfy the S-norm axioms',
  'For all pairs of degrees in [0, 1], each disjunction or aggregation operator computes its documented formula. The result is commutative, monotone in each argument, has identity zero, is never below the larger argument and, except for the operators documented as unbounded or normalized, has annihilator one and stays in [0, 1], apart from the machine-epsilon tolerance of the operators defined by comparisons.',
  ['inputs'], 'all pairs of degrees in the unit square',
  'The tests evaluate each operator at a few points.',
  [S + 'norm/s/%s.cpp' % n for n in ('AlgebraicSum', 'BoundedSum', 'DrasticSum', 'EinsteinSum', 'HamacherSum', 'Maximum', 'NilpotentMaximum', 'NormalizedSum', 'UnboundedSum')],
  [('SNorm::compute overrides', 'src/norm/s/*.cpp')], ['return value of compute()'],
  note='Formula and axioms discharged for all reals in the unit square (nonlinear real arithmetic).')

P('P05', 'Hedges compute their documented modifier and stay within degrees',
  'For every degree in [0, 1] each hedge returns its documented function of the degree, in [0, 1]: concentrations (very, extremely) stay ordered with respect to the identity, dilations and contrast functions (somewhat, seldom) keep their fixed points, the complement is an involution, and the any hedge always answers one. Hedges other than the complement are non-decreasing.',
  ['inputs'], 'all degrees in [0, 1]',
  'The tests evaluate each hedge at a few points.',
  [S + 'hedge/%s.cpp' % n for n in ('Any', 'Extremely', 'Not', 'Seldom', 'Somewhat', 'Very')],
  [('Hedge::hedge overrides', 'src/hedge/*.cpp')], ['return value of hedge()'],
  note='Formula, range and ordering discharged for all degrees; sqrt through its defining facts.')

P('P06', 'Numeric operations agree with their mathematical definitions',
  'For all arguments including NaN and infinities: the tolerant comparisons treat NaN as equal to NaN and values closer than the tolerance as equal, the orderings derive from that equality, min and max answer NaN when either argument is NaN, bounding keeps NaN, interval membership honours the openness of each end, linear scaling maps the source interval onto the target interval (clamped when requested), and rounding, logical, arithmetic and statistical helpers (sum, mean, variance, standard deviation, midpoints) return their defined value.',
  ['inputs'], 'all floating point arguments, all vectors of values',
  'The tests use a few arguments for some of these helpers.',
  ['fuzzylite/Operation.h'], [('Operation', 'fuzzylite/Operation.h')], ['return values of the operations'],
  note='Loop-free helpers by path-wise proof; sums over vectors by inferred loop invariants.')

P('P07', 'Integral defuzzifiers compute their documented value at any resolution',
  'For every term, every range and every resolution, the integral defuzzifiers evaluate the term at the midpoints of equal subintervals and return respectively the centre of mass, the mean of the points splitting the accumulated area closest to one half, and the first, last and mean of the points of maximum membership. They answer NaN when the range is not finite.',
  ['inputs', 'configurations'], 'all terms (any function), ranges and resolutions (unbounded loops)',
  'The tests defuzzify a few terms over fixed ranges and resolutions.',
  [S + 'defuzzifier/Centroid.cpp', S + 'defuzzifier/Bisector.cpp', S + 'defuzzifier/SmallestOfMaximum.cpp', S + 'defuzzifier/LargestOfMaximum.cpp', S + 'defuzzifier/MeanOfMaximum.cpp'],
  [('defuzzify', 'src/defuzzifier/*.cpp'), ('midpoints, mean', 'fuzzylite/Operation.h')], ['return value of defuzzify()'],
  note='Loops closed by inferred and checked inductive invariants for every resolution; the term is an arbitrary deterministic function.')

P('P08', 'Weighted defuzzifiers compute their documented value and infer the type',
  'For every fuzzy output, weighted average returns the degree-weighted mean of the values of the activated terms and weighted sum the degree-weighted sum, where activations of the same term are first combined with the aggregation operator, and the value of a term is its evaluation at the degree for Takagi-Sugeno terms and its inverse for Tsukamoto terms. Automatic inference selects Takagi-Sugeno for constant, linear and function terms and Tsukamoto when every activated term is monotonic and none is of the former kind; an empty fuzzy output defuzzifies to NaN, and a fuzzy output whose terms call for different types is an error.',
  ['inputs', 'configurations'], 'all lists of activated terms of any length, aggregation operators and inference types',
  'The tests use a few examples with two or three activated terms.',
  [S + 'defuzzifier/WeightedAverage.cpp', S + 'defuzzifier/WeightedSum.cpp', S + 'defuzzifier/WeightedDefuzzifier.cpp', S + 'term/Aggregated.cpp'],
  [('defuzzify', 'src/defuzzifier/Weighted*.cpp'), ('inferType', 'src/defuzzifier/WeightedDefuzzifier.cpp')], ['return value of defuzzify()'])

P('P09', 'Fuzzy outputs aggregate their activated terms faithfully',
  'For every list of activated terms, the membership of a fuzzy output is the aggregation, in order, of the implication of each activation degree and term membership; the activation degree of a term is the aggregation (or the sum, without an aggregation operator) of its occurrences. The grouped list has one entry per distinct term in order of first appearance, the maximally activated terms are those with the highest degree, and adding a term changes nothing else.',
  ['inputs', 'histories'], 'all sequences of activated terms, degrees, implication and aggregation operators',
  'The tests aggregate two or three terms.',
  [S + 'term/Aggregated.cpp', S + 'term/Activated.cpp'],
  [('Aggregated', 'src/term/Aggregated.cpp'), ('Activated', 'src/term/Activated.cpp')], ['membership, activation degrees and term lists of a fuzzy output'])

P('P10', 'Antecedents evaluate to the degree their expression denotes',
  'For every expression tree of propositions and connectives, the activation degree of the antecedent is obtained by applying the conjunction operator at each and, the disjunction operator at each or, and at each proposition the hedges from the innermost (nearest to the term) outwards to the membership of the variable value, or to the aggregated activation degree for output variables. Disabled variables contribute zero, a proposition ending in the any hedge contributes that hedge, and a missing operator or an incomplete expression is an error.',
  ['inputs', 'programs', 'configurations'], 'all expression trees, hedges, operators, variables and values',
  'The tests evaluate a few rules on example engines.',
  [S + 'rule/Antecedent.cpp', S + 'rule/Expression.cpp'], [('Antecedent::activationDegree', 'src/rule/Antecedent.cpp')], ['activation degree of a rule'])

P('P11', 'Rules activate with their weight and fire their conclusions',
  'Activating a rule multiplies the degree of its antecedent by its weight; firing an enabled, activated rule adds to the fuzzy output of each enabled output variable in its consequent, in order, the term of the conclusion with the activation degree modified by the hedges of that conclusion alone, and the given implication operator. A disabled rule, or a degree of zero, adds nothing, and a rule that is not loaded is an error.',
  ['inputs', 'programs', 'configurations'], 'all rules, weights, hedges, operators and degrees',
  'The tests use rules with single conclusions and few hedges.',
  [S + 'rule/Rule.cpp', S + 'rule/Consequent.cpp'], [('Rule::activateWith, Rule::trigger', 'src/rule/Rule.cpp'), ('Consequent::modify', 'src/rule/Consequent.cpp')],
  ['activated terms of output variables, triggered flag, activation degree'])

P('P12', 'Activation methods fire exactly the rules they document',
  'For every rule block (any number of rules, any degrees), each activation method deactivates every loaded rule, computes its degree and fires exactly: all rules (general); the first or last given number of rules whose degree is positive and reaches the threshold; the given number of rules with the highest or lowest positive degrees; the rules whose degree satisfies the threshold comparison; or all rules with degrees divided by their sum (proportional). Rules are fired in order and no other rule is triggered.',
  ['inputs', 'configurations'], 'all rule blocks, degrees, counts and thresholds (unbounded loops)',
  'The tests use small fixed rule blocks.',
  [S + 'activation/%s.cpp' % n for n in ('General', 'First', 'Last', 'Highest', 'Lowest', 'Proportional', 'Threshold')],
  [('activate', 'src/activation/*.cpp')], ['triggered flags and activation degrees of the rules, fuzzy outputs'])

P('P13', 'Output variables keep their previous, default and locked values straight',
  'Whenever an enabled output variable is defuzzified, its new value is the value its defuzzifier computes for its fuzzy output; if that is NaN, the previous value takes its place when the variable is locked to it, and if it is still NaN the default value does; the new value is clamped to the range when the variable is locked to it, and the previous value becomes the value held before. A missing defuzzifier is an error that leaves the value as it was. Clearing empties the fuzzy output and sets both values to NaN; defuzzifying a disabled variable leaves it as it was.',
  ['histories', 'inputs', 'configurations'], 'all histories of processing steps, values, flags and defuzzifiers',
  'The tests follow a few histories of two or three steps.',
  [S + 'variable/OutputVariable.cpp', S + 'variable/Variable.cpp'], [('OutputVariable::defuzzify, clear, setValue', 'src/variable/OutputVariable.cpp')],
  ['value and previous value of output variables'])

P('P14', 'Processing an engine runs the inference steps in order for every component',
  'Processing an engine clears the fuzzy output of every output variable, then activates every enabled rule block in order, then defuzzifies every output variable, so that the outputs depend on the current inputs, the configuration and the previous output values only. Restarting sets every input variable to NaN and clears every output variable.',
  ['histories', 'configurations', 'inputs'], 'all engines with any number of variables and rule blocks, all call histories',
  'The tests process example engines with one rule block.',
  [S + 'Engine.cpp'], [('Engine::process, Engine::restart', 'src/Engine.cpp'), ('RuleBlock::activate', 'src/rule/RuleBlock.cpp')], ['output values, fuzzy outputs'])

P('P15', 'Variables respect their range and find their most activated term',
  'For every variable, setting a value stores it, clamped to the range when range locking is on (NaN is kept); the range is kept as given; the term of highest membership for a value is the first one with the largest positive membership, reported with that degree, and fuzzification lists every term in order with its membership degree.',
  ['inputs', 'configurations'], 'all variables with any number of terms, all values and ranges',
  'The tests use variables with two or three terms.',
  [S + 'variable/Variable.cpp', S + 'variable/InputVariable.cpp'], [('Variable::setValue, highestMembership, fuzzify, activations', 'src/variable/Variable.cpp')],
  ['stored value, returned term and degree, fuzzified text'])

P('P16', 'Copies of engines and components are faithful and independent',
  'Cloning, copying or assigning an engine whose rules are loaded yields an engine with the same configuration and state (variables, terms, values, fuzzy outputs, operators, rules with their texts, weights and enabled flags) that processes, exports and observes the same from then on, owns all of its parts and refers to nothing of the original: changing, processing or destroying either one never affects the other, through any sequence of copies. Cloning, copying or assigning a component (term, norm, hedge, defuzzifier, activation method, variable, rule, rule block) yields a distinct object with the same fields whose owned parts are copies of its parts, and leaves the original as it was; copied rules and rule blocks are to be loaded. Assigning an object to itself changes nothing.',
  ['histories', 'configurations'], 'all engines and components, all later histories of both objects',
  'The tests clone a few terms and engines and compare their text.',
  [S + 'Engine.cpp', S + 'variable/Variable.cpp', S + 'variable/OutputVariable.cpp', S + 'rule/Rule.cpp', S + 'rule/RuleBlock.cpp', S + 'term/Function.cpp', S + 'term/Aggregated.cpp'],
  [('copy constructors, operator=, clone, copyFrom', 'src/**')], ['state of the copy and of the original'])

P('P17', 'Rule text is parsed into the rule it denotes or rejected',
  'For every engine and every text of the rule grammar (if antecedent then consequent with weight, keywords separated by white space), loading builds the antecedent whose connectives have the documented precedence (and before or) and associativity (left), honouring parentheses, with each proposition naming its variable, hedges and term, the consequent with its conclusions in order, and the weight (1 if there is none). Text that lacks a keyword, whose weight is missing or no number, or is followed by anything, whose parentheses do not match, whose propositions are incomplete or do not fit the number of connectives, or that names unknown variables, hedges or terms, is rejected with an error and leaves the rule unloaded.',
  ['programs', 'inputs'], 'all rule texts and engines',
  'The tests load a dozen rules and a dozen malformed texts.',
  [S + 'rule/Rule.cpp', S + 'rule/Antecedent.cpp', S + 'rule/Consequent.cpp', S + 'term/Function.cpp'],
  [('Rule::parse, Rule::load', 'src/rule/Rule.cpp'), ('Antecedent::load', 'src/rule/Antecedent.cpp'), ('Consequent::load', 'src/rule/Consequent.cpp'), ('Function::toPostfix', 'src/term/Function.cpp')],
  ['loaded antecedent and consequent, error'],
  note='The token grammars of Rule::load, Antecedent::load (postfix words to tree) and Consequent::load are proved for all texts as folds over the words. Function::toPostfix, which orders the connectives, has an assumed contract here and is checked by the search (bounded: random rules).')

P('P18', 'Engines survive an export and import through the FuzzyLite Language',
  'Exporting an engine to the FuzzyLite Language writes its name, descriptions, variables, terms, rule blocks and rules in order, with every parameter, operator and flag, and importing the text yields an engine with the same variables, terms, parameters (to the configured number of decimals), rules, operators and flags, where a rule block without activation method gets the general one. If the numbers have no more than the configured decimals, the imported engine exports to the same text and processes alike. Indentation, blank lines, comments and blanks around keys and values do not matter, and any separator of lines can be configured.',
  ['configurations', 'programs'], 'all engines and numbers of decimals',
  'The tests round-trip the bundled examples and a few terms.',
  [S + 'imex/FllExporter.cpp', S + 'imex/FllImporter.cpp', S + 'term/*.cpp', S + 'activation/*.cpp'], [('FllExporter::toString', 'src/imex/FllExporter.cpp'), ('FllImporter::fromString', 'src/imex/FllImporter.cpp'), ('parameters, configure', 'src/term/*.cpp, src/activation/*.cpp')],
  ['exported text'],
  note='Proved for all values: configure(parameters()) restores every term (Linear and Discrete of any length), activation method and defuzzifier, and exporting and importing norms, activation methods, defuzzifiers and flags yields an object of the same class with the same fields. The layout of whole engines (blocks, keys, lines, comments, separators) is checked by the search over random engines (bounded) and not counted as proved.')

P('P19', 'Formulas are parsed with the documented precedence and evaluated exactly',
  'For every formula built from numbers, variables, registered operators and registered functions (applied to parenthesised arguments), parsing honours precedence, associativity and parentheses, and evaluation returns the mathematical value of the expression, with each function and operator of the registry computing its documented meaning. The variables are x, the input and output variables of the engine (by name, with their current values) and the variables supplied. Empty formulas, mismatched parentheses, missing or left-over operands, and unknown variables are errors.',
  ['programs', 'inputs'], 'all formulas and variable values',
  'The tests evaluate a few dozen formulas.',
  [S + 'term/Function.cpp', S + 'factory/FunctionFactory.cpp'], [('Function::toPostfix, parse, Node::evaluate', 'src/term/Function.cpp'), ('registered operators and functions', 'src/factory/FunctionFactory.cpp')],
  ['value of the formula, error'],
  note='Node::evaluate (one node from its children), the registry (arity, precedence, associativity, meaning of every operator and function), Function::membership and Function::evaluate are proved for all inputs. Function::toPostfix and Function::parse are checked by the search (bounded: random formulas) and not counted as proved.')

P('P20', 'Discrete terms interpolate linearly between their sorted pairs',
  'For every discrete term with pairs sorted by abscissa and every input, the membership is height times the ordinate of the exact pair, the linear interpolation of the two surrounding pairs, or the ordinate of the first or last pair outside of their span. The input NaN yields NaN and a term without pairs is an error.',
  ['inputs', 'configurations'], 'all sorted lists of pairs and all inputs',
  'The tests evaluate a few discrete terms on a grid.',
  [S + 'term/Discrete.cpp'], [('Discrete::membership', 'src/term/Discrete.cpp')], ['return value of membership()'])

P('P21', 'An engine that reports itself ready can be processed',
  'For every engine assembled through the public interface, readiness is reported (with an empty status) exactly when the engine has input variables, output variables and rule blocks, none of them null; every output variable has terms, a defuzzifier and (for integral defuzzifiers) an aggregation operator; and every rule block has rules, none of them null, and every conjunction, disjunction and implication operator its rules need, however the text of the rules is laid out. Processing a ready engine whose weighted defuzzifiers suit its terms then raises no error whatever the inputs.',
  ['configurations', 'inputs', 'programs'], 'all engines and all inputs',
  'The tests check readiness of a few engines.',
  [S + 'Engine.cpp'], [('Engine::isReady', 'src/Engine.cpp')], ['readiness, absence of errors while processing'])

P('P22', 'The type of an engine is inferred from its defuzzifiers and terms',
  'For every engine, the inferred type is Larsen or Mamdani when all defuzzifiers are integral (Larsen when every implication is the algebraic product), Takagi-Sugeno, Tsukamoto or inverse Tsukamoto when all are weighted and their inferred types and terms say so, hybrid when integral and weighted ones are mixed, and unknown otherwise.',
  ['configurations'], 'all engines',
  'The tests infer the type of a few examples.',
  [S + 'Engine.cpp'], [('Engine::type', 'src/Engine.cpp')], ['returned type'])

P('P23', 'Factories construct exactly what is registered under a name',
  'For every factory and registered name, constructing yields a new object of the class registered last under that name, the empty name yields no object, a name that is not registered (or no longer) is an error, and registering or removing one name changes no other.',
  ['histories', 'inputs'], 'all sequences of registrations and all names',
  'The tests construct a few names.',
  ['fuzzylite/factory/ConstructionFactory.h', 'fuzzylite/factory/CloningFactory.h', S + 'factory/TermFactory.cpp', S + 'factory/DefuzzifierFactory.cpp', S + 'factory/HedgeFactory.cpp', S + 'factory/SNormFactory.cpp', S + 'factory/TNormFactory.cpp', S + 'factory/ActivationFactory.cpp'],
  [('ConstructionFactory, CloningFactory', 'fuzzylite/factory/*.h')], ['class of the constructed object, available names'])

P('P24', 'Collections of variables, terms and rules behave as ordered lists',
  'For engines, variables and rule blocks, after any sequence of additions, insertions and removals the collection holds exactly the items the corresponding list operations would leave, in order; look-up by name answers the first item of that name, and a name that is absent is an error for access and false for the existence test.',
  ['histories', 'inputs'], 'all sequences of collection operations',
  'The tests perform a few operations.',
  [S + 'Engine.cpp', S + 'variable/Variable.cpp', S + 'rule/RuleBlock.cpp'], [('add/insert/get/has/remove', 'src/Engine.cpp, src/variable/Variable.cpp, src/rule/RuleBlock.cpp')],
  ['order and identity of the items'])

P('P25', 'Dataset export visits every grid point once and reports the engine outputs',
  'Exporting an engine to a dataset writes one row per point of the grid: every combination of the evenly spaced values of each active input variable over its range, exactly once and in lexicographic order (last variable fastest), each row with the inputs and the outputs the engine computes for them. The number of values per variable is the requested number, or the largest whose power does not exceed the requested total. Exporting given rows of input values processes them one by one in the same way, skipping comments and keeping blank lines.',
  ['configurations', 'inputs'], 'all numbers of variables, values per variable and engines',
  'The tests compare a few rows of the examples.',
  [S + 'imex/FldExporter.cpp'], [('FldExporter::write', 'src/imex/FldExporter.cpp'), ('Operation::increment', 'fuzzylite/Operation.h')], ['rows of the dataset'])

P('P26', 'Text helpers split, join, trim and convert without loss',
  'For every text: splitting by a delimiter and joining with it gives back the text, trimming removes exactly the leading and trailing white space, replacing substitutes every occurrence of the searched text from left to right, and converting text to a number accepts exactly numeric text (with nan and infinities), returning its value or the alternative value given.',
  ['inputs'], 'all texts',
  'The tests use a few texts.',
  ['fuzzylite/Operation.h'], [('split, join, trim, findReplace, toScalar, isNumeric', 'fuzzylite/Operation.h')], ['returned texts and numbers'])

P('P27', 'Linear terms evaluate the linear combination of the inputs',
  'For every engine and list of coefficients, a linear term evaluates to the sum of each coefficient times the current value of the input variable of the same position, plus the constant when one more coefficient than variables is given; it is an error to have no engine, and copies keep the coefficients.',
  ['inputs', 'configurations'], 'all engines with any number of inputs, all coefficients and values',
  'The tests evaluate a few linear terms.',
  [S + 'term/Linear.cpp'], [('Linear::membership', 'src/term/Linear.cpp')], ['return value of membership()'])
