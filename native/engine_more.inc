    } else if (k == "coll") {
        collection(is);
    } else if (k == "fld") {
        dataset(is);
    } else if (k == "fldrow") {
        datarow(is);
    } else if (k == "null") {
        is >> a;
        if (a == "in") eng()->addInputVariable(0);
        else if (a == "out") eng()->addOutputVariable(0);
        else if (a == "rb") eng()->addRuleBlock(0);
        else { is >> b; eng()->getRuleBlock(b)->addRule(0); }
        ok();
    } else if (k == "status") {
        std::string s;
        bool r = eng()->isReady(&s);
        std::printf("%d %d", r ? 1 : 0, s.empty() ? 1 : 0);
    } else if (k == "fac") {
        factoryCommand(is);
    } else if (k == "txt") {
        textCommand(is);
    } else if (k == "fun") {
        formulaCommand(is, engines.empty() ? 0 : eng());
    } else if (k == "rl") {
        ruleCommand(is, eng());
    } else if (k == "fl") {
        fllCommand(is);
    } else if (k == "own") {
        ownCommand();
    } else if (k == "copies") {
        copiesCommand();
