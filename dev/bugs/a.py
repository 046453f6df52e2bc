import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
INT = '<IntegerParameter Name="%s" Size="32" Mapping="Rec:%s"/>'
TWO = "R\"(" + INT % ('a', 'a') + INT % ('b', 'b') + ")\""
DOMF = r'''
static string dom(const string &name, const string &confs, const vector<string> &els, const string &settings, bool seq = false)
{
    string s = "<ConfigurableDomain Name='" + name + "' SequenceAware='" + (seq ? "true" : "false") + "'><Configurations>" +
               confs + "</Configurations><ConfigurableElements>";
    for (auto &e : els) s += "<ConfigurableElement Path='/test/test/" + e + "'/>";
    return s + "</ConfigurableElements><Settings>" + settings + "</Settings></ConfigurableDomain>";
}
static string conf(const string &name, const string &rule = "<CompoundRule Type='All'/>")
{
    return "<Configuration Name='" + name + "'>" + rule + "</Configuration>";
}
static string set(const string &conf, const vector<std::pair<string, string>> &v)
{
    string s = "<Configuration Name='" + conf + "'>";
    for (auto &e : v)
        s += "<ConfigurableElement Path='/test/test/" + e.first + "'><IntegerParameter Name='" + e.first + "'>" + e.second +
             "</IntegerParameter></ConfigurableElement>";
    return s + "</Configuration>";
}
static string ints(const vector<string> &names)
{
    string s;
    for (auto &n : names) s += "<IntegerParameter Name='" + n + "' Size='32' Mapping='Rec:" + n + "'/>";
    return s;
}
'''
M = 'parameter/ParameterMgr.cpp'

plant('split-ungated-without-autosync', 'P01', [(M, '''    // Check tuning mode
    if (!checkTuningModeOn(strError)) {

        warning() << "Fail:" << strError;
        return false;
    }

    CElementLocator elementLocator(getSystemClass());

    CElement *pLocatedElement = nullptr;

    if (!elementLocator.locate(strConfigurableElementPath, &pLocatedElement, strError)) {

        warning() << "Fail: " << strError;
        return false;
    }

    // Convert element
    CConfigurableElement *pConfigurableElement =
        static_cast<CConfigurableElement *>(pLocatedElement);

    // Delegate
    core::Results infos;
    bool isSuccess = getConfigurableDomains()->split(''', '''    CElementLocator elementLocator(getSystemClass());

    CElement *pLocatedElement = nullptr;

    if (!elementLocator.locate(strConfigurableElementPath, &pLocatedElement, strError)) {

        warning() << "Fail: " << strError;
        return false;
    }

    // Convert element
    CConfigurableElement *pConfigurableElement =
        static_cast<CConfigurableElement *>(pLocatedElement);

    // Check tuning mode
    if (_bAutoSyncOn && !checkTuningModeOn(strError)) {

        warning() << "Fail:" << strError;
        return false;
    }

    // Delegate
    core::Results infos;
    bool isSuccess = getConfigurableDomains()->split(''')],
      'automatic synchronisation switched off, tuning mode off, then a split request',
      'a domain is split although tuning mode is off', DOMF + r'''
int main()
{
    Conf c;
    c.components = "<ComponentType Name='T'>" + ints({"a"}) + "</ComponentType>";
    c.instances = "<Component Name='c' Type='T'/>";
    c.domains = "<ConfigurableDomain Name='D'><Configurations>" + conf("C") +
                "</Configurations><ConfigurableElements><ConfigurableElement Path='/test/test/c'/></ConfigurableElements>"
                "</ConfigurableDomain>";
    Pf p(c);
    p.up();
    string e;
    CHECK(!p.split("D", "/test/test/c", e));
    CHECK(p.setAutoSync(false, e));
    CHECK(!p.split("D", "/test/test/c", e));
    CHECK(p.tune());
    CHECK(p.split("D", "/test/test/c", e));
}
''')

plant('apply-in-tuning-without-autosync', 'P02', [(M, '''    if (!_bTuningModeIsOn) {
''', '''    // Without automatic synchronisation the hardware is left alone: applying is harmless
    if (!_bTuningModeIsOn || !_bAutoSyncOn) {
''')],
      'an application request during a tuning session with auto-sync off, after a criterion changed',
      'values being tuned are overwritten by an automatic application', DOMF + r'''
int main()
{
    Conf c;
    c.instances = ints({"a"});
    c.domains = dom("D", conf("C", "<CompoundRule Type='All'><SelectionCriterionRule SelectionCriterion='Mode' "
                                   "MatchesWhen='Is' Value='on'/></CompoundRule>"),
                    {"a"}, set("C", {{"a", "7"}}));
    Pf p(c);
    string e;
    auto t = p.createSelectionCriterionType(false);
    CHECK(t->addValuePair(0, "off", e) && t->addValuePair(1, "on", e));
    auto crit = p.createSelectionCriterion("Mode", t);
    p.up();
    for (int autosync = 0; autosync < 2; autosync++) {
        CHECK(p.tune());
        p.setAutoSync(autosync, e);
        CHECK(p.set("/test/test/a", "9"));
        crit->setCriterionState(1);
        p.applyConfigurations();
        CHECK(p.get("/test/test/a") == "9");
        CHECK(p.tune(false));
        CHECK(p.get("/test/test/a") == "7");
        crit->setCriterionState(0);
        p.applyConfigurations();
    }
}
''')

plant('conf-access-base-of-leaf', 'P05', [('parameter/ConfigurableDomain.cpp',
      '''            baseOffset = pAssociatedConfigurableElement->getOffset();''',
      '''            baseOffset = pCandidateDescendantConfigurableElement->getOffset();''')],
      'access by configuration path to a parameter that is not the first one of the element owned by the domain',
      'the value goes to the start of the saved block, over another parameter', DOMF + r'''
int main()
{
    Conf c;
    c.components = "<ComponentType Name='T'><IntegerParameter Name='x' Size='8' ArrayLength='4' Mapping='Rec:x'/>"
                   "<IntegerParameter Name='pad' Size='8' ArrayLength='16' Mapping='Rec:p'/></ComponentType>";
    c.instances = "<IntegerParameter Name='a' Size='32' Mapping='Rec:a'/><Component Name='c' Type='T'/>";
    c.domains = "<ConfigurableDomain Name='D'><Configurations>" + conf("C") +
                "</Configurations><ConfigurableElements><ConfigurableElement Path='/test/test/c'/></ConfigurableElements>"
                "</ConfigurableDomain>";
    Pf p(c);
    p.up();
    CHECK(p.setIn("D", "C", "/test/test/c/x", "1 2 3 4"));
    CHECK(p.setIn("D", "C", "/test/test/c/pad", "5"));
    CHECK(p.getIn("D", "C", "/test/test/c/x") == "1 2 3 4");
}
''')

plant('array-count-only-from-first', 'P06', [('parameter/ArrayParameter.cpp',
      '''    if (nbValues + uiStartIndex > getArrayLength()) {''',
      '''    if (nbValues > getArrayLength() || (uiStartIndex && !nbValues)) {''')],
      'several values given from an item other than the first', 'values are written behind the end of the array', DOMF + r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='x' Size='8' ArrayLength='3' Mapping='Rec:x'/>"
                  "<IntegerParameter Name='y' Size='8' Mapping='Rec:y'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    CHECK(p.set("/test/test/x/1", "1 2"));
    CHECK(!p.set("/test/test/x/1", "1 2 3"));
    CHECK(p.get("/test/test/y") == "0");
}
''')

plant('xml-settings-sync-lost-error', 'P07', [(M, '''    if (_bAutoSyncOn) {
        CSyncerSet syncerSet;
        static_cast<CConfigurableElement *>(configurableElement)->fillSyncerSet(syncerSet);
        core::Results errors;
        if (not syncerSet.sync(*_pMainParameterBlackboard, false, &errors)) {
            error = utility::asString(errors);

            return false;
        }
    }
    return true;
}

CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::getElementXML''', '''    if (_bAutoSyncOn) {
        CSyncerSet syncerSet;
        static_cast<CConfigurableElement *>(configurableElement)->fillSyncerSet(syncerSet);
        core::Results errors;
        syncerSet.sync(*_pMainParameterBlackboard, false, &errors);
        error = utility::asString(errors);
    }
    return true;
}

CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::getElementXML''')],
      'hardware refusing the transmission of settings given as XML', 'the request reports success', DOMF + r'''
int main()
{
    Conf c;
    c.instances = ints({"a"});
    Pf p(c);
    p.up();
    CHECK(p.tune());
    string xml;
    CHECK(p.cmd("getElementXML", {"/test/test/a"}, &xml));
    CHECK(p.cmd("setElementXML", {"/test/test/a", xml}));
    rec().fail["a"] = "hardware off";
    CHECK(!p.cmd("setElementXML", {"/test/test/a", xml}));
}
''')

plant('sync-reports-last-syncer', 'P08', [('parameter/SyncerSet.cpp', '''        if (!pSyncer->sync(parameterBlackboard, bBack, strError)) {

            if (errors != nullptr) {

                errors->push_back(strError);
            }
            bSuccess = false;
        }
''', '''        bSuccess = pSyncer->sync(parameterBlackboard, bBack, strError);

        if (!bSuccess && errors != nullptr) {

            errors->push_back(strError);
        }
''')], 'several syncers of which one, not the last one, fails', 'the synchronisation reports success', DOMF + r'''
int main()
{
    Conf c;
    c.instances = ints({"a", "b", "c"});
    Pf p(c);
    p.up();
    CHECK(p.tune());
    string e;
    for (auto n : {"a", "b", "c"}) {
        rec().fail.clear();
        rec().fail[n] = "broken";
        CHECK(p.setAutoSync(false, e));
        CHECK(!p.setAutoSync(true, e));
    }
    rec().fail.clear();
    CHECK(p.setAutoSync(true, e));
}
''')

plant('sync-after-sequence-aware', 'P10', [('parameter/ConfigurableDomains.cpp', '''    // Synchronize those collected syncers
    syncerSet.sync(*pParameterBlackboard, false, nullptr);

    // Then deal''', '''    // Then deal'''), ('parameter/ConfigurableDomains.cpp', '''nullptr, bForce, info);
        if (!info.empty()) {
            infos.push_back(info);
        }
    }
''', '''nullptr, bForce, info);
        if (!info.empty()) {
            infos.push_back(info);
        }
    }
    // Synchronize the collected syncers
    syncerSet.sync(*pParameterBlackboard, false, nullptr);
''')], 'a sequence-aware and a sequence-unaware domain both changing in one application',
      'the sequence-aware domain reaches the hardware before the others', DOMF + r'''
int main()
{
    Conf c;
    c.instances = ints({"a", "b"});
    c.domains = dom("S", conf("C"), {"a"}, set("C", {{"a", "7"}}), true) + dom("U", conf("C"), {"b"}, set("C", {{"b", "8"}}));
    Pf p(c);
    rec().log.clear();
    p.up();
    int sa = -1, sb = -1, i = 0;
    CHECK(p.tune());
    rec().log.clear();
    CHECK(p.tune(false)); // forced application
    for (auto &s : rec().log) {
        if (s.name == "a" && sa < 0) sa = i;
        if (s.name == "b" && sb < 0) sb = i;
        i++;
    }
    CHECK(sa >= 0 && sb >= 0 && sb < sa);
}
''')

plant('stale-last-applied-on-delete', 'P12', [('parameter/ConfigurableDomain.cpp', '''    // Was the last applied?
    if (pDomainConfiguration == _pLastAppliedConfiguration) {
''', '''    // Was the last applied and may still be compared with?
    if (pDomainConfiguration == _pLastAppliedConfiguration && getNbChildren() > 1) {
''')], 'the only configuration of a domain, last applied, is deleted', 'the record dangles; it is used later', DOMF + r'''
int main()
{
    Conf c;
    c.instances = ints({"a"});
    c.domains = dom("D", conf("C"), {"a"}, set("C", {{"a", "7"}}));
    Pf p(c);
    p.up();
    CHECK(p.tune());
    string e;
    CHECK(p.deleteConfiguration("D", "C", e));
    string out;
    CHECK(p.cmd("status", {}, &out));
    CHECK(out.find("<none>") != string::npos);
}
''')
