import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/a.py').read().split("plant('split-ungated")[0])
COMP = r'''
static Conf comp(const string &elements, const string &domains = "")
{
    Conf c;
    c.components = "<ComponentType Name='T'>" + elements + "</ComponentType>";
    c.instances = "<Component Name='c' Type='T' Mapping='Rec:c'/>";
    c.domains = domains;
    return c;
}
static string on(const string &path, const string &confs = conf("C"))
{
    return "<ConfigurableDomain Name='D'><Configurations>" + confs + "</Configurations><ConfigurableElements>"
           "<ConfigurableElement Path='" + path + "'/></ConfigurableElements></ConfigurableDomain>";
}
'''
def P(n, *a):
    return "<IntegerParameter Name='%s' Size='32'%s/>" % (n, a[0] if a else '')

plant('xml-settings-parsed-before-lock', 'P03', [(M, '''    // Lock state
    lock_guard<mutex> autoLock(getBlackboardMutex());

    CConfigurationAccessContext configContext(error, _pMainParameterBlackboard, _bValueSpaceIsRaw,
                                              _bOutputRawFormatIsHex, false);
''', '''    CConfigurationAccessContext configContext(error, _pMainParameterBlackboard, _bValueSpaceIsRaw,
                                              _bOutputRawFormatIsHex, false);
'''), (M, '''        return false;
    }
    if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                     EParameterConfigurationLibrary, false)) {
        return false;
    }
''', '''        return false;
    }
    if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                     EParameterConfigurationLibrary, false)) {
        return false;
    }
    // Lock state
    lock_guard<mutex> autoLock(getBlackboardMutex());

''')], 'settings given as XML by one thread while another transmits to the hardware',
      'the settings change while they are transmitted', DOMF + COMP + r'''
#include <thread>
static Pf *pf;
static string xml;
static std::thread other;
static void during()
{
    other = std::thread([] { pf->cmd("setElementXML", {"/test/test/c", xml}); });
    std::this_thread::sleep_for(std::chrono::milliseconds(500));
}
int main()
{
    Pf p(comp("%s"));
    pf = &p;
    p.up();
    CHECK(p.tune());
    CHECK(p.set("/test/test/c/a", "5"));
    CHECK(p.cmd("getElementXML", {"/test/test/c"}, &xml));
    CHECK(p.set("/test/test/c/a", "6"));
    rec().log.clear();
    rec().during = during;
    CHECK(p.set("/test/test/c/b", "1"));
    other.join();
    CHECK(rec().log.size() == 2);
    CHECK(rec().log[0].bytes[0] == 6 && rec().log[0].bytes[4] == 1);
    CHECK(p.get("/test/test/c/a") == "5" && p.get("/test/test/c/b") == "0");
}
''' % (P('a') + P('b')))

plant('bounds-check-underflow', 'P04', [('parameter/ParameterBlackboard.cpp',
  '''    ALWAYS_ASSERT(offset + size <= getSize(),''', '''    // Written this way so that the sum can not overflow
    ALWAYS_ASSERT(size <= getSize() - offset,''')], 'an offset beyond the end of the storage',
      'memory behind the storage is written', r'''
#include <sys/wait.h>
#include <unistd.h>
#include "ParameterBlackboard.cpp"
template <class F> static bool stopped(F f)
{
    pid_t pid = fork();
    if (!pid) {
        std::freopen("/dev/null", "w", stderr);
        CParameterBlackboard b;
        b.setSize(16);
        f(b);
        std::_Exit(0);
    }
    int s;
    waitpid(pid, &s, 0);
    return WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT;
}
int main()
{
    static uint32_t v = 0x01020304;
    CHECK(!stopped([](CParameterBlackboard &b) { b.writeInteger(&v, 4, 12); }));
    CHECK(stopped([](CParameterBlackboard &b) { b.writeInteger(&v, 4, 13); }));
    CHECK(stopped([](CParameterBlackboard &b) { b.writeInteger(&v, 4, 16); }));
    CHECK(stopped([](CParameterBlackboard &b) { b.readInteger(&v, 4, 18); }));
    CHECK(stopped([](CParameterBlackboard &b) { b.writeString("abc", 24); }));
}
''')

plant('merged-area-left-in-configurations', 'P11', [('parameter/ConfigurableDomain.cpp', '''        pDomainConfiguration->removeConfigurableElement(pConfigurableElement);
    }
    // Recompute our sync set if needed
    if (bRecomputeSyncSet) {

        computeSyncSet();
    }''', '''        // The area of an element merged into an ascendant goes with it
        if (bRecomputeSyncSet || uiChild == 0) {

            pDomainConfiguration->removeConfigurableElement(pConfigurableElement);
        }
    }
    // Recompute our sync set if needed
    if (bRecomputeSyncSet) {

        computeSyncSet();
    }''')], 'an element split or merged in a domain with several configurations',
      'configurations other than the first keep an area for an element that left the domain', DOMF + COMP + r'''
int main()
{
    Pf p(comp("%s", on("/test/test/c", conf("C") + conf("E"))));
    p.up();
    CHECK(p.tune());
    string e, s;
    CHECK(p.split("D", "/test/test/c", e));
    CHECK(p.cmd("getElementSequence", {"D", "C"}, &s));
    string t;
    CHECK(p.cmd("getElementSequence", {"D", "E"}, &t));
    CHECK(s == t);
}
''' % (P('a') + P('b')))

plant('validation-stops-at-first-valid', 'P13', [('parameter/DomainConfiguration.cpp', '''    for (auto &areaConfiguration : mAreaConfigurationList) {
        areaConfiguration->validate(pMainBlackboard);
    }''', '''    for (auto &areaConfiguration : mAreaConfigurationList) {
        // Settings are either all provided or all missing
        if (areaConfiguration->isValid()) {
            break;
        }
        areaConfiguration->validate(pMainBlackboard);
    }''')], 'a domain imported with settings for its first element only', 'the area of the other element is used although it was never filled',
      DOMF + r'''
int main()
{
    Conf c;
    c.instances = ints({"a", "b"});
    Pf p(c);
    p.up();
    CHECK(p.tune());
    CHECK(p.set("/test/test/b", "6"));
    string e;
    CHECK(p.importDomainsXml("<?xml version='1.0' encoding='UTF-8'?><ConfigurableDomains SystemClassName='test'>" +
                             dom("D", conf("C"), {"a", "b"}, set("C", {{"a", "7"}})) + "</ConfigurableDomains>", true, false, e));
    CHECK(p.getIn("D", "C", "/test/test/a") == "7");
    CHECK(p.getIn("D", "C", "/test/test/b") == "6");
    std::list<string> r;
    CHECK(p.restoreConfiguration("D", "C", r));
}
''')

CRIT = r'''
struct Crit
{
    explicit Crit(Pf &p, bool inclusive = true)
    {
        string e;
        auto t = p.createSelectionCriterionType(inclusive);
        CHECK(t->addValuePair(1, "x", e) && t->addValuePair(2, "y", e) && t->addValuePair(4, "z", e));
        c = p.createSelectionCriterion("K", t);
    }
    ISelectionCriterionInterface *c;
};
static string rule(const string &when, const string &v)
{
    return "<CompoundRule Type='All'><SelectionCriterionRule SelectionCriterion='K' MatchesWhen='" + when + "' Value='" + v +
           "'/></CompoundRule>";
}
'''
plant('excludes-is-not-includes', 'P14', [('parameter/SelectionCriterion.cpp', '''    return (_iState & iState) == 0;
''', '''    return !includes(iState);
''')], 'a rule that excludes two values while one of them is set', 'the configuration is applied although its rule does not hold',
      DOMF + CRIT + r'''
int main()
{
    Conf c;
    c.instances = ints({"a"});
    c.domains = dom("D", conf("C", rule("Excludes", "x|y")) + conf("E"), {"a"},
                    set("C", {{"a", "7"}}) + set("E", {{"a", "8"}}));
    Pf p(c);
    Crit k(p);
    p.up();
    for (int s = 0; s < 8; s++) {
        k.c->setCriterionState(s);
        p.applyConfigurations();
        CHECK(p.get("/test/test/a") == ((s & 3) ? "8" : "7"));
    }
}
''')

plant('criterion-count-saturates', 'P15', [('parameter/SelectionCriterion.cpp', '''                              << " time(s) without any configuration application";
        }

        // Track the number of modifications for this criterion
        _uiNbModifications++;
''', '''                              << " time(s) without any configuration application";
        } else {

            // Track the number of modifications for this criterion
            _uiNbModifications++;
        }
''')], 'a criterion changed three times between two applications', 'the count of modifications stays at one', CRIT + r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='32'/>";
    Pf p(c);
    Crit k(p);
    p.up();
    p.applyConfigurations();
    for (int s : {1, 2, 4, 1}) k.c->setCriterionState(s);
    for (int n : {1, 2, 3}) CHECK(p.log.text.find("has been modified " + std::to_string(n) + " time(s)") != string::npos);
    CHECK(p.log.text.find("has been modified 4 time(s)") == string::npos);
}
''')

plant('whole-block-bit-mask', 'P30', [('parameter/BitParameterType.cpp',
  '''    return (uint64_t)-1L >> (8 * sizeof(uint64_t) - _uiBitSize);''', '''    return (uint64_t(1) << _uiBitSize) - 1;''')],
      'a bit parameter as wide as a 64 bit block', 'its mask and maximum are zero', r'''
int main()
{
    Conf c;
    c.instances = "<BitParameterBlock Name='b' Size='64' Mapping='Rec:b'><BitParameter Name='w' Pos='0' Size='64'/></BitParameterBlock>"
                  "<BitParameterBlock Name='h' Size='64' Mapping='Rec:h'><BitParameter Name='l' Pos='0' Size='33'/><BitParameter Name='m' "
                  "Pos='33' Size='31'/></BitParameterBlock>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    CHECK(p.set("/test/test/h/l", "8589934591") && p.set("/test/test/h/m", "5"));
    CHECK(p.get("/test/test/h/l") == "8589934591" && p.get("/test/test/h/m") == "5");
    CHECK(p.set("/test/test/b/w", "18446744073709551615"));
    CHECK(p.get("/test/test/b/w") == "18446744073709551615");
}
''')

plant('array-index-one-too-far', 'P31', [('parameter/ArrayParameter.cpp', '''        if (index >= getArrayLength()) {''',
 '''        if (index > getArrayLength()) {''')], 'the item just behind the end of an array is read',
      'the value of the next element is returned', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='32' ArrayLength='3'/><IntegerParameter Name='b' Size='32'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    p.setAutoSync(false, p.err);
    CHECK(p.set("/test/test/a/2", "4") && p.get("/test/test/a/2") == "4");
    CHECK(p.get("/test/test/a/3")[0] == '<');
    CHECK(!p.set("/test/test/a/3", "4"));
}
''')

plant('adapted-value-truncated-before-range', 'P32', [('parameter/IntegerParameterType.h',
  '''        int64_t iConvertedValue = pParameterAdaption->fromUserValue(dUserValue);
''', '''        CType iConvertedValue = static_cast<CType>(pParameterAdaption->fromUserValue(dUserValue));
''')], 'a number beyond the size of an integer parameter with an adaptation, given by a client',
      'the number is accepted and another one is stored', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Signed='false' Min='0' Max='200' Mapping='Rec:a'><LinearAdaptation/></IntegerParameter>";
    Pf p(c);
    p.up();
    std::unique_ptr<ElementHandle> h(p.createElementHandle("/test/test/a", p.err));
    CHECK(h);
    double d;
    for (double v : {0., 7., 200., 201., 255., 256., 300., 70000., -1., -256.}) {
        bool ok = v >= 0 && v <= 200;
        CHECK(h->setAsDouble(v, p.err) == ok);
        CHECK(h->getAsDouble(d, p.err));
        CHECK(!ok || d == v);
    }
}
''')
