import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'
TWO = r'''
static Conf conf()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/><IntegerParameter Name='b' Size='8' Mapping='Rec:b'/>";
    return c;
}
'''
plant('rename-to-a-name-without-contents', 'P36', [(P + 'Element.cpp', '''            if (pParentChild != this && pParentChild->getName() == strName) {
''', '''            if (pParentChild != this && pParentChild->getNbChildren() >= getNbChildren() &&
                pParentChild->getName() == strName) {
''')], 'a domain with configurations renamed to the name of one that has fewer', 'two domains bear the same name', '#include "pfdemo.h"' + TWO + r'''
int main()
{
    Pf p(conf());
    p.up();
    CHECK(p.tune());
    CHECK(p.createDomain("D", p.err));
    CHECK(p.createDomain("E", p.err));
    CHECK(!p.renameDomain("D", "E", p.err));
    CHECK(p.createConfiguration("D", "C", p.err));
    CHECK(!p.renameDomain("D", "E", p.err));
    CHECK(!p.renameDomain("E", "D", p.err));
    CHECK(p.renameDomain("D", "F", p.err));
    CHECK(p.createConfiguration("E", "C", p.err));
}
''')
plant('empty-domain-replaced-unasked', 'P36', [(P + 'ConfigurableDomains.cpp', '''        if (!bOverwrite) {
''', '''        if (!bOverwrite && pExistingDomain->getNbChildren() != 0) {
''')], 'a domain imported under the name of one without configurations, not asking to overwrite', 'the existing domain, with its elements, is silently replaced',
      '#include "pfdemo.h"' + TWO + r'''
int main()
{
    Pf p(conf());
    p.up();
    CHECK(p.tune());
    string xml, list;
    CHECK(p.createDomain("D", p.err));
    CHECK(p.createConfiguration("D", "C", p.err));
    CHECK(p.exportSingleDomainXml(xml, "D", true, false, p.err));
    CHECK(!p.importSingleDomainXml(xml, false, true, false, p.err));
    CHECK(p.deleteConfiguration("D", "C", p.err));
    CHECK(p.addConfigurableElementToDomain("D", "/test/test/a", p.err));
    CHECK(!p.importSingleDomainXml(xml, false, true, false, p.err));
    CHECK(!p.restoreConfiguration("D", "C", *std::unique_ptr<std::list<string>>(new std::list<string>)));
    CHECK(p.importSingleDomainXml(xml, true, true, false, p.err));
}
''')
plant('current-configuration-of-sequence-not-saved', 'P36', [(P + 'ConfigurableDomain.cpp', '''    // Delegate
    pDomainConfiguration->save(pMainBlackboard);

    return true;
''', '''    // The last applied configuration of a sequence is the one being tuned
    if (!_bSequenceAware || pDomainConfiguration != _pLastAppliedConfiguration) {
        // Delegate
        pDomainConfiguration->save(pMainBlackboard);
    }

    return true;
''')], 'the configuration last restored of a sequence-aware domain saved again', 'the save is reported done and nothing was saved', '#include "pfdemo.h"' + TWO + r'''
int main()
{
    Pf p(conf());
    p.up();
    CHECK(p.tune());
    std::list<string> out;
    CHECK(p.createDomain("D", p.err));
    CHECK(p.addConfigurableElementToDomain("D", "/test/test/a", p.err));
    CHECK(p.setSequenceAwareness("D", true, p.err));
    CHECK(p.createConfiguration("D", "C", p.err));
    CHECK(p.createConfiguration("D", "K", p.err));
    CHECK(p.set("/test/test/a", "3"));
    CHECK(p.saveConfiguration("D", "C", p.err));
    CHECK(p.set("/test/test/a", "5"));
    CHECK(p.restoreConfiguration("D", "C", out));
    CHECK(p.get("/test/test/a") == "3");
    CHECK(p.set("/test/test/a", "7"));
    CHECK(p.saveConfiguration("D", "C", p.err));
    CHECK(p.set("/test/test/a", "1"));
    CHECK(p.restoreConfiguration("D", "C", out));
    CHECK(p.get("/test/test/a") == "7");
}
''')
