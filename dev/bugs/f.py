import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'
plant('rogue-when-one-child-free', 'P22', [(P + 'ConfigurableElement.cpp', '''    // Check only one element found which ought to be current one
    return (rogueElementList.size() == 1) && (rogueElementList.front() == this);
''', '''    // Check only one element found
    return rogueElementList.size() == 1;
''')], 'a block without a domain exactly one of whose children belongs to none', 'a handle to the block sets values that a domain controls', r'''
int main()
{
    Conf c;
    c.components = "<ComponentType Name='B'><IntegerParameter Name='a' Size='8' Mapping='Rec:a'/><IntegerParameter Name='b' Size='8' Mapping='Rec:b'/></ComponentType>";
    c.instances = "<Component Name='blk' Type='B'/>";
    c.domains = "<ConfigurableDomain Name='D'><Configurations><Configuration Name='C'><CompoundRule Type='All'/></Configuration></Configurations>"
                "<ConfigurableElements><ConfigurableElement Path='/test/test/blk/a'/></ConfigurableElements>"
                "<Settings><Configuration Name='C'><ConfigurableElement Path='/test/test/blk/a'><IntegerParameter Name='a'>5</IntegerParameter>"
                "</ConfigurableElement></Configuration></Settings></ConfigurableDomain>";
    Pf p(c);
    p.up();
    p.applyConfigurations();
    CHECK(p.get("/test/test/blk/a") == "5");
    std::unique_ptr<ElementHandle> h(p.createElementHandle("/test/test/blk", p.err));
    CHECK(h);
    CHECK(!h->isRogue());
    CHECK(!h->setAsBytes({1, 2}, p.err));
    CHECK(p.get("/test/test/blk/a") == "5");
}
''')
plant('longer-array-accepted', 'P22', [(P + 'ElementHandle.cpp', '''    if (arrayLength && (arrayLength != getArrayLength())) {
''', '''    if (arrayLength && (arrayLength < getArrayLength())) {
''')], 'an array longer than that of the parameter', 'the set is accepted and the surplus dropped', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' ArrayLength='3' Mapping='Rec:a'/>";
    Pf p(c);
    p.up();
    std::unique_ptr<ElementHandle> h(p.createElementHandle("/test/test/a", p.err));
    CHECK(h);
    CHECK(h->setAsIntegerArray({1, 2, 3}, p.err));
    CHECK(!h->setAsIntegerArray({4, 5}, p.err));
    CHECK(!h->setAsIntegerArray({4, 5, 6, 7, 8}, p.err));
    vector<uint32_t> v;
    CHECK(h->getAsIntegerArray(v, p.err) && v == vector<uint32_t>({1, 2, 3}));
}
''')
plant('enum-empty-literal-silent', 'P09', [(P + 'EnumParameterType.cpp', '''            parameterAccessContext.setError("Provided value '" + strValue +
                                            "' is not part of the lexical space"
                                            " or not within the numerical range.");
''', '''            if (!strValue.empty()) {

                parameterAccessContext.setError("Provided value '" + strValue +
                                                "' is not part of the lexical space"
                                                " or not within the numerical range.");
            }
''')], 'an empty text given to an enumeration', 'the refusal carries no reason', r'''
int main()
{
    Conf c;
    c.instances = "<EnumParameter Name='a' Size='8' Mapping='Rec:a'><ValuePair Literal='one' Numerical='1'/></EnumParameter>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    std::unique_ptr<ElementHandle> unused;
    p.err.clear();
    CHECK(!p.set("/test/test/a", "two") && !p.err.empty());
    std::cerr << p.err << std::endl;
    p.err.clear();
    CHECK(!p.set("/test/test/a", ""));
    CHECK(p.err.find("value") != string::npos);
}
''')
plant('repeated-sequence-element-silent', 'P09', [(P + 'ConfigurableDomain.cpp', '''    // Delegate to configuration
    return pDomainConfiguration->setElementSequence(astrNewElementSequence, strError);
''', '''    // Delegate to configuration
    string strSequenceError;

    if (!pDomainConfiguration->setElementSequence(astrNewElementSequence, strSequenceError)) {

        // Tell which configuration is concerned
        if (strSequenceError.find("not found") != string::npos) {

            strError = strConfiguration + ": " + strSequenceError;
        }
        return false;
    }
    return true;
''')], 'an element given twice in a sequence', 'the refusal carries no reason', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/><IntegerParameter Name='b' Size='8' Mapping='Rec:b'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    string out;
    CHECK(p.createDomain("D", p.err));
    CHECK(p.addConfigurableElementToDomain("D", "/test/test/a", p.err));
    CHECK(p.addConfigurableElementToDomain("D", "/test/test/b", p.err));
    CHECK(p.createConfiguration("D", "C", p.err));
    p.err.clear();
    CHECK(!p.setElementSequence("D", "C", {"/test/test/a", "/test/test/c"}, p.err));
    CHECK(!p.err.empty());
    p.err.clear();
    CHECK(!p.setElementSequence("D", "C", {"/test/test/b", "/test/test/b"}, p.err));
    CHECK(!p.err.empty());
}
''')
