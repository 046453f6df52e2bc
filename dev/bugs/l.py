import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'
ONE = r'''
static Conf conf()
{
    Conf c;
    c.instances = "<FixedPointParameter Name='v' Size='8' Integral='3' Fractional='4' Mapping='Rec:v'/><IntegerParameter Name='i' Size='16' Signed='true' Mapping='Rec:i'/>";
    c.domains = "<ConfigurableDomain Name='d'><Configurations><Configuration Name='k'/></Configurations><ConfigurableElements>"
                "<ConfigurableElement Path='/test/test/v'/></ConfigurableElements><Settings><Configuration Name='k'><ConfigurableElement "
                "Path='/test/test/v'><FixedPointParameter Name='v'>0.5</FixedPointParameter></ConfigurableElement></Configuration>"
                "</Settings></ConfigurableDomain>";
    return c;
}
'''
plant('dump-hexadecimal-only-while-tuning', 'P21', [(P + 'ParameterMgr.cpp', '''    CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard,
                                                   _bValueSpaceIsRaw, _bOutputRawFormatIsHex);

    // Lock state''', '''    CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard,
                                                   _bValueSpaceIsRaw && _bTuningModeIsOn,
                                                   _bOutputRawFormatIsHex);

    // Lock state''')], 'an element dumped outside tuning mode in the raw value space', 'its values are shown as real ones', ONE + r'''
int main()
{
    Pf p(conf());
    p.up();
    CHECK(p.tune());
    CHECK(p.set("/test/test/i", "17"));
    p.setValueSpace(true);
    p.setOutputRawFormat(true);
    string a, b;
    CHECK(p.cmd("dumpElement", {"/test/test/i"}, &a));
    CHECK(a.find("0x0011") != string::npos);
    CHECK(p.tune(false));
    CHECK(p.cmd("dumpElement", {"/test/test/i"}, &b));
    CHECK(b.find("0x0011") != string::npos);
    p.setOutputRawFormat(false);
    CHECK(p.cmd("dumpElement", {"/test/test/i"}, &b));
    CHECK(b.find("17") != string::npos && b.find("0x") == string::npos);
}
''')
plant('configuration-value-raw-when-written-only', 'P21', [(P + 'ParameterMgr.cpp', '''        strError, pConfigurationBlackboard, _bValueSpaceIsRaw, _bOutputRawFormatIsHex, baseOffset);
''', '''        strError, pConfigurationBlackboard, _bValueSpaceIsRaw && !bIsLastApplied,
        _bOutputRawFormatIsHex, baseOffset);
''')], 'a value of the configuration last applied accessed in the raw value space', 'it is read and written as a real value', ONE + r'''
int main()
{
    Pf p(conf());
    p.up();
    CHECK(p.tune());
    string e;
    std::list<string> out;
    CHECK(p.getIn("d", "k", "/test/test/v").find("0.5") == 0);
    p.setValueSpace(true);
    CHECK(p.getIn("d", "k", "/test/test/v") == "8");
    CHECK(p.restoreConfiguration("d", "k", out));
    CHECK(p.getIn("d", "k", "/test/test/v") == "8");
    CHECK(p.setIn("d", "k", "/test/test/v", "2"));
    p.setValueSpace(false);
    CHECK(p.getIn("d", "k", "/test/test/v").find("0.125") == 0);
    CHECK(p.get("/test/test/v").find("0.125") == 0);
}
''')
