import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'
plant('settings-policy-loosened-while-running', 'P34', [(P + 'ParameterMgrPlatformConnector.cpp', '''    if (_bStarted) {

        strError = "Can not set failure on failed settings load policy while running";
''', '''    if (_bStarted && bFail && !getFailureOnFailedSettingsLoad()) {

        strError = "Can not set failure on failed settings load policy while running";
''')], 'the settings policy set to its value, or loosened, once started', 'the policy is accepted and changed while running', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    for (bool initial : {true, false}) {
        Pf p(c);
        string e;
        CHECK(p.CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(initial, e));
        p.up();
        for (bool asked : {true, false}) {
            e = "";
            CHECK(!p.CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(asked, e));
            CHECK(!e.empty());
            CHECK(p.getFailureOnFailedSettingsLoad() == initial);
        }
    }
}
''')
plant('warnings-not-indented', 'P34', [(P + 'log/include/log/LogWrapper.h', '''                mLogger.warning(mProlog + mLog.str());
''', '''                mLogger.warning(mLog.str());
''')], 'a warning given inside a log context', 'the line lacks the indentation of its context', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    p.log.text = "";
    p.applyConfigurations();
    size_t at = p.log.text.find("Configurations were not applied");
    CHECK(at != string::npos);
    CHECK(at >= 5 && p.log.text.substr(at - 5, 5) == "\n    ");
}
''')
plant('failed-settings-leave-domains', 'P35', [(P + 'ParameterMgr.cpp', '''    if (!memorySink.process(docSource, elementSerializingContext)) {
        clean();
        return false;
    }

    return true;
''', '''    return memorySink.process(docSource, elementSerializingContext);
''')], 'a settings file whose second domain is wrong, failed settings loads being tolerated', 'the framework goes on with the domains read so far', r'''
static string domain(const string &name, const string &path)
{
    return "<ConfigurableDomain Name='" + name + "'><Configurations><Configuration Name='C'><CompoundRule Type='All'/></Configuration></Configurations>"
           "<ConfigurableElements><ConfigurableElement Path='" + path + "'/></ConfigurableElements>"
           "<Settings><Configuration Name='C'><ConfigurableElement Path='" + path + "'><IntegerParameter Name='a'>5</IntegerParameter>"
           "</ConfigurableElement></Configuration></Settings></ConfigurableDomain>";
}
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    c.domains = domain("good", "/test/test/a") + domain("bad", "/test/test/none");
    {
        Pf p(c);
        string e;
        CHECK(p.CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(true, e));
        CHECK(!p.start(e));
    }
    Pf p(c);
    string e;
    CHECK(p.CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(false, e));
    p.up();
    p.applyConfigurations();
    string out;
    CHECK(p.cmd("listDomains", {}, &out));
    CHECK(out.find("good") == string::npos && out.find("bad") == string::npos);
    CHECK(p.get("/test/test/a") == "0");
}
''')
plant('plugins-not-retried', 'P35', [(P + 'SystemClass.cpp', '''        // Attempt to load the complete list
        if (!loadPlugins(lstrPluginFiles, errors)) {
''', '''        // Attempt to load the complete list
        if (!loadPlugins(lstrPluginFiles, errors) || !errors.empty()) {
''')], 'a plugin listed before another one it needs', 'the start fails though all plugins could be loaded', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    string config = writeConf(c);
    string src = put("needs.cpp", "#include <stdexcept>\n#include <cstdlib>\nclass L; namespace core { namespace log { class Logger; } }\n"
                                  "extern \"C\" void ParameterFrameworkPluginEntryPointMagicV1(L *, core::log::Logger &)\n"
                                  "{ if (!std::getenv(\"NEEDED\")) throw std::runtime_error(\"too early\"); }\n");
    put("needed.cpp", "#include <cstdlib>\nclass L; namespace core { namespace log { class Logger; } }\n"
                      "extern \"C\" void ParameterFrameworkPluginEntryPointMagicV1(L *, core::log::Logger &)\n"
                      "{ setenv(\"NEEDED\", \"1\", 1); }\n");
    for (string n : {"needs", "needed"}) {
        CHECK(!std::system(("g++ -shared -fPIC -o " + tmp("lib" + n + ".so") + " " + tmp(n + ".cpp")).c_str()));
    }
    (void)src;
    string text = slurp(config), plug = "<Plugin Name='librec.so'/>";
    CHECK(text.find(plug) != string::npos);
    text.replace(text.find(plug), plug.size(), "<Plugin Name='libneeds.so'/>" + plug + "<Plugin Name='libneeded.so'/>");
    CParameterMgrFullConnector p(put("config2.xml", text));
    p.setForceNoRemoteInterface(true);
    string e;
    bool ok = p.start(e);
    if (!ok) std::cerr << e << std::endl;
    CHECK(ok);
}
''')
