import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
B = 'bindings/c/ParameterFramework.cpp'
C = r'''
#include <ParameterFramework.h>
static string conf()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    c.extra = "";
    return writeConf(c);
}
static void quiet(void *, PfwLogLevel, const char *) {}
static PfwLogger logger = {nullptr, quiet};
'''
plant('parameter-success-keeps-text', 'P23', [(B, '''        if (success) {
            mMsg.clear();
        }
        return success;
''', '''        return success or failure();
''')], 'a refused parameter access followed by one that succeeds', 'the last error still tells of the refused one', C + r'''
int main()
{
    const char *values[] = {"on", "off", nullptr};
    PfwCriterion criteria[] = {{"mode", false, values}};
    PfwHandler *h = pfwCreate();
    if (!pfwStart(h, conf().c_str(), criteria, 1, &logger)) {
        std::cerr << pfwGetLastError(h) << std::endl;
        return 1;
    }
    PfwParameterHandler *a = pfwBindParameter(h, "/test/test/a");
    CHECK(a);
    int32_t v = 0;
    CHECK(!pfwSetStringParameter(a, "1000"));
    CHECK(*pfwGetLastError(h));
    CHECK(pfwSetStringParameter(a, "3"));
    CHECK(!*pfwGetLastError(h));
    char *s = nullptr;
    CHECK(pfwGetStringParameter(a, &s) && string(s) == "3");
    pfwFree(s);
    (void)v;
    pfwUnbindParameter(a);
    pfwDestroy(h);
}
''')

plant('empty-string-handed-out-as-null', 'P23', [(B, """    *value = strdup(retValue.c_str());
""", """    *value = retValue.empty() ? nullptr : strdup(retValue.c_str());
""")], 'a string parameter whose value is empty', 'the caller gets no string from a successful get', r"""
#include <ParameterFramework.h>
static void quiet(void *, PfwLogLevel, const char *) {}
static PfwLogger logger = {nullptr, quiet};
int main()
{
    Conf c;
    c.instances = "<StringParameter Name='a' MaxLength='8' Mapping='Rec:a'/>";
    c.extra = "";
    const char *values[] = {"on", "off", nullptr};
    PfwCriterion criteria[] = {{"mode", false, values}};
    PfwHandler *h = pfwCreate();
    if (!pfwStart(h, writeConf(c).c_str(), criteria, 1, &logger)) {
        std::cerr << pfwGetLastError(h) << std::endl;
        return 1;
    }
    PfwParameterHandler *a = pfwBindParameter(h, "/test/test/a");
    CHECK(a);
    for (string text : {"", "x", ""}) {
        CHECK(pfwSetStringParameter(a, text.c_str()));
        char *s = nullptr;
        CHECK(pfwGetStringParameter(a, &s));
        CHECK(s && text == s);
        pfwFree(s);
    }
    pfwUnbindParameter(a);
    pfwDestroy(h);
    return 0;
}
""")
