import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'
DOM = r'''
static string dom(const string &rule = "", const string &more = "")
{
    return "<ConfigurableDomain Name='d'><Configurations><Configuration Name='c'>" + rule + "</Configuration>" + more +
           "</Configurations><ConfigurableElements><ConfigurableElement Path='/test/test/v'/></ConfigurableElements>"
           "<Settings><Configuration Name='c'><ConfigurableElement Path='/test/test/v'><FixedPointParameter Name='v'>0.5"
           "</FixedPointParameter></ConfigurableElement></Configuration></Settings></ConfigurableDomain>";
}
static Conf conf(const string &domain)
{
    Conf c;
    c.instances = "<FixedPointParameter Name='v' Size='8' Integral='3' Fractional='4'/>";
    c.domains = domain;
    return c;
}
'''
plant('raw-hexadecimal-settings-exported-real', 'P18', [(P + 'DomainConfiguration.cpp', '''    configurationAccessContext.setValueSpaceRaw(context.valueSpaceIsRaw());
    configurationAccessContext.setOutputRawFormat(context.outputRawFormatIsHex());

    // Have domain configuration parse settings for configurable element
    bool success = areaConfiguration->serializeXmlSettings(
        xmlConfigurableElementSettingsElementContent, configurationAccessContext);

    context.appendToError(error);
    return success;
''', '''    configurationAccessContext.setOutputRawFormat(context.outputRawFormatIsHex());
    configurationAccessContext.setValueSpaceRaw(context.valueSpaceIsRaw() &&
                                                !context.outputRawFormatIsHex());

    // Have domain configuration parse settings for configurable element
    bool success = areaConfiguration->serializeXmlSettings(
        xmlConfigurableElementSettingsElementContent, configurationAccessContext);

    context.appendToError(error);
    return success;
''')], 'domains exported with their settings while the raw value space and the hexadecimal format are both in force',
      'the settings are written as real values', DOM + r'''
int main()
{
    Pf p(conf(dom()));
    p.up();
    CHECK(p.tune());
    auto value = [&] {
        string x, e;
        CHECK(p.exportDomainsXml(x, true, false, e));
        size_t i = x.find("<FixedPointParameter ");
        CHECK(i != string::npos);
        i = x.find('>', i) + 1;
        return x.substr(i, x.find('<', i) - i);
    };
    CHECK(value().find("0.5") == 0);
    p.setValueSpace(true);
    CHECK(value() == "8");
    p.setOutputRawFormat(true);
    CHECK(value() == "0x08");
    p.setValueSpace(false);
    CHECK(value().find("0.5") == 0);
}
''')
plant('export-to-a-full-device-reported-done', 'P18', [(P + 'ParameterMgr.cpp', '''        bool status = serializeElement(output, context, element);
        output.close(); // Explicit close to detect errors

        return status;
''', '''        return serializeElement(output, context, element);
''')], 'domains exported to a file on a device that is full (the data reach the device when the file is closed)',
      'the export is reported as done', DOM + r'''
int main()
{
    Pf p(conf(dom()));
    p.up();
    CHECK(p.tune());
    string e, full = "/dev/full", good = tmp("out.xml");
    CHECK(p.exportDomainsXml(good, true, true, e));
    CHECK(slurp(good).find("</ConfigurableDomains>") != string::npos);
    CHECK(!p.exportDomainsXml(full, true, true, e));
    CHECK(!e.empty());
}
''')
