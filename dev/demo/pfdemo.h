// Small fixture: writes a configuration in $DEMO_TMP and drives the framework through its public connector.
#pragma once
#include "rec.h"
#include <ElementHandle.h>
#include <ParameterMgrFullConnector.h>
#include <SelectionCriterionInterface.h>
#include <SelectionCriterionTypeInterface.h>
#include <CommandHandlerInterface.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#define CHECK(c)                                                                                   \
    do {                                                                                           \
        if (!(c)) {                                                                                \
            std::cerr << __FILE__ << ":" << __LINE__ << ": not true: " #c << std::endl;            \
            std::_Exit(1);                                                                         \
        }                                                                                          \
    } while (0)
using std::string;
using std::vector;
inline string tmp(const string &n) { return string(getenv("DEMO_TMP")) + "/" + n; }
inline string put(const string &n, const string &text)
{
    std::ofstream(tmp(n)) << text;
    return tmp(n);
}
inline string slurp(const string &path)
{
    std::ifstream f(path);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
struct Conf
{
    string instances, domains, components, mapping, type = "REC", extra;
    string tuning = "true", settings = "true", root = "";
};
inline string writeConf(const Conf &c)
{
    string s = put("structure.xml", "<?xml version='1.0' encoding='UTF-8'?><SystemClass Name='test'><Subsystem Name='test' "
                                    "Type='" + c.type + "' Mapping='" + c.mapping + "'><ComponentLibrary>" + c.components +
                                    "</ComponentLibrary><InstanceDefinition>" + c.instances +
                                    "</InstanceDefinition></Subsystem>" + c.extra + "</SystemClass>");
    string d = put("domains.xml", "<?xml version='1.0' encoding='UTF-8'?><ConfigurableDomains SystemClassName='test'>" +
                                      c.domains + "</ConfigurableDomains>");
    return put("config.xml", "<?xml version='1.0' encoding='UTF-8'?><ParameterFrameworkConfiguration "
                             "SystemClassName='test' TuningAllowed='" + c.tuning + "'" + c.root + "><SubsystemPlugins><Location "
                             "Folder='" + string(getenv("DEMO_TMP")) + "'><Plugin Name='librec.so'/></Location>"
                             "</SubsystemPlugins><StructureDescriptionFileLocation Path='" + s + "'/>" +
                             (c.settings == "true" ? "<SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + d +
                                                         "'/></SettingsConfiguration>"
                                                   : string()) +
                             "</ParameterFrameworkConfiguration>");
}
struct Log : CParameterMgrPlatformConnector::ILogger
{
    void info(const string &s) override
    {
        if (getenv("DEMO_VERBOSE")) std::cerr << "I: " << s << std::endl;
        text += s + "\n";
    }
    void warning(const string &s) override
    {
        if (getenv("DEMO_VERBOSE")) std::cerr << "W: " << s << std::endl;
        text += s + "\n";
    }
    string text;
};
struct Pf : CParameterMgrFullConnector
{
    explicit Pf(const Conf &c) : CParameterMgrFullConnector(writeConf(c))
    {
        setForceNoRemoteInterface(true);
        setLogger(&log);
    }
    void up()
    {
        string e;
        if (!start(e)) {
            std::cerr << "start: " << e << std::endl;
            std::_Exit(1);
        }
    }
    bool tune(bool on = true)
    {
        string e;
        return setTuningMode(on, e);
    }
    bool set(const string &path, string v)
    {
        return accessParameterValue(path, v, true, err);
    }
    string get(const string &path)
    {
        string v, e;
        return accessParameterValue(path, v, false, e) ? v : "<" + e + ">";
    }
    bool setIn(const string &d, const string &c, const string &path, string v)
    {
        return accessConfigurationValue(d, c, path, v, true, err);
    }
    string getIn(const string &d, const string &c, const string &path)
    {
        string v, e;
        return accessConfigurationValue(d, c, path, v, false, e) ? v : "<" + e + ">";
    }
    bool cmd(const string &name, const vector<string> &args, string *out = nullptr)
    {
        std::unique_ptr<CommandHandlerInterface> h(createCommandHandler());
        string o;
        bool r = h->process(name, args, o);
        if (out) *out = o;
        return r;
    }
    string err;
    Log log;
};
