import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'
plant('nameless-root-accepted', 'P19', [('xmlserializer/XmlDocSource.cpp', '''        if (!_strRootElementName.empty() && strRootElementNameCheck != _strRootElementName) {
''', '''        if (!_strRootElementName.empty() && !strRootElementNameCheck.empty() &&
            strRootElementNameCheck != _strRootElementName) {
''')], 'a domains document whose root does not say which system it is for', 'it is accepted and its domains loaded', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    string body = "<ConfigurableDomain Name='D'><Configurations><Configuration Name='C'><CompoundRule Type='All'/></Configuration></Configurations>"
                  "<ConfigurableElements><ConfigurableElement Path='/test/test/a'/></ConfigurableElements></ConfigurableDomain></ConfigurableDomains>";
    string out;
    for (string root : {"<ConfigurableDomains>", "<ConfigurableDomains SystemClassName=''>", "<ConfigurableDomains SystemClassName='other'>"}) {
        CHECK(!p.cmd("setDomainsWithSettingsXML", {root + body}, &out));
        CHECK(p.cmd("listDomains", {}, &out));
        CHECK(out.find("D") == string::npos);
    }
}
''')
plant('validation-without-schema', 'P19', [('xmlserializer/XmlDocSource.cpp', '''        // Unable to load Schema
        return false;
''', '''        // No schema: nothing to validate against
        return true;
''')], 'validation asked for and a schema that is not there', 'documents are accepted without having been validated', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    Pf p(c);
    string e;
    p.setSchemaUri(tmp("no-schemas-here"));
    p.CParameterMgrFullConnector::setValidateSchemasOnStart(true);
    CHECK(!p.start(e));
    CHECK(!e.empty());
}
''')
plant('byte-read-raises', 'P20', [(P + 'ParameterMgr.cpp', '''            if (!convertTo(input, byte)) {
                throw std::domain_error("Some values out of byte range");
            }

            return byte;
''', '''            if (input.find_first_of("xX") == std::string::npos && std::stoul(input) > 0xFF) {
                throw std::domain_error("Some values out of byte range");
            }
            if (!convertTo(input, byte)) {
                throw std::domain_error("Some values out of byte range");
            }

            return byte;
''')], 'setElementBytes given something else than a number', 'the host process ends', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    string out;
    CHECK(p.cmd("setElementBytes", {"/test/test/a", "7"}, &out));
    for (string bad : {"300", "", "-", "99999999999999999999999999", "ten"}) {
        CHECK(!p.cmd("setElementBytes", {"/test/test/a", bad}, &out));
        CHECK(!out.empty());
    }
    CHECK(p.get("/test/test/a") == "7");
}
''')
plant('plugin-exception-of-another-kind', 'P20', [(P + 'SystemClass.cpp', '''        } catch (std::exception &e) {
            errors.push_back(e.what());
''', '''        } catch (std::runtime_error &e) {
            errors.push_back(e.what());
''')], 'a plugin whose entry point raises a logic error', 'the start ends the host process', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='8' Mapping='Rec:a'/>";
    string config = writeConf(c);
    put("odd.cpp", "#include <stdexcept>\nclass L; namespace core { namespace log { class Logger; } }\n"
                   "extern \"C\" void ParameterFrameworkPluginEntryPointMagicV1(L *, core::log::Logger &)\n"
                   "{ throw std::out_of_range(\"odd\"); }\n");
    CHECK(!std::system(("g++ -shared -fPIC -o " + tmp("libodd.so") + " " + tmp("odd.cpp")).c_str()));
    string text = slurp(config), plug = "<Plugin Name='librec.so'/>";
    CHECK(text.find(plug) != string::npos);
    text.replace(text.find(plug), plug.size(), plug + "<Plugin Name='libodd.so'/>");
    CParameterMgrFullConnector p(put("config2.xml", text));
    p.setForceNoRemoteInterface(true);
    string e;
    CHECK(!p.start(e));
    CHECK(e.find("odd") != string::npos);
}
''')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py")).read().split("plant(")[0])
plant('peer-named-in-the-error', 'P20', [('remote-processor/RemoteProcessorServer.cpp', '''            std::cout << "Error while receiving message: " << strError << std::endl;
        // fall through
''', '''            std::cout << "Error while receiving message from " << _socket.remote_endpoint() << ": "
                      << strError << std::endl;
        // fall through
''')], 'a client that resets its connection in the middle of a message', 'the thread of the server ends, no client is served any more', NET + r'''
#include <thread>
#include <csignal>
static void end(int) { std::_Exit(1); }
int main()
{
    std::signal(SIGALRM, end);
    std::signal(SIGABRT, end);
    alarm(20);
    Net n;
    {
        auto s = n.connect();
        const unsigned char part[3] = {0xBE, 0xBA, 1};
        asio::write(s, asio::buffer(part));
        std::this_thread::sleep_for(std::chrono::milliseconds(300));
        s.set_option(asio::socket_base::linger(true, 0));
        s.close();
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    auto s = n.connect();
    CRequestMessage req("hello");
    string e;
    CHECK(req.serialize(Socket(s), true, e) == CMessage::success);
    CAnswerMessage a;
    CHECK(a.serialize(Socket(s), false, e) == CMessage::success);
    CHECK(a.success());
    std::_Exit(0);
}
''')
