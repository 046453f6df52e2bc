import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
R = 'remote-processor/'
NET = r'''
#include <RequestMessage.h>
#include <AnswerMessage.h>
#include <BackgroundRemoteProcessorServer.h>
#include <RemoteCommandHandler.h>
#include <RemoteCommand.h>
#include <Socket.h>
#include <asio.hpp>
struct Keep : IRemoteCommandHandler
{
    bool remoteCommandProcess(const IRemoteCommand &c, string &result) override
    {
        last.assign(1, c.getCommand());
        for (auto &a : c.getArguments()) last.push_back(a);
        ++calls;
        result = reply;
        return c.getCommand() != "fail";
    }
    vector<string> last;
    int calls = 0;
    string reply = "reply";
};
struct Net
{
    Net() : keep(new Keep)
    {
        for (port = 20000 + getpid() % 20000; port < 65000; ++port) {
            std::unique_ptr<IRemoteCommandHandler> h(keep);
            server.reset(new BackgroundRemoteProcessorServer(port, std::move(h)));
            string e;
            if (server->start(e)) return;
            // an unstarted server is not safe to destroy everywhere
            server.release();
            keep = new Keep;
        }
        std::_Exit(77);
    }
    asio::ip::tcp::socket connect()
    {
        asio::ip::tcp::socket s(io);
        s.connect(asio::ip::tcp::endpoint(asio::ip::address_v6::loopback(), port));
        return s;
    }
    Keep *keep;
    asio::io_service io;
    std::unique_ptr<BackgroundRemoteProcessorServer> server;
    uint16_t port;
};
'''
plant('long-string-length-truncated', 'P17', [(R + 'Message.cpp', '''    uint32_t size = static_cast<uint32_t>(strData.length());

    writeData(&size, sizeof(size));

    // Content
    writeData(strData.c_str(), size);
''', '''    uint32_t size = static_cast<uint16_t>(strData.length());

    writeData(&size, sizeof(size));

    // Content
    writeData(strData.c_str(), strData.length());
''')], 'a string of 65536 characters or more', 'the receiver refuses the message or takes the end of the string for something else', NET + r'''
int main()
{
    Net n;
    auto s = n.connect();
    CRequestMessage q("cmd");
    q.addArgument("x");
    n.keep->reply = string(70000, 'r');
    string e;
    CHECK(q.serialize(Socket(s), true, e) == CMessage::success);
    CAnswerMessage a;
    CHECK(a.serialize(Socket(s), false, e) == CMessage::success);
    CHECK(a.success() && a.getAnswer() == n.keep->reply);
    std::_Exit(0);
}
''')

plant('checksum-without-message-kind', 'P17', [(R + 'Message.cpp', '''    return accumulate(begin(mData), end(mData), static_cast<uint8_t>(_ucMsgId));
''', '''    return accumulate(begin(mData), end(mData), static_cast<uint8_t>(0));
''')], 'the byte that holds the kind of a message is corrupted on its way', 'the message is accepted: a failure is taken for a success', NET + r'''
int main()
{
    Net n;
    asio::ip::tcp::acceptor acc(n.io, asio::ip::tcp::endpoint(asio::ip::address_v6::loopback(), 0));
    asio::ip::tcp::socket a(n.io), b(n.io), c(n.io), d(n.io);
    a.connect(acc.local_endpoint());
    acc.accept(b);
    c.connect(acc.local_endpoint());
    acc.accept(d);
    // a -> b, corrupted between b and c, c -> d
    CAnswerMessage sent("it did not work", false);
    string e;
    CHECK(sent.serialize(Socket(a), true, e) == CMessage::success);
    vector<unsigned char> raw(2 + 4 + 1 + 4 + 15 + 1);
    CHECK(asio::read(b, asio::buffer(raw)) == raw.size());
    unsigned char good = raw[6];
    raw[6] = 1;
    asio::write(c, asio::buffer(raw));
    CAnswerMessage got;
    CHECK(got.serialize(Socket(d), false, e) != CMessage::success);
    raw[6] = good;
    asio::write(c, asio::buffer(raw));
    CAnswerMessage again;
    CHECK(again.serialize(Socket(d), false, e) == CMessage::success);
    CHECK(!again.success() && again.getAnswer() == "it did not work");
    std::_Exit(0);
}
''')

