R='remote-processor/'; M=R+'Message.cpp'
t('readstring',[(M,'''    std::vector<char> content(uiSize);

    if (!readData(content.data(), uiSize)) {
        return false;
    }

    // Output
    strData.assign(begin(content), end(content));
    return true;
''','''    string content(uiSize, '\\0');

    if (uiSize != 0 && !readData(&content[0], uiSize)) {
        return false;
    }

    strData = content;
    return true;
''')])
t('readstring2',[(M,'''    // Output
    strData.assign(begin(content), end(content));
''','''    strData = string(content.data(), uiSize);
''')])
t('rangefor',[(R+'RequestMessage.cpp','''    for (size_t argument = 0; argument < getArgumentCount(); argument++) {

        writeString(getArgument(argument));
    }''','''    for (const auto &argument : _argumentVector) {
        writeString(argument);
    }'''),(R+'RequestMessage.cpp','''    for (size_t uiArgument = 0; uiArgument < getArgumentCount(); uiArgument++) {

        uiSize += getStringSize(getArgument(uiArgument));
    }
    return uiSize;''','''    for (const auto &argument : getArguments()) {
        uiSize = uiSize + getStringSize(argument);
    }
    return uiSize;''')])
t('accumulate',[(R+'RequestMessage.cpp','''    size_t uiSize = getStringSize(getCommand());
''','''    const size_t commandSize = getStringSize(getCommand());
'''),(R+'RequestMessage.cpp','''    for (size_t uiArgument = 0; uiArgument < getArgumentCount(); uiArgument++) {

        uiSize += getStringSize(getArgument(uiArgument));
    }
    return uiSize;''','''    return std::accumulate(begin(_argumentVector), end(_argumentVector), commandSize,
                           [this](size_t size, const string &argument) { return size + getStringSize(argument); });'''),
 (R+'RequestMessage.cpp','#include <algorithm>','#include <algorithm>\n#include <numeric>')])
t('server',[(R+'RemoteProcessorServer.cpp','''        switch (res) {
        case CRequestMessage::error:
            std::cout << "Error while receiving message: " << strError << std::endl;
        // fall through
        case CRequestMessage::peerDisconnected:
            // Consider peer disconnection as normal, no log
            return; // Bail out
        case CRequestMessage::success:
            break; // No error, continue
        }

        // Actually process the request
        bool bSuccess;

        string strResult;

        bSuccess = commandHandler.remoteCommandProcess(requestMessage, strResult);
''','''        if (res != CRequestMessage::success) {
            if (res == CRequestMessage::error) {
                std::cout << "Error while receiving message: " << strError << std::endl;
            }
            return;
        }
        string strResult;
        const bool bSuccess = commandHandler.remoteCommandProcess(requestMessage, strResult);
''')])
t('trim',[(R+'RequestMessage.cpp','''    // Trim string
    string strTrimmed = strToTrim;

    strTrimmed.erase(strTrimmed.find_last_not_of(gacDelimiters) + 1);

    strTrimmed.erase(0, strTrimmed.find_first_not_of(gacDelimiters));

    return strTrimmed;''','''    const auto first = strToTrim.find_first_not_of(gacDelimiters);
    if (first == string::npos) {
        return "";
    }
    return strToTrim.substr(first, strToTrim.find_last_not_of(gacDelimiters) - first + 1);''')])
s=open('/repo/'+M).read()
a=s.index('    if (bOut) {\n'); b=s.index('    } else {\n        // First read'); c=s.index('        // First read'); d=s.index('    }\n\n    return success;\n}\n')
out=s[a+len('    if (bOut) {\n'):b]; inn=s[c:d]
whole=s[a:d+len('    }\n\n    return success;\n}\n')]
t('split',[(M,s[s.index('// Send/Receive\n'):s.index('CMessage::Result CMessage::serialize')]+'CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strError)\n{\n    asio::ip::tcp::socket &asioSocket = socket.get();\n\n'+whole,
'''CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strError)
{
    return bOut ? sendOn(socket, strError) : receiveFrom(socket, strError);
}

CMessage::Result CMessage::sendOn(Socket &socket, string &strError)
{
    asio::ip::tcp::socket &asioSocket = socket.get();
'''+out+'''    return success;
}

CMessage::Result CMessage::receiveFrom(Socket &socket, string &strError)
{
    asio::ip::tcp::socket &asioSocket = socket.get();
'''+inn+'''    return success;
}
'''),(R+'Message.h','    bool isValidAccess(','    Result sendOn(Socket &socket, std::string &strError);\n    Result receiveFrom(Socket &socket, std::string &strError);\n    bool isValidAccess(')])
t('valid',[(R+'BackgroundRemoteProcessorServer.cpp','''    return mServerSuccess.valid() && mServerSuccess.get();''','''    if (!mServerSuccess.valid()) {
        return false;
    }
    return mServerSuccess.get();''')])
t('memcpy',[(M,'''    auto first = begin(mData) + _uiIndex;
    auto last = first + size;
    auto destFirst = MAKE_ARRAY_ITERATOR(static_cast<uint8_t *>(pvData), size);

    std::copy(first, last, destFirst);
''','''    std::copy_n(&mData[_uiIndex], size, static_cast<uint8_t *>(pvData));
'''),(M,'''    if (!isValidAccess(_uiIndex, size)) {
        return false;
    }
''','''    if (size > mData.size() - _uiIndex) {
        return false;
    }
''')])
t('checksum',[(M,'''    return accumulate(begin(mData), end(mData), static_cast<uint8_t>(_ucMsgId));''','''    uint8_t sum = static_cast<uint8_t>(_ucMsgId);
    for (uint8_t byte : mData) {
        sum = static_cast<uint8_t>(sum + byte);
    }
    return sum;''')])
t('client',[('remote-process/main.cpp','''    for (int arg = 4; arg < argc; arg++) {

        requestMessage.addArgument(argv[arg]);
    }
''','''    const int firstArgument = 4;
    for (int arg = firstArgument; arg != argc; ++arg) {
        const string argument = argv[arg];
        requestMessage.addArgument(argument);
    }
'''),('remote-process/main.cpp','''    if (!sendAndDisplayCommand(connectionSocket, requestMessage)) {
        return 1;
    }

    // Program status
    return 0;''','''    return sendAndDisplayCommand(connectionSocket, requestMessage) ? 0 : 1;''')])
