M=P+'ParameterMgr.cpp'; R='remote-processor/RemoteCommandHandlerTemplate.h'
t('onoff',[(M,'''    if (remoteCommand.getArgument(0) == "on") {

        if (setTuningMode(true, strResult)) {

            return CCommandHandler::EDone;
        }
    } else if (remoteCommand.getArgument(0) == "off") {

        if (setTuningMode(false, strResult)) {

            return CCommandHandler::EDone;
        }
    } else {
        // Show usage
        return CCommandHandler::EShowUsage;
    }
    return CCommandHandler::EFailed;
''','''    const string &word = remoteCommand.getArgument(0);
    bool on = (word == "on");
    if (!on && word != "off") {
        return CCommandHandler::EShowUsage;
    }
    return setTuningMode(on, strResult) ? CCommandHandler::EDone : CCommandHandler::EFailed;
''')])
t('helper',[(M,'''CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::createDomainCommandProcess(
    const IRemoteCommand &remoteCommand, string &strResult)
{
    return createDomain(remoteCommand.getArgument(0), strResult) ? CCommandHandler::EDone
                                                                 : CCommandHandler::EFailed;
''','''static CParameterMgr::CommandHandler::element_type::CommandStatus doneOrFailed(bool ok)
{
    using H = CParameterMgr::CommandHandler::element_type;
    return ok ? H::EDone : H::EFailed;
}

CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::createDomainCommandProcess(
    const IRemoteCommand &remoteCommand, string &strResult)
{
    const string name = remoteCommand.getArgument(0);
    return doneOrFailed(createDomain(name, strResult));
'''),(M,'''    return deleteDomain(remoteCommand.getArgument(0), strResult) ? CCommandHandler::EDone
                                                                 : CCommandHandler::EFailed;
''','''    bool ok = deleteDomain(remoteCommand.getArgument(0), strResult);
    if (not ok) {
        return CCommandHandler::EFailed;
    }
    return CCommandHandler::EDone;
'''),(M,'    strResult = tuningModeOn() ? "on" : "off";\n','''    if (tuningModeOn()) {
        strResult = "on";
    } else {
        strResult = "off";
    }
'''),(M,'    strResult += tuningModeOn() ? "on" : "off";\n','''    const char *state = tuningModeOn() ? "on" : "off";
    strResult += state;
''')])
t('switch',[(R,'''            switch ((pCommandParser->*_pfnParser)(remoteCommand, strResult)) {
            case EDone:
                strResult = "Done";
            // Fall through intentionally
            case ESucceeded:
                return true;
            case EShowUsage:
                strResult = usage();
            // Fall through intentionally
            case EFailed:
                return false;
            }

            return false;
''','''            const auto status = (pCommandParser->*_pfnParser)(remoteCommand, strResult);
            if (status == EDone) {
                strResult = "Done";
            }
            if (status == EShowUsage) {
                strResult = usage();
            }
            return status == EDone || status == ESucceeded;
''')])
t('find',[(R,'''        for (const auto *pRemoteCommandParserItem : _remoteCommandParserVector) {

            if (pRemoteCommandParserItem->getCommandName() == strCommandName) {

                return pRemoteCommandParserItem;
            }
        }
        return nullptr;
''','''        auto it = std::find_if(begin(_remoteCommandParserVector), end(_remoteCommandParserVector),
                               [&](const CRemoteCommandParserItem *item) {
                                   return item->getCommandName() == strCommandName;
                               });
        return it != end(_remoteCommandParserVector) ? *it : nullptr;
'''),(R,'#include <vector>','#include <vector>\n#include <algorithm>'),(R,'''        if (!pRemoteCommandParserItem) {

            // Not found
            strResult = "Command not found!\\nUse \\"help\\" to show available commands";

            return false;
        }

        if (remoteCommand.getCommand() == "help") {

            helpCommandProcess(strResult);

            return true;
        }
''','''        if (remoteCommand.getCommand() == "help") {

            helpCommandProcess(strResult);

            return true;
        }
        if (pRemoteCommandParserItem == nullptr) {
            strResult = "Command not found!\\nUse \\"help\\" to show available commands";
            return false;
        }
''')])
t('find2',[(R,'''        for (const auto *pRemoteCommandParserItem : _remoteCommandParserVector) {

            if (pRemoteCommandParserItem->getCommandName() == strCommandName) {

                return pRemoteCommandParserItem;
            }
        }
        return nullptr;
''','''        const CRemoteCommandParserItem *found = nullptr;
        for (size_t i = 0; i < _remoteCommandParserVector.size(); i++) {
            if (_remoteCommandParserVector[i]->getCommandName() == strCommandName) {
                found = _remoteCommandParserVector[i];
                break;
            }
        }
        return found;
''')])
t('seq',[(M,'''    std::vector<string> astrNewElementSequence;

    for (size_t argument = 2; argument < remoteCommand.getArgumentCount(); argument++) {

        astrNewElementSequence.push_back(remoteCommand.getArgument(argument));
    }
''','''    const auto &arguments = remoteCommand.getArguments();
    std::vector<string> astrNewElementSequence(arguments.begin() + 2, arguments.end());
'''),(M,'''    bool bOverwrite = false;

    // Look for optional arguments
    if (remoteCommand.getArgumentCount() > 1) {

        if (remoteCommand.getArgument(1) == "overwrite") {

            bOverwrite = true;
        } else {
            // Show usage
            return CCommandHandler::EShowUsage;
        }
    }
''','''    bool bOverwrite = remoteCommand.getArgumentCount() > 1;
    if (bOverwrite && remoteCommand.getArgument(1) != "overwrite") {
        return CCommandHandler::EShowUsage;
    }
'''),(M,'''    auto first = remoteCommand.getArguments().cbegin() + 1;
''','''    auto first = std::next(remoteCommand.getArguments().cbegin());
''')])
t('reg',[(M,'''    for (const auto &remoteCommandParserItem : gastRemoteCommandParserItems) {
        commandHandler->addCommandParser(
            remoteCommandParserItem._pcCommandName, remoteCommandParserItem._pfnParser,
            remoteCommandParserItem._minArgumentCount, remoteCommandParserItem._pcHelp,
            remoteCommandParserItem._pcDescription);
    }
''','''    std::for_each(std::begin(gastRemoteCommandParserItems), std::end(gastRemoteCommandParserItems),
                  [&](const SRemoteCommandParserItem &item) {
                      commandHandler->addCommandParser(item._pcCommandName, item._pfnParser,
                                                       item._minArgumentCount, item._pcHelp,
                                                       item._pcDescription);
                  });
''')])
T0='''    vector<uint8_t> bytes;

    auto first = remoteCommand.getArguments().cbegin() + 1;
    auto last = remoteCommand.getArguments().cend();

    try {
        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
            uint8_t byte;

            if (!convertTo(input, byte)) {
                throw std::domain_error("Some values out of byte range");
            }

            return byte;
        });
    } catch (const std::domain_error &e) {
        strResult = e.what();

        return CCommandHandler::EFailed;
    }
'''
t('bytes-loop',[(M,T0,'''    vector<uint8_t> bytes;

    for (size_t i = 1; i < remoteCommand.getArgumentCount(); ++i) {
        uint8_t byte;
        if (!convertTo(remoteCommand.getArgument(i), byte)) {
            strResult = "Some values out of byte range";
            return CCommandHandler::EFailed;
        }
        bytes.push_back(byte);
    }
''')])
t('bytes-sized',[(M,T0,T0.replace('vector<uint8_t> bytes;','vector<uint8_t> bytes(remoteCommand.getArgumentCount() - 1);').replace('std::back_inserter(bytes)','begin(bytes)'))])
