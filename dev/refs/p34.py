FC=P+'ParameterMgrFullConnector.cpp'; PC_=P+'ParameterMgrPlatformConnector.cpp'
t('local copies',[(FC,'    return _pParameterMgr->renameDomain(strName, strNewName, strError);','    const string from = strName;\n    const string &to = strNewName;\n    bool done = _pParameterMgr->renameDomain(from, to, strError);\n    if (!done) {\n        return false;\n    }\n    return true;')])
t('mgr ref',[(FC,'    return _pParameterMgr->split(strDomain, strConfigurableElementPath, strError);','    CParameterMgr &mgr = *_pParameterMgr;\n    return mgr.split(strDomain, strConfigurableElementPath, strError);')])
t('policy inverted',[(PC_,'''    if (_bStarted) {

        strError = "Can not set missing subsystem policy while running";
        return false;
    }

    _pParameterMgr->setFailureOnMissingSubsystem(bFail);
    return true;''','''    if (!_bStarted) {
        _pParameterMgr->setFailureOnMissingSubsystem(bFail);
    } else {
        strError = "Can not set missing subsystem policy while running";
    }
    return !_bStarted;''')])
t('start assigns',[(PC_,'''    if (!_pParameterMgr->load(strError)) {

        return false;
    }

    _bStarted = true;

    return true;''','''    const bool loaded = _pParameterMgr->load(strError);
    if (loaded) {
        _bStarted = true;
    }
    return loaded;''')])
t('early return log',[(PC_,'''    if (_pLogger) {

        _pLogger->info(log);
    }''','''    if (_pLogger == nullptr) {
        return;
    }
    _pLogger->info(log);''')])
t('command index loop',[(P+'CommandHandlerWrapper.cpp','''    for (auto &arg : arguments) {
        request.addArgument(arg);
    }

    return mWrapped''','''    for (size_t i = 0; i < arguments.size(); ++i) {
        request.addArgument(arguments[i]);
    }

    bool ok = mWrapped'''),(P+'CommandHandlerWrapper.cpp','(request, output);','(request, output);\n    return ok;')])
t('command foreach',[(P+'CommandHandlerWrapper.cpp','''    for (auto &arg : arguments) {
        request.addArgument(arg);
    }
''','''    std::for_each(begin(arguments), end(arguments),
                  [&](const std::string &arg) { request.addArgument(arg); });
'''),(P+'CommandHandlerWrapper.cpp','#include <RequestMessage.h>','#include <RequestMessage.h>\n#include <algorithm>')])
t('context erase',[(P+'log/include/log/Context.h','mLogger.mProlog.resize(mLogger.mProlog.size() - 4);','std::string &prolog = mLogger.mProlog;\n        prolog.erase(prolog.size() - 4);')])
t('context append',[(P+'log/include/log/Context.h','mLogger.mProlog += "    ";','mLogger.mProlog.append(4, \' \');')])
t('context const',[(P+'log/include/log/Context.h','mLogger.mProlog += "    ";','const std::string indent = "    ";\n        mLogger.mProlog += indent;')])
t('logline local',[(P+'log/include/log/LogWrapper.h','''        if (!mLog.str().empty()) {
            if (isWarning) {
                mLogger.warning(mProlog + mLog.str());
            } else {
                mLogger.info(mProlog + mLog.str());
            }
        }''','''        const std::string text = mLog.str();
        if (text.size() == 0) {
            return;
        }
        const std::string line = mProlog + text;
        isWarning ? mLogger.warning(line) : mLogger.info(line);''')])
t('setAutoSync',[(P+'ParameterMgr.cpp','''    if (bAutoSyncOn && !_bAutoSyncOn) {

        // Do''','''    const bool turnedOn = bAutoSyncOn && !_bAutoSyncOn;
    if (turnedOn) {

        // Do''')])
t('helper refused',[(PC_,'''bool CParameterMgrPlatformConnector::setFailureOnMissingSubsystem(bool bFail''','''static bool refused(bool started, string &strError, const char *what)
{
    if (started) {
        strError = string("Can not ") + what;
    }
    return started;
}

bool CParameterMgrPlatformConnector::setFailureOnMissingSubsystem(bool bFail'''),(PC_,'''    if (_bStarted) {

        strError = "Can not set missing subsystem policy while running";
        return false;
    }''','''    if (refused(_bStarted, strError, "set missing subsystem policy while running")) {
        return false;
    }''')])
