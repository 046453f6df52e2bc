M=P+'ParameterMgr.cpp'; SC=P+'SystemClass.cpp'
t('load chained',[(M,'''    if (!loadSubsystems(strError)) {

        return false;
    }

    // Load structure
    if (!loadStructure(strError)) {

        return false;
    }
''','''    if (!loadSubsystems(strError) || !loadStructure(strError)) {
        return false;
    }
''')])
t('load helper',[(M,'''bool CParameterMgr::load(string &strError)
{''','''static void logCriteria(CParameterMgr &mgr, const CSelectionCriteria &criteria)
{
    list<string> states;
    criteria.listSelectionCriteria(states, true, false);
    (void)mgr;
}

bool CParameterMgr::load(string &strError)
{'''),(M,'''        const CSelectionCriteria *selectionCriteria = getConstSelectionCriteria();

        list<string> criteria;
        selectionCriteria->listSelectionCriteria(criteria, true, false);
''','''        const CSelectionCriteria *selectionCriteria = getConstSelectionCriteria();
        logCriteria(*this, *selectionCriteria);

        list<string> criteria;
        selectionCriteria->listSelectionCriteria(criteria, true, false);
''')])
t('settings policy',[(M,'''    if (!success && !_bFailOnFailedSettingsLoad) {
        // Load can not fail, ie continue but log the load errors
        warning() << strLoadError;
        warning() << "Failed to load settings, continue without domains.";
        success = true;
    }

    if (!success) {
        // Propagate the litteral error only if the function fails
        strError = strLoadError;
        return false;
    }

    return true;''','''    if (success) {
        return true;
    }
    if (_bFailOnFailedSettingsLoad) {
        strError = strLoadError;
        return false;
    }
    warning() << strLoadError;
    warning() << "Failed to load settings, continue without domains.";
    return true;''')])
t('xmlParse inline',[(M,'''    auto clean = [replace, &pRootElement] {
        if (replace) {
            pRootElement->clean();
        }
    };
    clean();
''','''    if (replace) {
        pRootElement->clean();
    }
'''),(M,'''    if (!memorySink.process(docSource, elementSerializingContext)) {
        clean();
        return false;
    }

    return true;''','''    const bool parsed = memorySink.process(docSource, elementSerializingContext);
    if (replace && !parsed) {
        pRootElement->clean();
    }
    return parsed;''')])
t('plugins ternary',[(SC,'    return bLoadPluginsSuccess || bVirtualSubsystemFallback;','    if (bVirtualSubsystemFallback) {\n        return true;\n    }\n    return bLoadPluginsSuccess;')])
t('plugin for',[(SC,'''        list<string>::const_iterator it;

        const list<string> &pluginList = pPluginLocation->getPluginList();

        for (it = pluginList.begin(); it != pluginList.end(); ++it) {

            // Fill Plugin files list
            lstrPluginFiles.push_back(strFolder + *it);
        }''','''        for (const string &plugin : pPluginLocation->getPluginList()) {
            lstrPluginFiles.emplace_back(strFolder + plugin);
        }''')])
t('plugin while',[(SC,'''    if (!lstrPluginFiles.empty()) {
        // Unable to load at least one plugin
        errors.push_back''','''    const bool allLoaded = lstrPluginFiles.empty();
    if (!allLoaded) {
        errors.push_back'''),(SC,'''".");
        return false;
    }

    return true;
}''','''".");
    }

    return allLoaded;
}''')])
t('plugin erase',[(SC,'lstrPluginFiles.erase(it++);','it = lstrPluginFiles.erase(it);')])
t('plugin flag',[(SC,'''    bool bAtLeastOneSubsystemPluginSuccessfullyLoaded = false;
''','''    bool loaded = false;
'''),(SC,'        bAtLeastOneSubsystemPluginSuccessfullyLoaded = true;','        loaded = true;'),(SC,'    return bAtLeastOneSubsystemPluginSuccessfullyLoaded;','    return loaded;')])
t('plugin helper',[(SC,'''        // Load attempt
        try {
            auto library = utility::make_unique<DynamicLibrary>(strPluginFileName);

            // Load symbol from library
            auto subSystemBuilder = library->getSymbol<PluginEntryPointV1>(entryPointSymbol);

            // Store libraries handles
            _subsystemLibraryHandleList.push_back(std::move(library));

            // Fill library
            subSystemBuilder(_pSubsystemLibrary, _logger);
''','''        auto attempt = [&] {
            auto library = utility::make_unique<DynamicLibrary>(strPluginFileName);
            auto subSystemBuilder = library->getSymbol<PluginEntryPointV1>(entryPointSymbol);
            _subsystemLibraryHandleList.push_back(std::move(library));
            subSystemBuilder(_pSubsystemLibrary, _logger);
        };
        try {
            attempt();
''')])
t('deflib',[(P+'DefaultElementLibrary.h','''    if (builtElement != nullptr) {
        // The element was created, return it
        return builtElement;
    }

    if (_defaultBuilder == nullptr) {
        // The default builder mechanism is not enabled
        return nullptr;
    }

    // Use the default builder
    return _defaultBuilder->createElement(xmlElement);''','''    if (builtElement == nullptr && _defaultBuilder) {
        builtElement = _defaultBuilder->createElement(xmlElement);
    }
    return builtElement;''')])
t('elemlib',[(P+'ElementLibrary.cpp','''    if (it != _elementBuilderMap.end()) {

        return it->second->createElement(xmlElement);
    }
    return nullptr;''','''    return it == _elementBuilderMap.end() ? nullptr : it->second->createElement(xmlElement);''')])
t('remote',[(M,'''    if (!_pRemoteProcessorServer->start(strError)) {
        ostringstream oss;
        oss << "ParameterMgr: Unable to start remote processor server on port " << port;
        strError = oss.str() + ": " + strError;
        return false;
    }
    info() << "Remote Processor Server started on port " << port;
    return true;''','''    const bool started = _pRemoteProcessorServer->start(strError);
    if (started) {
        info() << "Remote Processor Server started on port " << port;
    } else {
        strError = "ParameterMgr: Unable to start remote processor server on port " +
                   std::to_string(port) + ": " + strError;
    }
    return started;''')])
t('required',[(M,'    return (not _bForceNoRemoteInterface) and getConstFrameworkConfiguration()->isTuningAllowed();','    if (_bForceNoRemoteInterface) {\n        return false;\n    }\n    return getConstFrameworkConfiguration()->isTuningAllowed();')])
t('structure local',[(M,'''    pSystemClass->setOffset(0);

    // Initialize main blackboard's size
    _pMainParameterBlackboard->setSize(pSystemClass->getFootPrint());''','''    pSystemClass->setOffset(0);
    const size_t size = pSystemClass->getFootPrint();
    _pMainParameterBlackboard->setSize(size);''')])
