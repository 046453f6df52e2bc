P='parameter/'; H=P+'ElementHandle.cpp'
t('early',[(H,'''    // When in tuning mode, silently skip "set" requests
    if (mParameterMgr.tuningModeOn()) {

        return true;
    }
''','''    const bool tuning = mParameterMgr.tuningModeOn();
    if (tuning) {
        return true; // skipped
    }
''')])
t('shape',[(H,'''    if (arrayLength && (arrayLength != getArrayLength())) {
''','''    const size_t expected = getArrayLength();
    if (arrayLength != 0 && expected != arrayLength) {
''')])
t('rogue',[(P+'ConfigurableElement.cpp','''    return (rogueElementList.size() == 1) && (rogueElementList.front() == this);
''','''    if (rogueElementList.size() != 1) {
        return false;
    }
    const CConfigurableElement *only = rogueElementList.front();
    return only == this;
''')])
t('roguehelper',[(H,'''bool ElementHandle::setAsXML(''','''static bool mayWrite(const CConfigurableElement &element, std::string &error)
{
    if (element.isRogue()) {
        return true;
    }
    error = "Not rogue: " + element.getPath();
    return false;
}

bool ElementHandle::setAsXML('''),(H,'''    if (not isRogue()) {
        error = "Can not set element \\"" + getPath() + "\\" as it is not rogue.";
        return false;
    }

    return mParameterMgr.setSettingsAsXML(''','''    if (not mayWrite(mElement, error)) {
        return false;
    }

    return mParameterMgr.setSettingsAsXML(''')])
t('setas',[(H,'''    T copy = value;

    // Ensure we're safe against blackboard foreign access
    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());

    return parameter.access(copy, true, parameterAccessContext);
''','''    T copy(value);

    // Ensure we're safe against blackboard foreign access
    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());

    bool done = parameter.access(copy, true, parameterAccessContext);
    return done;
''')])
t('belong',[(P+'ConfigurableElement.cpp','''    configurableDomainList.insert(configurableDomainList.end(), _configurableDomainList.begin(),
                                  _configurableDomainList.end());
''','''    for (const CConfigurableDomain *domain : _configurableDomainList) {
        configurableDomainList.push_back(domain);
    }
''')])
t('count',[(P+'ConfigurableElement.cpp','''    getBelongingDomains(configurableDomainList);

    return configurableDomainList.size();
''','''    getBelongingDomains(configurableDomainList);
    size_t count = configurableDomainList.size();

    return count;
''')])
t('create',[(P+'ParameterMgr.cpp','''    CConfigurableElement *pConfigurableElement;

    if (path == "/") {
        // Attempt to access root configurable element
        pConfigurableElement = getSystemClass();
    } else {
        pConfigurableElement = getConfigurableElement(path, error);
    }
''','''    CConfigurableElement *pConfigurableElement =
        path == "/" ? getSystemClass() : getConfigurableElement(path, error);
''')])
t('len',[(H,'''    if (instance == nullptr) {
        return 0;
    }
    return instance->getArrayLength();
''','''    return instance != nullptr ? instance->getArrayLength() : 0;
''')])
