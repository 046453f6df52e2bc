P = 'parameter/'
t('findChild: find_if', [(P + 'Element.cpp', '''const CElement *CElement::findChild(const string &strName) const
{
    for (CElement *pChild : _childArray) {

        if (pChild->getPathName() == strName) {

            return pChild;
        }
    }

    return nullptr;
}
''', '''const CElement *CElement::findChild(const string &strName) const
{
    auto it = std::find_if(begin(_childArray), end(_childArray), [&](const CElement *child) {
        return child->getPathName() == strName;
    });
    return it == end(_childArray) ? nullptr : *it;
}
''')])
t('findChild: index', [(P + 'Element.cpp', '''    for (CElement *pChild : _childArray) {

        if (pChild->getPathName() == strName) {

            return pChild;
        }
    }
''', '''    for (size_t index = 0; index < _childArray.size(); ++index) {

        CElement *pChild = _childArray[index];

        if (strName != pChild->getPathName()) {

            continue;
        }
        return pChild;
    }
''')])
t('findChild: result', [(P + 'Element.cpp', '''    for (CElement *pChild : _childArray) {

        if (pChild->getPathName() == strName) {

            return pChild;
        }
    }

    return nullptr;
''', '''    CElement *pFound = nullptr;

    for (auto pChild : _childArray) {

        if (pChild->getPathName().compare(strName) == 0) {

            pFound = pChild;
            break;
        }
    }

    return pFound;
''')])
t('rename: helper', [(P + 'Element.cpp', '''    if (_pParent && _pParent->childrenAreDynamic()) {

        for (CElement *pParentChild : _pParent->_childArray) {

            if (pParentChild != this && pParentChild->getName() == strName) {

                // Conflict
                strError = "Name conflicts with brother element";

                return false;
            }
        }
    }
''', '''    const bool isDynamic = _pParent != nullptr && _pParent->childrenAreDynamic();
    if (isDynamic) {

        for (const CElement *pBrother : _pParent->_childArray) {

            if (pBrother == this) {
                continue;
            }
            if (pBrother->getName() == strName) {

                strError = "Name conflicts with brother element";

                return false;
            }
        }
    }
''')])
t('rename: any_of', [(P + 'Element.cpp', '''        for (CElement *pParentChild : _pParent->_childArray) {

            if (pParentChild != this && pParentChild->getName() == strName) {

                // Conflict
                strError = "Name conflicts with brother element";

                return false;
            }
        }
''', '''        const auto &brothers = _pParent->_childArray;
        const bool taken = std::any_of(begin(brothers), end(brothers), [&](const CElement *brother) {
            return brother != this && brother->getName() == strName;
        });
        if (taken) {
            strError = "Name conflicts with brother element";

            return false;
        }
''')])
t('removeChild: index', [(P + 'Element.cpp', '''    auto childIt = find(begin(_childArray), end(_childArray), pChild);
    if (childIt != end(_childArray)) {

        _childArray.erase(childIt);
        return true;
    }
    return false;
''', '''    auto childIt = std::find(_childArray.begin(), _childArray.end(), pChild);
    const bool isThere = childIt != _childArray.end();
    if (isThere) {
        _childArray.erase(childIt);
    }
    return isThere;
''')])
t('removeChildren: pop', [(P + 'Element.cpp', '''    ChildArrayReverseIterator it;

    for (it = _childArray.rbegin(); it != _childArray.rend(); ++it) {

        delete *it;
    }
    _childArray.clear();
''', '''    while (!_childArray.empty()) {

        CElement *pLast = _childArray.back();
        _childArray.pop_back();
        delete pLast;
    }
''')])
t('createDomain: order', [(P + 'ConfigurableDomains.cpp', '''    // Already exists?
    if (findChild(strName)) {

        strError = "Already existing configurable domain";

        return false;
    }

    // Creation/Hierarchy
    addChild(new CConfigurableDomain(strName));

    return true;
''', '''    const bool isNew = findChild(strName) == nullptr;

    if (isNew) {
        auto pDomain = new CConfigurableDomain(strName);
        addChild(pDomain);
    } else {
        strError = "Already existing configurable domain";
    }
    return isNew;
''')])
t('addDomain: inverted', [(P + 'ConfigurableDomains.cpp', '''        if (!bOverwrite) {
            strError = "Can't add domain \\"" + strDomainName +
                       "\\" because it already exists and overwrite was not requested.";
            return false;
        }

        deleteDomain(*pExistingDomain);
''', '''        if (bOverwrite) {
            deleteDomain(*pExistingDomain);
        } else {
            strError = "Can't add domain \\"" + strDomainName +
                       "\\" because it already exists and overwrite was not requested.";
            return false;
        }
''')])
t('deleteDomain: inline', [(P + 'ConfigurableDomains.cpp', '''    if (pConfigurableDomain) {
        deleteDomain(*pConfigurableDomain);
        return true;
    }

    return false;
''', '''    if (pConfigurableDomain == nullptr) {

        return false;
    }
    removeChild(pConfigurableDomain);
    delete pConfigurableDomain;
    return true;
''')])
t('awareness: plain', [(P + 'ConfigurableDomain.cpp', '''    if (_bSequenceAware != bSequenceAware) {

        _bSequenceAware = bSequenceAware;
    }
''', '''    _bSequenceAware = bSequenceAware;
''')])
t('rename domain: inverted', [(P + 'ConfigurableDomains.cpp', '''    if (!pConfigurableDomain) {

        return false;
    }

    // Rename
    return pConfigurableDomain->rename(strNewName, strError);
''', '''    return pConfigurableDomain != nullptr && pConfigurableDomain->rename(strNewName, strError);
''')])
t('getter: local', [(P + 'ConfigurableDomains.cpp', '''    bSequenceAware = pConfigurableDomain->getSequenceAwareness();
''', '''    const bool isAware = pConfigurableDomain->getSequenceAwareness();
    bSequenceAware = isAware;
''')])
t('mgr: result', [(P + 'ParameterMgr.cpp', '''    return logResult(getConfigurableDomains()->createDomain(strName, strError), strError);
''', '''    const bool isSuccess = getConfigurableDomains()->createDomain(strName, strError);
    return logResult(isSuccess, strError);
''')])
t('mgr: domains', [(P + 'ParameterMgr.cpp', '''    return getConfigurableDomains()->clearApplicationRule(strDomain, strConfiguration, strError);
''', '''    CConfigurableDomains *pDomains = getConfigurableDomains();
    if (!pDomains->clearApplicationRule(strDomain, strConfiguration, strError)) {
        return false;
    }
    return true;
''')])
t('setRule: order', [(P + 'DomainConfiguration.cpp', '''    CCompoundRule *pOldRule = getRule();

    if (pOldRule) {
        // Remove previous rule
        removeChild(pOldRule);

        delete pOldRule;
    }
''', '''    if (CCompoundRule *pPrevious = getRule()) {
        removeChild(pPrevious);
        delete pPrevious;
    }
''')])
t('create conf: range', [(P + 'ConfigurableDomain.cpp', '''    ConfigurableElementListIterator it;

    for (it = _configurableElementList.begin(); it != _configurableElementList.end(); ++it) {

        const CConfigurableElement *pConfigurableElement = *it;
        ;

        // Retrieve associated syncer set
''', '''    for (const CConfigurableElement *pConfigurableElement : _configurableElementList) {

        // Retrieve associated syncer set
''')])
t('create conf: helper', [(P + 'ConfigurableDomain.cpp', '''    // Hierarchy
    addChild(pDomainConfiguration);

    // Ensure''', '''    addConfiguration(pDomainConfiguration);

    // Ensure'''), (P + 'ConfigurableDomain.h', '''    void setSequenceAwareness(bool bSequenceAware);
''', '''    void setSequenceAwareness(bool bSequenceAware);
    void addConfiguration(CElement *pConfiguration) { addChild(pConfiguration); }
''')])
t('save: inverted', [(P + 'ConfigurableDomain.cpp', '''    if (!pDomainConfiguration) {

        return false;
    }

    // Delegate
    pDomainConfiguration->save(pMainBlackboard);

    return true;
''', '''    const bool found = pDomainConfiguration != nullptr;
    if (found) {
        pDomainConfiguration->save(pMainBlackboard);
    }
    return found;
''')])
