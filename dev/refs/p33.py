P = 'parameter/'
t('addValue by insert', [(P + 'MappingData.cpp', '''    if (_keyToValueMap.find(strkey) != _keyToValueMap.end()) {

        return false;
    }
    _keyToValueMap[strkey] = strValue;

    return true;
''', '''    return _keyToValueMap.insert({strkey, strValue}).second;
''')])
t('addValue by count', [(P + 'MappingData.cpp', '''    if (_keyToValueMap.find(strkey) != _keyToValueMap.end()) {

        return false;
    }
    _keyToValueMap[strkey] = strValue;

    return true;
''', '''    const bool isNew = _keyToValueMap.count(strkey) == 0;
    if (isNew) {
        _keyToValueMap.emplace(strkey, strValue);
    }
    return isNew;
''')])
t('getValue inverted', [(P + 'MappingData.cpp', '''    if (it != _keyToValueMap.end()) {

        pStrValue = &it->second;

        return true;
    }
    return false;
''', '''    if (it == _keyToValueMap.end()) {
        return false;
    }
    pStrValue = &it->second;
    return true;
''')])
t('has mapping helper', [(P + 'ComponentInstance.cpp', '''    return base::getMappingData(strKey, pStrValue) ||
           (_pComponentType && _pComponentType->getMappingData(strKey, pStrValue));
''', '''    if (base::getMappingData(strKey, pStrValue)) {
        return true;
    }
    return _pComponentType != nullptr && _pComponentType->getMappingData(strKey, pStrValue);
''')])
t('setItem by reference', [(P + 'MappingContext.cpp', '''    // Set item key
    mItems[itemType].strKey = pStrKey;

    // Set item value
    mItems[itemType].strItem = pStrItem;

    return true;
''', '''    SItem &item = mItems[itemType];
    item.strItem = pStrItem;
    item.strKey = pStrKey;

    return true;
''')])
t('setItem direct test', [(P + 'MappingContext.cpp', '''    if (iSet(itemType)) {
''', '''    if (mItems[itemType].strItem) {
''')])
t('getItem by loop', [(P + 'MappingContext.cpp', '''    auto itemFound = find_if(begin(mItems), end(mItems), [&](const SItem &item) {
        return item.strKey != nullptr && strKey == *item.strKey;
    });
    return (itemFound != end(mItems)) ? itemFound->strItem : nullptr;
''', '''    for (const auto &item : mItems) {
        if (item.strKey != nullptr && *item.strKey == strKey) {
            return item.strItem;
        }
    }
    return nullptr;
''')])
t('iSet by bool', [(P + 'MappingContext.cpp', '''    return mItems[itemType].strItem != nullptr;
''', '''    const SItem &item = mItems[itemType];
    return !!item.strItem;
''')])
t('feeding with continue', [(P + 'Subsystem.cpp', '''        if (pConfigurableElement->getMappingData(strKey, pStrValue)) {
            // Assign item to context
            if (!context.setItem(item, &strKey, pStrValue)) {

                strError = getMappingError(strKey, "Already set", pConfigurableElement);

                return false;
            }
        }
''', '''        if (!pConfigurableElement->getMappingData(strKey, pStrValue)) {
            continue;
        }
        // Assign item to context
        if (!context.setItem(item, &strKey, pStrValue)) {
            strError = getMappingError(strKey, "Already set", pConfigurableElement);
            return false;
        }
''')])
t('feeding by range', [(P + 'Subsystem.cpp', '''    for (size_t item = 0; item < _contextMappingKeyArray.size(); item++) {

        const string &strKey = _contextMappingKeyArray[item];
        const string *pStrValue;
''', '''    size_t next = 0;
    for (const string &strKey : _contextMappingKeyArray) {

        const size_t item = next++;
        const string *pStrValue;
''')])
t('ancestor helper', [(P + 'Subsystem.cpp', '''            uint32_t uiAncestorMask = pSubsystemObjectCreator->getAncestorMask();

            for (size_t uiAncestorKey = 0; uiAncestorKey < _contextMappingKeyArray.size();
                 uiAncestorKey++) {

                if (!((1 << uiAncestorKey) & uiAncestorMask)) {
                    // Ancestor not required
                    continue;
                }
                // Check ancestor was provided
                if (!context.iSet(uiAncestorKey)) {

                    strError =
                        getMappingError(strKey, _contextMappingKeyArray[uiAncestorKey] + " not set",
                                        pInstanceConfigurableElement);

                    return false;
                }
            }
''', '''            if (!checkAncestors(*pSubsystemObjectCreator, context, strKey, pInstanceConfigurableElement, strError)) {
                return false;
            }
'''), (P + 'Subsystem.cpp', '''// Subsystem object creation handling
bool''', '''bool CSubsystem::checkAncestors(const CSubsystemObjectCreator &creator, const CMappingContext &context, const string &strKey,
                                const CConfigurableElement *element, string &strError) const
{
    const uint32_t mask = creator.getAncestorMask();
    for (size_t key = 0; key < _contextMappingKeyArray.size(); ++key) {
        const bool required = ((mask >> key) & 1) != 0;
        if (required && !context.iSet(key)) {
            strError = getMappingError(strKey, _contextMappingKeyArray[key] + " not set", element);
            return false;
        }
    }
    return true;
}

// Subsystem object creation handling
bool'''), (P + 'Subsystem.h', '''    bool handleMappingContext(''', '''    bool checkAncestors(const CSubsystemObjectCreator &creator, const CMappingContext &context, const std::string &strKey,
                        const CConfigurableElement *element, std::string &strError) const;
    bool handleMappingContext(''')])
t('creation with continue and return', [(P + 'Subsystem.cpp', '''            bHasCreatedSubsystemObject = true;

            // The subsystem Object has been instantiated, no need to continue looking for an
            // instantiation mapping
            break;
''', '''            bHasCreatedSubsystemObject = true;
            return true;
''')])
t('size first', [(P + 'Subsystem.cpp', '''            if (pInstanceConfigurableElement->getFootPrint() >
                pSubsystemObjectCreator->getMaxConfigurableElementSize()) {
''', '''            const size_t footPrint = pInstanceConfigurableElement->getFootPrint();
            const bool fits = footPrint <= pSubsystemObjectCreator->getMaxConfigurableElementSize();
            if (!fits) {
''')])
t('object in a variable', [(P + 'Subsystem.cpp', '''            _subsystemObjectList.push_back(pSubsystemObjectCreator->objectCreate(
                *pStrValue, pInstanceConfigurableElement, context, _logger));
''', '''            const string &value = *pStrValue;
            CSubsystemObject *object = pSubsystemObjectCreator->objectCreate(
                value, pInstanceConfigurableElement, context, _logger);
            _subsystemObjectList.push_back(object);
''')])
t('mapBegin without switch', [(P + 'Subsystem.cpp', '''    // Deal with ambiguous usage of parameter blocks
    bool bShouldCreateSubsystemObject = true;

    switch (pInstanceConfigurableElement->getType()) {

    case CInstanceConfigurableElement::EComponent:
    case CInstanceConfigurableElement::EParameterBlock:
        // Subsystem object creation is optional in parameter blocks
        bShouldCreateSubsystemObject = false;
    // No break
    case CInstanceConfigurableElement::EBitParameterBlock:
    case CInstanceConfigurableElement::EParameter:
    case CInstanceConfigurableElement::EStringParameter:

        bool bHasCreatedSubsystemObject;

        if (!handleSubsystemObjectCreation(pInstanceConfigurableElement, context,
                                           bHasCreatedSubsystemObject, strError)) {

            return false;
        }
        // Check for creation error
        if (bShouldCreateSubsystemObject && !bHasCreatedSubsystemObject) {

            strError = getMappingError("Not found", "Subsystem object mapping key is missing",
                                       pInstanceConfigurableElement);
            return false;
        }
        // Not created and no error, keep diving
        bKeepDiving = !bHasCreatedSubsystemObject;

        return true;

    default:
        assert(0);
        return false;
    }
''', '''    const auto type = pInstanceConfigurableElement->getType();
    const bool optional = type == CInstanceConfigurableElement::EComponent || type == CInstanceConfigurableElement::EParameterBlock;
    const bool required = type == CInstanceConfigurableElement::EBitParameterBlock ||
                          type == CInstanceConfigurableElement::EParameter || type == CInstanceConfigurableElement::EStringParameter;
    if (!optional && !required) {
        assert(0);
        return false;
    }
    bool created;
    if (!handleSubsystemObjectCreation(pInstanceConfigurableElement, context, created, strError)) {
        return false;
    }
    if (required && !created) {
        strError = getMappingError("Not found", "Subsystem object mapping key is missing", pInstanceConfigurableElement);
        return false;
    }
    bKeepDiving = !created;
    return true;
''')])
t('context pushed first', [(P + 'Subsystem.cpp', '''    // Get current context
    CMappingContext context = _contextStack.top();

    // Add mapping in context
    if (!handleMappingContext(pInstanceConfigurableElement, context, strError)) {

        return false;
    }

    // Push context
    _contextStack.push(context);
''', '''    CMappingContext context(_contextStack.top());

    const bool consistent = handleMappingContext(pInstanceConfigurableElement, context, strError);
    if (!consistent) {
        return false;
    }
    _contextStack.emplace(context);
''')])
t('map helper', [(P + 'InstanceConfigurableElement.cpp', '''    // Go on through children?
    if (bKeepDiving) {

        // Map children
        size_t uiNbChildren = getNbChildren();
        size_t uiChild;

        for (uiChild = 0; uiChild < uiNbChildren; uiChild++) {

            CInstanceConfigurableElement *pInstanceConfigurableChildElement =
                static_cast<CInstanceConfigurableElement *>(getChild(uiChild));

            if (!pInstanceConfigurableChildElement->map(mapper, strError)) {

                return false;
            }
        }
    }
''', '''    if (bKeepDiving && !mapChildren(mapper, strError)) {
        return false;
    }
'''), (P + 'InstanceConfigurableElement.cpp', '''bool CInstanceConfigurableElement::map(''', '''bool CInstanceConfigurableElement::mapChildren(IMapper &mapper, std::string &strError)
{
    const size_t nb = getNbChildren();
    for (size_t child = 0; child < nb; ++child) {
        auto *element = static_cast<CInstanceConfigurableElement *>(getChild(child));
        if (!element->map(mapper, strError)) {
            return false;
        }
    }
    return true;
}

bool CInstanceConfigurableElement::map('''), (P + 'InstanceConfigurableElement.h', '''    bool map(IMapper''', '''    bool mapChildren(IMapper &mapper, std::string &strError);
    bool map(IMapper''')])
t('map while', [(P + 'InstanceConfigurableElement.cpp', '''        for (uiChild = 0; uiChild < uiNbChildren; uiChild++) {

            CInstanceConfigurableElement *pInstanceConfigurableChildElement =
                static_cast<CInstanceConfigurableElement *>(getChild(uiChild));

            if (!pInstanceConfigurableChildElement->map(mapper, strError)) {

                return false;
            }
        }
    }

    // End
''', '''        uiChild = 0;
        while (uiChild < uiNbChildren) {

            CInstanceConfigurableElement *pInstanceConfigurableChildElement =
                static_cast<CInstanceConfigurableElement *>(getChild(uiChild));

            if (!pInstanceConfigurableChildElement->map(mapper, strError)) {

                return false;
            }
            ++uiChild;
        }
    }

    // End
''')])
t('amend early return', [(P + 'FormattedSubsystemObject.cpp', '''        if ((uiAmendNumber > 0) && (uiAmendNumber <= nbAmendKeys)) {
''', '''        if (uiAmendNumber != 0 && !(uiAmendNumber > nbAmendKeys)) {
'''), (P + 'FormattedSubsystemObject.cpp', '''                string strAmendValue = context.getItem(uiAmendType);

                // Make the amendment
                strFormattedValue =
                    strFormattedValue.substr(0, uiPercentPos) + strAmendValue + strEndOfLineAmended;
''', '''                // Make the amendment
                string amended = strFormattedValue.substr(0, uiPercentPos);
                amended += context.getItem(uiAmendType);
                amended += strEndOfLineAmended;
                strFormattedValue = amended;
''')])
t('structure last', [(P + 'Subsystem.cpp', '''    string strError;
    if (!mapSubsystemElements(strError)) {

        serializingContext.setError(strError);

        return false;
    }

    return true;
''', '''    string strError;
    const bool mapped = mapSubsystemElements(strError);
    if (!mapped) {
        serializingContext.setError(strError);
    }
    return mapped;
''')])
