P = 'parameter/'
X = 'xmlserializer/'
t('children index loop', [(P + 'Element.cpp', '''    for (CElement *pChild : _childArray) {

        // Create corresponding child element
        CXmlElement xmlChildElement;
''', '''    for (size_t index = 0; index < _childArray.size(); index++) {

        const CElement *pChild = _childArray[index];

        // Create corresponding child element
        CXmlElement xmlChildElement;
''')])
t('children iterator, helper', [(P + 'Element.cpp', '''    // Browse children and propagate
    for (CElement *pChild : _childArray) {

        // Create corresponding child element
        CXmlElement xmlChildElement;

        xmlElement.createChild(xmlChildElement, pChild->getXmlElementName());

        // Propagate
        pChild->toXml(xmlChildElement, serializingContext);
    }
''', '''    // Browse children and propagate
    for (auto it = _childArray.begin(); it != _childArray.end(); ++it) {

        CElement *pChild = *it;
        const std::string strType = pChild->getXmlElementName();
        CXmlElement xmlChildElement;

        xmlElement.createChild(xmlChildElement, strType);
        pChild->toXml(xmlChildElement, serializingContext);
    }
''')])
t('description inline', [(P + 'Element.cpp', '''    setXmlDescriptionAttribute(xmlElement);
    childrenToXml''', '''    if (!getDescription().empty()) {
        xmlElement.setAttribute(gDescriptionPropertyName, getDescription());
    }
    childrenToXml''')])
t('description first', [(P + 'Element.cpp', '''    setXmlNameAttribute(xmlElement);
    setXmlDescriptionAttribute(xmlElement);
    childrenToXml''', '''    setXmlDescriptionAttribute(xmlElement);
    setXmlNameAttribute(xmlElement);
    childrenToXml''')])
t('name early return', [(P + 'Element.cpp', '''    string strName = getName();

    if (!strName.empty()) {

        xmlElement.setNameAttribute(strName);
    }
''', '''    const string &strName = getName();

    if (strName.empty()) {
        return;
    }
    xmlElement.setNameAttribute(strName);
''')])
t('name length test', [(P + 'Element.cpp', '''    if (!strName.empty()) {

        xmlElement.setNameAttribute(strName);
''', '''    if (strName.length() != 0) {

        xmlElement.setNameAttribute(strName);
''')])
t('sequence first', [(P + 'ConfigurableDomain.cpp', '''    base::toXml(xmlElement, serializingContext);

    // Sequence awareness
    xmlElement.setAttribute("SequenceAware", _bSequenceAware);
''', '''    // Sequence awareness
    const bool sequenceAware = _bSequenceAware;
    xmlElement.setAttribute("SequenceAware", sequenceAware);

    base::toXml(xmlElement, serializingContext);
''')])
t('sequence getter', [(P + 'ConfigurableDomain.cpp', '''    xmlElement.setAttribute("SequenceAware", _bSequenceAware);
''', '''    xmlElement.setAttribute("SequenceAware", getSequenceAwareness());
''')])
t('settings inverted, range-free', [(P + 'ConfigurableDomain.cpp', '''    if (!context.withSettings()) {

        return;
    }

    // Create Settings element
    CXmlElement xmlSettingsElement;
''', '''    const bool withSettings = context.withSettings();
    if (not withSettings) {
        return;
    }
    CXmlElement xmlSettingsElement;
'''), (P + 'ConfigurableDomain.cpp', '''    size_t uiNbConfigurations = getNbChildren();
    size_t uiChildConfiguration;

    for (uiChildConfiguration = 0; uiChildConfiguration < uiNbConfigurations;
         uiChildConfiguration++) {

        const CDomainConfiguration *pDomainConfiguration =
            static_cast<const CDomainConfiguration *>(getChild(uiChildConfiguration));

        // Create child''', '''    for (size_t index = 0; index != getNbChildren(); ++index) {

        auto pDomainConfiguration = static_cast<const CDomainConfiguration *>(getChild(index));

        // Create child''')])
t('settings condition at the caller', [(P + 'ConfigurableDomain.cpp', '''    composeSettings(xmlElement, static_cast<CXmlDomainExportContext &>(serializingContext));
''', '''    auto &context = static_cast<CXmlDomainExportContext &>(serializingContext);
    if (context.withSettings()) {
        composeSettings(xmlElement, context);
    }
'''), (P + 'ConfigurableDomain.cpp', '''    if (!context.withSettings()) {

        return;
    }

    // Create Settings''', '''    // Create Settings''')])
t('one configuration extracted', [(P + 'ConfigurableDomain.cpp', '''        // Create child xml element for that configuration
        CXmlElement xmlConfigurationSettingsElement;

        xmlSettingsElement.createChild(xmlConfigurationSettingsElement,
                                       pDomainConfiguration->getXmlElementName());

        // Set its name attribute
        xmlConfigurationSettingsElement.setNameAttribute(pDomainConfiguration->getName());

        // Serialize out configuration settings
        pDomainConfiguration->composeSettings(xmlConfigurationSettingsElement, context);
''', '''        composeOne(xmlSettingsElement, *pDomainConfiguration, context);
'''), (P + 'ConfigurableDomain.cpp', '''void CConfigurableDomain::composeSettings(CXmlElement &xmlElement,
''', '''static void composeOne(CXmlElement &xmlSettings, const CDomainConfiguration &configuration,
                       CXmlDomainExportContext &context)
{
    CXmlElement xmlConfiguration;
    xmlSettings.createChild(xmlConfiguration, configuration.getXmlElementName());
    xmlConfiguration.setNameAttribute(configuration.getName());
    configuration.composeSettings(xmlConfiguration, context);
}

void CConfigurableDomain::composeSettings(CXmlElement &xmlElement,
''')])
t('elements range for', [(P + 'ConfigurableDomain.cpp', '''    ConfigurableElementListIterator it;

    for (it = _configurableElementList.begin(); it != _configurableElementList.end(); ++it) {

        const CConfigurableElement *pConfigurableElement = *it;

        // Create corresponding XML child element
''', '''    for (const CConfigurableElement *pConfigurableElement : _configurableElementList) {

        // Create corresponding XML child element
''')])
t('area: locals', [(P + 'DomainConfiguration.cpp', '''    for (auto &areaConfiguration : mAreaConfigurationList) {

        // Retrieve configurable element
        const CConfigurableElement *pConfigurableElement =
            areaConfiguration->getConfigurableElement();

        // Create configurable element child element
        CXmlElement xmlConfigurableElementSettingsElement;

        xmlConfigurationSettingsElement.createChild(xmlConfigurableElementSettingsElement,
                                                    "ConfigurableElement");

        // Set Path attribute
        xmlConfigurableElementSettingsElement.setAttribute("Path", pConfigurableElement->getPath());
''', '''    for (const auto &areaConfiguration : mAreaConfigurationList) {

        // Create configurable element child element
        CXmlElement xmlConfigurableElementSettingsElement;

        xmlConfigurationSettingsElement.createChild(xmlConfigurableElementSettingsElement,
                                                    "ConfigurableElement");

        // Set Path attribute
        const std::string path = areaConfiguration->getConfigurableElement()->getPath();
        xmlConfigurableElementSettingsElement.setAttribute("Path", path);
''')])
t('access context filled in other order', [(P + 'DomainConfiguration.cpp', '''    CConfigurationAccessContext configurationAccessContext(error, true);
    configurationAccessContext.setValueSpaceRaw(context.valueSpaceIsRaw());
    configurationAccessContext.setOutputRawFormat(context.outputRawFormatIsHex());

    // Have domain configuration parse settings for configurable element
    bool success = areaConfiguration->serializeXmlSettings(
        xmlConfigurableElementSettingsElementContent, configurationAccessContext);

    context.appendToError(error);
    return success;
''', '''    const bool isHex = context.outputRawFormatIsHex();
    const bool isRaw = context.valueSpaceIsRaw();
    CConfigurationAccessContext accessContext(error, true);
    accessContext.setOutputRawFormat(isHex);
    accessContext.setValueSpaceRaw(isRaw);

    const bool done = areaConfiguration->serializeXmlSettings(
        xmlConfigurableElementSettingsElementContent, accessContext);

    context.appendToError(error);
    return done;
''')])
t('compound type by condition', [(P + 'CompoundRule.cpp', '''    xmlElement.setAttribute("Type", _apcTypes[_bTypeAll]);
''', '''    xmlElement.setAttribute("Type", _bTypeAll ? "All" : "Any");
''')])
t('compound type local', [(P + 'CompoundRule.cpp', '''    xmlElement.setAttribute("Type", _apcTypes[_bTypeAll]);

    // Base
    base::toXml(xmlElement, serializingContext);
''', '''    const std::string type = _apcTypes[_bTypeAll ? 1 : 0];
    base::toXml(xmlElement, serializingContext);
    xmlElement.setAttribute("Type", type);
''')])
t('criterion rule locals', [(P + 'SelectionCriterionRule.cpp', '''    // Set selection criterion
    xmlElement.setAttribute("SelectionCriterion", _pSelectionCriterion->getName());

    // Set MatchesWhen
    xmlElement.setAttribute("MatchesWhen", _astMatchesWhen[_eMatchesWhen].pcMatchesWhen);

    // Set Value
    string strValue = getMatchValue();

    xmlElement.setAttribute("Value", strValue);
''', '''    const auto &verb = _astMatchesWhen[_eMatchesWhen];
    xmlElement.setAttribute("Value", getMatchValue());
    xmlElement.setAttribute("MatchesWhen", verb.pcMatchesWhen);
    xmlElement.setAttribute("SelectionCriterion", _pSelectionCriterion->getName());
''')])
t('criterion match value early return', [(P + 'SelectionCriterionRule.cpp', '''    if (!pSelectionCriterionType->getLiteralValue(_iMatchValue, strValue)) {

        // Several values of an inclusive type
        strValue = pSelectionCriterionType->getFormattedState(_iMatchValue);
    }
    return strValue;
''', '''    if (pSelectionCriterionType->getLiteralValue(_iMatchValue, strValue)) {
        return strValue;
    }
    // Several values of an inclusive type
    return pSelectionCriterionType->getFormattedState(_iMatchValue);
''')])
t('structure or settings inverted', [(P + 'ConfigurableElement.cpp', '''    if (accessContext.serializeSettings()) {

        serializeXmlSettings(xmlElement, static_cast<CConfigurationAccessContext &>(accessContext));
    } else {

        structureToXml(xmlElement, serializingContext);
    }
''', '''    if (!accessContext.serializeSettings()) {
        structureToXml(xmlElement, serializingContext);
        return;
    }
    auto &configuration = static_cast<CConfigurationAccessContext &>(accessContext);
    serializeXmlSettings(xmlElement, configuration);
''')])
t('settings as xml via status', [(P + 'ParameterMgr.cpp', '''    if (not streamSink.process(memorySource, xmlParameterContext)) {
        result = error;
        return false;
    }
    result = output.str();
    return true;
''', '''    const bool done = streamSink.process(memorySource, xmlParameterContext);
    result = done ? output.str() : error;
    return done;
''')])
t('export wrap by condition', [(P + 'ParameterMgr.cpp', '''    if (toFile) {
        return wrapLegacyXmlExportToFile(xmlDest, element, context);
    } else {
        return wrapLegacyXmlExportToString(xmlDest, element, context);
    }
''', '''    return toFile ? wrapLegacyXmlExportToFile(xmlDest, element, context)
                  : wrapLegacyXmlExportToString(xmlDest, element, context);
''')])
t('serialize directly returned', [(P + 'ParameterMgr.cpp', '''    bool processSuccess = sink.process(memorySource, xmlSerializingContext);

    return processSuccess;
''', '''    return sink.process(memorySource, xmlSerializingContext);
''')])
t('single domain inverted', [(P + 'ParameterMgr.cpp', '''    if (requestedDomain == nullptr) {
        return false;
    }

    return wrapLegacyXmlExport(xmlDest, toFile, withSettings, *requestedDomain, errorMsg);
''', '''    if (requestedDomain != nullptr) {
        return wrapLegacyXmlExport(xmlDest, toFile, withSettings, *requestedDomain, errorMsg);
    }
    return false;
''')])
t('export dump inverted', [(X + 'XmlStreamDocSink.cpp', '''    if (!dumpedDoc) {

        serializingContext.setError("Unable to encode XML document in memory");

        return false;
    }

    _output << static_cast<unsigned char *>(dumpedDoc);

    xmlFree(dumpedDoc);

    return true;
''', '''    const bool encoded = dumpedDoc != nullptr;
    if (encoded) {
        _output << static_cast<unsigned char *>(dumpedDoc);
        xmlFree(dumpedDoc);
    } else {
        serializingContext.setError("Unable to encode XML document in memory");
    }
    return encoded;
''')])
t('export commands plain', [(P + 'ParameterMgr.cpp', '''    string strFileName = remoteCommand.getArgument(0);
    return exportDomainsXml(strFileName, true, true, strResult) ? CCommandHandler::EDone
                                                                : CCommandHandler::EFailed;
''', '''    string destination = remoteCommand.getArgument(0);
    const bool withSettings = true;
    const bool toFile = true;
    if (!exportDomainsXml(destination, withSettings, toFile, strResult)) {
        return CCommandHandler::EFailed;
    }
    return CCommandHandler::EDone;
''')])
