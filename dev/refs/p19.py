P = 'parameter/'
t('populate in one condition', [('xmlserializer/XmlDocSource.cpp', '''    if (_bValidateWithSchema) {
        if (!isInstanceDocumentValid()) {

            serializingContext.setError("Document is not valid");

            return false;
        }
    }
''', '''    if (_bValidateWithSchema && !isInstanceDocumentValid()) {
        serializingContext.setError("Document is not valid");
        return false;
    }
''')])
t('root type first read', [('xmlserializer/XmlDocSource.cpp', '''    if (getRootElementName() != _strRootElementType) {

        serializingContext.setError("Error: Wrong XML structure document ");
        serializingContext.appendLineToError("Root Element " + getRootElementName() +
''', '''    const string rootType = getRootElementName();
    if (!(rootType == _strRootElementType)) {

        serializingContext.setError("Error: Wrong XML structure document ");
        serializingContext.appendLineToError("Root Element " + rootType +
''')])
t('name check helper', [('xmlserializer/XmlDocSource.cpp', '''        string strRootElementNameCheck = getRootElementAttributeString(_strNameAttributeName);

        // Check Root element name attribute (if any)
        if (!_strRootElementName.empty() && strRootElementNameCheck != _strRootElementName) {
''', '''        const string strRootElementNameCheck = getRootElementAttributeString(_strNameAttributeName);
        const bool expected =
            _strRootElementName.size() == 0 || _strRootElementName == strRootElementNameCheck;

        // Check Root element name attribute (if any)
        if (not expected) {
''')])
t('mkXmlDoc early returns', [('xmlserializer/XmlDocSource.cpp', '''    if (xincludes and (xmlXIncludeProcess(doc) < 0)) {
        serializingContext.appendLineToError("libxml failed to resolve XIncludes");

        xmlFreeDoc(doc);
        doc = nullptr;
    }

    return doc;
''', '''    if (!xincludes) {
        return doc;
    }
    const int includes = xmlXIncludeProcess(doc);
    if (includes >= 0) {
        return doc;
    }
    serializingContext.appendLineToError("libxml failed to resolve XIncludes");
    xmlFreeDoc(doc);
    return nullptr;
''')])
t('sink as one expression', [('xmlserializer/XmlDocSink.h', '''        if (!xmlDocSource.populate(serializingContext)) {
            return false;
        }

        return doProcess(xmlDocSource, serializingContext);
''', '''        return xmlDocSource.populate(serializingContext) &&
               doProcess(xmlDocSource, serializingContext);
''')])
t('found flag', [(P + 'ConfigurableDomain.cpp', '''    if (!xmlElement.getChildElement("Settings", xmlSettingsElement)) {

        // No settings, bail out successfully
        return true;
    }
''', '''    const bool hasSettings = xmlElement.getChildElement("Settings", xmlSettingsElement);
    if (!hasSettings) {
        return true;
    }
''')])
t('lookup helper with an out parameter', [(P + 'ConfigurableDomain.cpp', '''// Parse settings
bool CConfigurableDomain::parseSettings(''', '''static bool part(const CXmlElement &from, const string &type, CXmlElement &to)
{
    return from.getChildElement(type, to);
}

// Parse settings
bool CConfigurableDomain::parseSettings('''), (P + 'ConfigurableDomain.cpp', '''    if (!xmlElement.getChildElement("Settings", xmlSettingsElement)) {
''', '''    if (!part(xmlElement, "Settings", xmlSettingsElement)) {
''')])
t('schema goto style', [('xmlserializer/XmlDocSource.cpp', '''    bool isDocValid = xmlSchemaValidateDoc(pValidationCtxt, _pDoc) == 0;

''', '''    const int status = xmlSchemaValidateDoc(pValidationCtxt, _pDoc);
    bool isDocValid = true;
    if (status != 0) {
        isDocValid = false;
    }

''')])
t('children by a for loop', [(P + 'ComponentLibrary.cpp', '''    CXmlElement childElement;

    CXmlElement::CChildIterator it(xmlElement);

    // XML populate all component libraries
    while (it.next(childElement)) {
''', '''    CXmlElement::CChildIterator it(xmlElement);

    // XML populate all component libraries
    for (CXmlElement childElement; it.next(childElement);) {
''')])
t('xml settings other order', [(P + 'DomainConfiguration.cpp', '''    if (xmlConfigurableElementSettingsElement.getNbChildElements() != 1) {
''', '''    const size_t children = xmlConfigurableElementSettingsElement.getNbChildElements();
    if (children != 1) {
''')])
