P='parameter/'
CD=P+'ConfigurableDomain.cpp'
CDS=P+'ConfigurableDomains.cpp'
t('msgvar',[(CD,'''        strError = "Already existing configuration";

        return false;
    }

    // Creation''','''        const std::string text("Already existing configuration");
        strError = text;

        return false;
    }

    // Creation''')])
t('assign',[(CD,'''        strError = "Already existing configuration";

        return false;
    }

    // Creation''','''        strError.assign("Already existing configuration");

        return false;
    }

    // Creation''')])
t('refuse',[(CD,'''        strError = "Already existing configuration";

        return false;
    }

    // Creation''','''        return refuse(strError, "Already existing configuration");
    }

    // Creation'''),(CD,'''bool CConfigurableDomain::createConfiguration(''','''static bool refuse(std::string &text, const char *why)
{
    text = why;
    return false;
}

bool CConfigurableDomain::createConfiguration(''')])
t('create',[(P+'ParameterMgr.cpp','''    CConfigurableElement *pConfigurableElement = getConfigurableElement(strPath, strError);

    if (!pConfigurableElement) {

        // Element not found
        strError = "Element not found: " + strPath;
        return nullptr;
    }
''','''    CConfigurableElement *pConfigurableElement = getConfigurableElement(strPath, strError);

    if (pConfigurableElement == nullptr) {
        std::ostringstream stream;
        stream << "Element not found: " << strPath;
        strError = stream.str();
        return nullptr;
    }
''')])
t('single',[(CDS,'''    if (!pConfigurableDomain) {

        return false;
    }

    // Rename
    return pConfigurableDomain->rename(strNewName, strError);''','''    return pConfigurableDomain != nullptr && pConfigurableDomain->rename(strNewName, strError);''')])
t('result',[(CDS,'''    if (!pConfigurableDomain) {

        return false;
    }

    // Rename
    return pConfigurableDomain->rename(strNewName, strError);''','''    bool done = false;
    if (pConfigurableDomain) {
        done = pConfigurableDomain->rename(strNewName, strError);
    }
    return done;''')])
t('local',[(CDS,'''    CConfigurableDomain *pConfigurableDomain = findConfigurableDomain(strName, strError);

    if (!pConfigurableDomain) {

        return false;
    }

    // Rename
    return pConfigurableDomain->rename(strNewName, strError);''','''    std::string why;
    CConfigurableDomain *pConfigurableDomain = findConfigurableDomain(strName, why);

    if (!pConfigurableDomain) {
        strError = why;
        return false;
    }

    // Rename
    return pConfigurableDomain->rename(strNewName, strError);''')])
t('brace',[(P+'RuleParser.cpp','''            if (!_currentDeepness--) {

                strError = "Missing opening brace";

                return false;
            }''','''            if (_currentDeepness == 0) {
                strError = std::string("Missing ") + "opening brace";
                return false;
            }
            _currentDeepness -= 1;''')])
t('reason',[(P+'SelectionCriterionRule.cpp','''        strError = "Value error: \\"" + strValue + "\\" is not part of criterion \\"" +
                   _pSelectionCriterion->getCriterionName() + "\\"";
''','''        strError = "Value error: \\"";
        strError += strValue;
        strError += "\\" is not part of criterion \\"" + _pSelectionCriterion->getCriterionName() + "\\"";
''')])
t('tuning',[(P+'ParameterMgr.cpp','''    // Tuning allowed?
    if (bOn && !getConstFrameworkConfiguration()->isTuningAllowed()) {

        strError = "Tuning prohibited";

        return false;
    }''','''    // Tuning allowed?
    const bool allowed = getConstFrameworkConfiguration()->isTuningAllowed();
    if (bOn) {
        if (!allowed) {
            strError = "Tuning prohibited";
            return false;
        }
    }''')])
t('strparam',[(P+'StringParameter.cpp','''            parameterAccessContext.setError("Maximum length exceeded");
''','''            std::string message = "Maximum length exceeded";
            parameterAccessContext.setError(message);
''')])
