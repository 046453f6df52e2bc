P = 'parameter/'
t('bit: inverted', [(P + 'BitParameterType.cpp', '''    if (parameterAccessContext.valueSpaceIsRaw() && parameterAccessContext.outputRawFormatIsHex()) {

        strStream << "0x" << std::hex << std::uppercase;
    }

    strStream << uiConvertedValue;
''', '''    const bool isHex = parameterAccessContext.outputRawFormatIsHex();
    if (!isHex || !parameterAccessContext.valueSpaceIsRaw()) {
        strStream << uiConvertedValue;
    } else {
        strStream << "0x";
        strStream << std::uppercase << std::hex;
        strStream << uiConvertedValue;
    }
''')])
t('bool: prefix', [(P + 'BooleanParameterType.cpp', '''    strValue = uiValue ? "1" : "0";

    if (parameterAccessContext.valueSpaceIsRaw() && parameterAccessContext.outputRawFormatIsHex()) {

        strValue = "0x" + strValue;
    }
''', '''    const std::string digit = uiValue != 0 ? "1" : "0";
    const bool isHex =
        parameterAccessContext.valueSpaceIsRaw() && parameterAccessContext.outputRawFormatIsHex();
    strValue = isHex ? "0x" + digit : digit;
''')])
t('bool: insert', [(P + 'BooleanParameterType.cpp', '''        strValue = "0x" + strValue;
''', '''        strValue.insert(0, "0x");
''')])
t('enum: helper', [(P + 'EnumParameterType.cpp', '''        // Numerical format requested
        if (ctx.outputRawFormatIsHex()) {

            // Hexa display with unecessary bits cleared out
            sstream << "0x" << std::hex << std::uppercase
                    << std::setw(static_cast<int>(getSize() * 2)) << std::setfill('0')
                    << makeEncodable(value);

            userValue = sstream.str();
        } else {
            userValue = std::to_string(value);
        }
''', '''        userValue = ctx.outputRawFormatIsHex() ? hexadecimal(makeEncodable(value), getSize())
                                               : std::to_string(value);
'''), (P + 'EnumParameterType.cpp', '''bool CEnumParameterType::fromBlackboard(string &userValue, const uint32_t &value,
''', '''static string hexadecimal(uint32_t value, size_t size)
{
    std::ostringstream stream;
    stream << "0x" << std::hex << std::uppercase << std::setfill('0')
           << std::setw(static_cast<int>(2 * size)) << value;
    return stream.str();
}

bool CEnumParameterType::fromBlackboard(string &userValue, const uint32_t &value,
''')])
t('enum: inverted', [(P + 'EnumParameterType.cpp', '''        if (ctx.outputRawFormatIsHex()) {

            // Hexa display with unecessary bits cleared out
            sstream << "0x" << std::hex << std::uppercase
                    << std::setw(static_cast<int>(getSize() * 2)) << std::setfill('0')
                    << makeEncodable(value);

            userValue = sstream.str();
        } else {
            userValue = std::to_string(value);
        }
''', '''        if (!ctx.outputRawFormatIsHex()) {
            sstream << value;
        } else {
            const int width = static_cast<int>(getSize() * 2);
            sstream << "0x" << std::hex << std::uppercase;
            sstream << std::setw(width) << std::setfill('0') << makeEncodable(value);
        }
        userValue = sstream.str();
''')])
t('fixed: early return', [(P + 'FixedPointParameterType.cpp', '''            uint32_t data = static_cast<uint32_t>(value);

            stream << "0x" << std::hex << std::uppercase
                   << std::setw(static_cast<int>(getSize() * 2)) << std::setfill('0') << data;
''', '''            stream << "0x" << std::hex << std::uppercase
                   << std::setw(static_cast<int>(getSize() * 2)) << std::setfill('0') << value;
            strValue = stream.str();
            return true;
''')])
t('floating: flags', [(P + 'FloatingPointParameterType.cpp', '''            ostrStream << "0x" << std::hex << std::setw(static_cast<int>(getSize() * 2))
                       << std::setfill('0');
''', '''            const size_t digits = getSize() * 2;
            ostrStream << "0x";
            ostrStream << std::hex << std::setfill('0') << std::setw(static_cast<int>(digits));
''')])
t('manager: locals for the choices', [(P + 'ParameterMgr.cpp', '''    CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard,
                                                   _bValueSpaceIsRaw, _bOutputRawFormatIsHex);

    // Activate the auto''', '''    const bool isRaw = valueSpaceIsRaw();
    const bool isHex = outputRawFormatIsHex();
    CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard, isRaw,
                                                   isHex);

    // Activate the auto''')])
t('manager: setters for the choices', [(P + 'ParameterMgr.cpp', '''    CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard,
                                                   _bValueSpaceIsRaw, _bOutputRawFormatIsHex);

    // Activate the auto''', '''    CParameterAccessContext parameterAccessContext(strError);
    parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
    parameterAccessContext.setOutputRawFormat(_bOutputRawFormatIsHex);
    parameterAccessContext.setValueSpaceRaw(_bValueSpaceIsRaw);

    // Activate the auto''')])
t('manager: dump via local', [(P + 'ParameterMgr.cpp', '''    strResult = pLocatedElement->dumpContent(parameterAccessContext);

    return CCommandHandler::ESucceeded;
''', '''    const string content = pLocatedElement->dumpContent(parameterAccessContext);
    strResult = content;

    return CCommandHandler::ESucceeded;
''')])
t('configuration: inline helper', [(P + 'ParameterMgr.cpp', '''    CParameterAccessContext parameterAccessContext(
        strError, pConfigurationBlackboard, _bValueSpaceIsRaw, _bOutputRawFormatIsHex, baseOffset);
''', '''    CParameterAccessContext parameterAccessContext(strError, pConfigurationBlackboard,
                                                   valueSpaceIsRaw(), outputRawFormatIsHex(),
                                                   baseOffset);
''')])
