P = 'parameter/'
t('try moved to xmlParse', [('xmlserializer/XmlMemoryDocSink.cpp', '''    try {
        return _pXmlSink->fromXml(docElement, serializingContext);
    } catch (const PfError &e) {
        serializingContext.appendLineToError(e.what());
        return false;
    }
''', '''    return _pXmlSink->fromXml(docElement, serializingContext);
'''), (P + 'ParameterMgr.cpp', '''    if (!memorySink.process(docSource, elementSerializingContext)) {
        clean();
        return false;
    }

    return true;
}
''', '''    bool parsed = false;
    try {
        parsed = memorySink.process(docSource, elementSerializingContext);
    } catch (const std::runtime_error &e) {
        elementSerializingContext.appendLineToError(e.what());
    }
    if (!parsed) {
        clean();
        return false;
    }

    return true;
}
''')])
t('handler with a flag', [('xmlserializer/XmlMemoryDocSink.cpp', '''    try {
        return _pXmlSink->fromXml(docElement, serializingContext);
    } catch (const PfError &e) {
        serializingContext.appendLineToError(e.what());
        return false;
    }
''', '''    bool done = false;
    try {
        done = _pXmlSink->fromXml(docElement, serializingContext);
    } catch (const std::exception &e) {
        serializingContext.appendLineToError(e.what());
    }
    return done;
''')])
t('element function try made a block', [(P + 'Element.cpp', '''                       CXmlSerializingContext &serializingContext) try {
    xmlElement.getAttribute(gDescriptionPropertyName, _strDescription);
''', '''                       CXmlSerializingContext &serializingContext)
{
    try {
    xmlElement.getAttribute(gDescriptionPropertyName, _strDescription);
'''), (P + 'Element.cpp', '''    serializingContext.appendLineToError(e.what());
    return false;
}
''', '''    serializingContext.appendLineToError(e.what());
    return false;
}
}
''')])
t('bytes by a loop', [(P + 'ParameterMgr.cpp', '''        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
            uint8_t byte;

            if (!convertTo(input, byte)) {
                throw std::domain_error("Some values out of byte range");
            }

            return byte;
        });
''', '''        for (auto it = first; it != last; ++it) {
            uint8_t byte;

            if (!convertTo(*it, byte)) {
                throw std::domain_error("Some values out of byte range");
            }
            bytes.push_back(byte);
        }
''')])
t('bytes without exception', [(P + 'ParameterMgr.cpp', '''    try {
        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
            uint8_t byte;

            if (!convertTo(input, byte)) {
                throw std::domain_error("Some values out of byte range");
            }

            return byte;
        });
    } catch (const std::domain_error &e) {
        strResult = e.what();

        return CCommandHandler::EFailed;
    }
''', '''    for (auto it = first; it != last; ++it) {
        uint8_t byte;

        if (!convertTo(*it, byte)) {
            strResult = "Some values out of byte range";
            return CCommandHandler::EFailed;
        }
        bytes.push_back(byte);
    }
''')])
t('attribute helper', [('xmlserializer/XmlElement.cpp', '''    T backup = value;
    if (!convertTo<T>(rawValue, value)) {
        value = backup;
        throw PfError("\\'" + rawValue + "\\' could not be parsed as the requested type.");
    }
''', '''    T parsed = value;
    if (!convertTo<T>(rawValue, parsed)) {
        const std::string what = "'" + rawValue + "' could not be parsed as the requested type.";
        throw PfError(what);
    }
    value = parsed;
''')])
t('stream failure reported by its system error', [(P + 'ParameterMgr.cpp', 'catch (std::ofstream::failure &e)', 'catch (const std::exception &e)')])
t('server thread through a lambda', [('remote-processor/BackgroundRemoteProcessorServer.cpp', '''        mServerSuccess = std::async(std::launch::async, &CRemoteProcessorServer::process,
                                    _server.get(), std::ref(*mCommandHandler));
''', '''        mServerSuccess = std::async(std::launch::async,
                                    [this] { return _server->process(*mCommandHandler); });
''')])
t('plugin library opened by a helper', [(P + 'SystemClass.cpp', 'catch (std::exception &e)', 'catch (const std::exception &e)')])
