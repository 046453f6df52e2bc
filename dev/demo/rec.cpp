#include "rec.h"
#include <LoggingElementBuilderTemplate.h>
#include <Plugin.h>
#include <FormattedSubsystemObject.h>
#include <Subsystem.h>
#include <SubsystemObject.h>
#include <SubsystemObjectFactory.h>
#include <MappingContext.h>
Rec &rec()
{
    static Rec r;
    return r;
}
class Obj final : public CSubsystemObject
{
public:
    Obj(const std::string &value, CInstanceConfigurableElement *e, const CMappingContext &, core::log::Logger &logger)
        : CSubsystemObject(e, logger), mName(value)
    {
    }

private:
    bool sendToHW(std::string &error) override
    {
        std::vector<uint8_t> v(getSize());
        size_t n = getSize() > 4 ? 4 : getSize();
        blackboardRead(v.data(), n);
        if (rec().during) {
            auto f = rec().during;
            rec().during = nullptr;
            f();
        }
        if (n < v.size()) {
            blackboardRead(v.data() + n, v.size() - n);
        }
        rec().log.push_back({mName, v});
        if (rec().fail.count(mName)) {
            error = rec().fail[mName];
            return false;
        }
        rec().hw[mName] = v;
        return true;
    }
    bool receiveFromHW(std::string &) override
    {
        auto &v = rec().hw[mName];
        v.resize(getSize());
        blackboardWrite(v.data(), v.size());
        return true;
    }
    std::string mName;
};
// named by its mapping value, its amendments replaced
class Fmt final : public CFormattedSubsystemObject
{
public:
    Fmt(const std::string &value, CInstanceConfigurableElement *e, const CMappingContext &context, core::log::Logger &logger)
        : CFormattedSubsystemObject(e, logger, value, 3, 2, context)
    {
        const std::string *card = context.getItem("Card");
        rec().made.push_back(getFormattedMappingValue() + (card ? "@" + *card : std::string()));
    }
};
class Sub : public CSubsystem
{
public:
    Sub(const std::string &name, core::log::Logger &logger) : CSubsystem(name, logger)
    {
        addContextMappingKey("Key");
        for (auto *k : {"Card", "Dev", "Amend1", "Amend2"}) {
            addContextMappingKey(k);
        }
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj>("Rec", 0));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj>("Need", 1 << 1 | 1 << 2));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Fmt>("Fmt", 0));
    }
};
extern "C" void PARAMETER_FRAMEWORK_PLUGIN_ENTRYPOINT_V1(CSubsystemLibrary *l, core::log::Logger &logger)
{
    l->addElementBuilder("REC", new TLoggingElementBuilderTemplate<Sub>(logger));
}
