t('agg', [(P+'ConfigurableElementAggregator.cpp','    size_t uiNbMatchingChildren = 0;','    bool bAll = true;'),
 (P+'ConfigurableElementAggregator.cpp','        uiNbMatchingChildren += doAggregate(pChildConfigurableElement, childAggregateElementList);','        if (!doAggregate(pChildConfigurableElement, childAggregateElementList)) bAll = false;'),
 (P+'ConfigurableElementAggregator.cpp','uiNbMatchingChildren == uiNbChildren','bAll'),
 (P+'ConfigurableElementAggregator.cpp','        aggregateList.insert(','        if (!childAggregateElementList.empty()) aggregateList.insert(')])
t('agg2',[(P+'ConfigurableElementAggregator.cpp','    size_t uiNbMatchingChildren = 0;','    bool bAll = true;'),
 (P+'ConfigurableElementAggregator.cpp','        uiNbMatchingChildren += doAggregate(pChildConfigurableElement, childAggregateElementList);','        bAll = doAggregate(pChildConfigurableElement, childAggregateElementList) && bAll;'),
 (P+'ConfigurableElementAggregator.cpp','uiNbMatchingChildren == uiNbChildren','bAll'),
 (P+'ConfigurableElementAggregator.cpp','aggregateList.insert(aggregateList.end(), childAggregateElementList.begin(),\n                             childAggregateElementList.end());','aggregateList.splice(aggregateList.end(), childAggregateElementList);')])
t('set',[(P+'SyncerSet.cpp','''    SyncerSetConstIterator it;

    for (it = _syncerSet.begin(); it != _syncerSet.end(); ++it) {

        ISyncer *pSyncer = *it;
''','    for (ISyncer *pSyncer : _syncerSet) {'),(P+'SyncerSet.cpp','''        if (!pSyncer->sync(parameterBlackboard, bBack, strError)) {

            if (errors != nullptr) {

                errors->push_back(strError);
            }
            bSuccess = false;
        }''','''        if (pSyncer->sync(parameterBlackboard, bBack, strError)) {
            continue;
        }
        bSuccess = false;
        if (errors) errors->push_back(strError);
'''),(P+'SyncerSet.cpp','''    if (&rightSyncerSet != this) {

        _syncerSet.insert(rightSyncerSet._syncerSet.begin(), rightSyncerSet._syncerSet.end());
    }
''','''    if (this == &rightSyncerSet) return *this;
    for (auto *s : rightSyncerSet._syncerSet) *this += s;
''')])
t('helper',[(P+'SyncerSet.cpp','''            if (errors != nullptr) {

                errors->push_back(strError);
            }
''','''            addError(strError, errors);
'''),(P+'SyncerSet.cpp','bool CSyncerSet::sync','''static void addError(const std::string &s, core::Results *e) { if (e) { e->push_back(s); } }
bool CSyncerSet::sync''')])
t('so',[(P+'SubsystemObject.cpp','''    // Synchronize to/from HW
    if (!bIsSubsystemAlive || !accessHW(bBack, strError)) {

        // Fall back to parameter default initialization
        if (bBack) {

            setDefaultValues(parameterBlackboard);
        }
        return false;
    }

    return true;''','''    const bool bDone = bIsSubsystemAlive && accessHW(bBack, strError);
    if (!bDone && bBack) setDefaultValues(*_blackboard);
    return bDone;'''),(P+'SubsystemObject.cpp','''    _blackboard->readBuffer(pvData, size, getOffset() + _accessedIndex);

    _accessedIndex += size;''','''    const size_t offset = _accessedIndex + getOffset();
    _accessedIndex = _accessedIndex + size;
    _blackboard->readBuffer(pvData, size, offset);'''),
 (P+'SubsystemObject.cpp','''    if (bReceive) {

        return receiveFromHW(strError);
    } else {

        return sendToHW(strError);
    }''','    return bReceive ? receiveFromHW(strError) : sendToHW(strError);')])
t('ce',[(P+'ConfigurableElement.cpp','''    if (isOfConfigurableElementType(pParent)) {

        return static_cast<const CConfigurableElement *>(pParent)->getSyncer();
    }
    return nullptr;''','''    if (!isOfConfigurableElementType(pParent)) { return nullptr; }
    const CConfigurableElement *p = static_cast<const CConfigurableElement *>(pParent);
    return p->getSyncer();'''),(P+'ConfigurableElement.cpp','''    if (pMineOrAscendantSyncer) {

        // Provide found syncer object
        syncerSet += pMineOrAscendantSyncer;

        // Done
        return;
    }
    // Fetch descendant ones
    fillSyncerSetFromDescendant(syncerSet);''','''    if (pMineOrAscendantSyncer == nullptr) { fillSyncerSetFromDescendant(syncerSet); } else syncerSet += pMineOrAscendantSyncer;'''),
(P+'ConfigurableElement.cpp','''    if (_configurableDomainList.empty()) {

        // No domains associated
        return true;
    }

    ConfigurableDomainListConstIterator it;

    // Browse all configurable domains for validity checking
    for (it = _configurableDomainList.begin(); it != _configurableDomainList.end(); ++it) {

        const CConfigurableDomain *pConfigurableDomain = *it;

        if (pConfigurableDomain->isApplicableConfigurationValid(this)) {

            return false;
        }
    }

    return true;''','''    return std::none_of(_configurableDomainList.begin(), _configurableDomainList.end(), [this](const CConfigurableDomain *d){ return d->isApplicableConfigurationValid(this);});'''),
(P+'ConfigurableElement.cpp','#include <','#include <algorithm>\n#include <')])
t('ice',[(P+'InstanceConfigurableElement.cpp','''    if (_pSyncer) {

        return _pSyncer;
    }
    // Check parent
    return base::getSyncer();''','    return _pSyncer != nullptr ? _pSyncer : base::getSyncer();'),
(P+'SystemClass.cpp','''        if (pSubsystem->needResync(true)) {

            infos.push_back("Resynchronizing subsystem: " + pSubsystem->getName());
            // get all subsystem syncers
            pSubsystem->fillSyncerSet(syncerSet);
        }''','''        if (!pSubsystem->needResync(true)) continue;
        pSubsystem->fillSyncerSet(syncerSet);
            infos.push_back("Resynchronizing subsystem: " + pSubsystem->getName());''')])
