B='bindings/c/ParameterFramework.cpp'
t('while',[(B,'''        for (size_t valueIndex = 0; criterion.values[valueIndex] != nullptr; ++valueIndex) {''','''        size_t valueIndex = 0;
        while (criterion.values[valueIndex] != nullptr) {'''),(B,'''                                      " to criterion " + criterion.name + ": " + error);
            }
''','''                                      " to criterion " + criterion.name + ": " + error);
            }
            valueIndex++;
''')])
t('helper',[(B,'''bool PfwHandler::createCriteria(''','''static bool numerical(bool inclusive, size_t index, int &result)
{
    if (not inclusive) {
        result = static_cast<int>(index);
        return true;
    }
    if (std::numeric_limits<int>::max() >> index == 0) {
        return false;
    }
    result = 1 << index;
    return true;
}

bool PfwHandler::createCriteria('''),(B,'''            int value;
            if (criterion.inclusive) {
                // Check that (int)1 << valueIndex would not overflow (UB)
                if (std::numeric_limits<int>::max() >> valueIndex == 0) {
                    return status.failure("Too many values for criterion " +
                                          string(criterion.name));
                }
                value = 1 << valueIndex;
            } else {
                value = static_cast<int>(valueIndex);
            }
''','''            int value;
            if (not numerical(criterion.inclusive, valueIndex, value)) {
                return status.failure("Too many values for criterion " + string(criterion.name));
            }
''')])
t('perCriterion',[(B,'''    bool createCriteria(const PfwCriterion criteria[], size_t criterionNb);
''','''    bool createCriteria(const PfwCriterion criteria[], size_t criterionNb);
    bool addValues(const PfwCriterion &criterion, ISelectionCriterionTypeInterface *type);
'''),(B,'''        // Add criterion values
        for (size_t valueIndex = 0; criterion.values[valueIndex] != nullptr; ++valueIndex) {
            int value;
            if (criterion.inclusive) {
                // Check that (int)1 << valueIndex would not overflow (UB)
                if (std::numeric_limits<int>::max() >> valueIndex == 0) {
                    return status.failure("Too many values for criterion " +
                                          string(criterion.name));
                }
                value = 1 << valueIndex;
            } else {
                value = static_cast<int>(valueIndex);
            }
            const char *valueName = criterion.values[valueIndex];
            string error;
            if (not type->addValuePair(value, valueName, error)) {
                return status.failure("Could not add value " + string(valueName) +
                                      " to criterion " + criterion.name + ": " + error);
            }
        }
''','''        if (not addValues(criterion, type)) {
            return false;
        }
'''),(B,'''bool PfwHandler::createCriteria(''','''bool PfwHandler::addValues(const PfwCriterion &criterion, ISelectionCriterionTypeInterface *type)
{
    for (size_t valueIndex = 0; criterion.values[valueIndex] != nullptr; ++valueIndex) {
        int value;
        if (criterion.inclusive) {
            if (std::numeric_limits<int>::max() >> valueIndex == 0) {
                return lastStatus.failure("Too many values for criterion " + string(criterion.name));
            }
            value = 1 << valueIndex;
        } else {
            value = static_cast<int>(valueIndex);
        }
        const char *valueName = criterion.values[valueIndex];
        string error;
        if (not type->addValuePair(value, valueName, error)) {
            return lastStatus.failure("Could not add value " + string(valueName) +
                                  " to criterion " + criterion.name + ": " + error);
        }
    }
    return true;
}

bool PfwHandler::createCriteria(''')])
t('pointer',[(B,'''        for (size_t valueIndex = 0; criterion.values[valueIndex] != nullptr; ++valueIndex) {''','''        size_t valueIndex = 0;
        for (const char **item = criterion.values; *item != nullptr; ++item, ++valueIndex) {''')])
t('outer',[(B,'''    for (size_t criterionIndex = 0; criterionIndex < criterionNb; ++criterionIndex) {
        const PfwCriterion &criterion = criteriaArray[criterionIndex];''','''    const PfwCriterion *const last = criteriaArray + criterionNb;
    for (const PfwCriterion *current = criteriaArray; current != last; ++current) {
        const PfwCriterion &criterion = *current;''')])
t('count',[(B,'''if (criteria.find(criterion.name) != criteria.end()) {''','''if (criteria.count(criterion.name) > 0) {''')])
t('emplace',[(B,'''        criteria[criterion.name] = pfw->createSelectionCriterion(criterion.name, type);''','''        auto *created = pfw->createSelectionCriterion(criterion.name, type);
        criteria.emplace(criterion.name, created);''')])
t('start',[(B,'''    if (not handle->createCriteria(criteria, criterionNb) or
        not handle->pfw->start(status.msg())) {''','''    const bool started =
        handle->createCriteria(criteria, criterionNb) and handle->pfw->start(status.msg());
    if (not started) {''')])
t('stop',[(B,'''        // Not started: come back to the initial state
        handle->criteria.clear();
        delete handle->pfw;
        handle->pfw = nullptr;
''','''        reset(*handle);
'''),(B,'''bool pfwStart(''','''static void reset(PfwHandler &handle)
{
    delete handle.pfw;
    handle.pfw = nullptr;
    handle.criteria.clear();
}

bool pfwStart(''')])
t('find',[(B,'''    pfw::Criterion *criterion = getCriterion(handle->criteria, name);
    if (criterion == nullptr) {
        return status.failure("Can not set''','''    auto it = handle->criteria.find(name);
    pfw::Criterion *criterion = it != handle->criteria.end() ? it->second : nullptr;
    if (not criterion) {
        return status.failure("Can not set''')])
t('fwd',[(B,'''    return status.forward(handle->parameter.setAsSignedInteger(value, status.msg()));''','''    if (not handle->parameter.setAsSignedInteger(value, status.msg())) {
        return Status::failure();
    }
    return status.success();''')])
t('str',[(B,'''    *value = nullptr;
    string retValue;
    bool success = handle->parameter.getAsString(retValue, status.msg());
    if (not success) {
        return status.forward();
    }
''','''    string retValue;
    if (not handle->parameter.getAsString(retValue, status.msg())) {
        *value = nullptr;
        return false;
    }
''')])
t('started',[(B,'''    if (handle->pfw == nullptr) {
        return status.failure("Can not commit criteria "
                              "as the parameter framework is not started.");
    }
    handle->pfw->applyConfigurations();
    return status.success();''','''    auto *pfw = handle->pfw;
    if (pfw) {
        pfw->applyConfigurations();
        return status.success();
    }
    return status.failure("Can not commit criteria as the parameter framework is not started.");''')])
