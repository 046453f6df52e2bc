import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'
START = r'''
static bool starts(const string &instances, const string &components, string mapping, string &e)
{
    Conf c;
    c.instances = instances;
    c.components = components;
    c.mapping = mapping;
    c.settings = "false";
    Pf p(c);
    return p.start(e);
}
'''
plant('same-value-set-twice', 'P33', [(P + 'MappingContext.cpp', '''    if (iSet(itemType)) {
        // Already set!
        return false;''', '''    if (iSet(itemType) && *mItems[itemType].strItem != *pStrItem) {
        // Already set!
        return false;''')], 'an element that sets a key already set above it, to the same value', 'it is accepted', START + r'''
int main()
{
    string e;
    CHECK(!starts("<IntegerParameter Name='a' Size='8' Mapping='Card:1,Fmt:a'/>", "", "Card:1", e));
    CHECK(e.find("Already set") != string::npos);
    CHECK(!starts("<IntegerParameter Name='a' Size='8' Mapping='Card:2,Fmt:a'/>", "", "Card:1", e));
    CHECK(starts("<IntegerParameter Name='a' Size='8' Mapping='Fmt:a'/>", "", "Card:1", e));
}
''')
plant('any-ancestor-is-enough', 'P33', [(P + 'Subsystem.cpp', '''                if (!context.iSet(uiAncestorKey)) {
''', '''                if (!context.iSet(uiAncestorKey) && uiAncestorMask == (1U << uiAncestorKey)) {
''')], 'an object that needs two keys set above it, of which one is missing', 'it is created all the same', START + r'''
int main()
{
    string e;
    CHECK(starts("<IntegerParameter Name='a' Size='8' Mapping='Dev:1,Need:a'/>", "", "Card:1", e));
    CHECK(!starts("<IntegerParameter Name='a' Size='8' Mapping='Need:a'/>", "", "Card:1", e));
    CHECK(!starts("<IntegerParameter Name='a' Size='8' Mapping='Dev:1,Need:a'/>", "", "", e));
    CHECK(!starts("<IntegerParameter Name='a' Size='8' Mapping='Need:a'/>", "", "", e));
}
''')
plant('last-amendment-left', 'P33', [(P + 'FormattedSubsystemObject.cpp', '(uiAmendNumber <= nbAmendKeys)', '(uiAmendNumber < nbAmendKeys)')] ,
'a mapping value with the last of the amendments the object supports', 'it stays in the formatted value as it was written', START + r'''
int main()
{
    string e;
    CHECK(starts("<IntegerParameter Name='a' Size='8' Mapping=\"Amend2:two,Fmt:'x %2 y'\"/><IntegerParameter Name='b' Size='8' Mapping='Amend2:II,Fmt:%1-%2-%3'/>", "", "Amend1:one", e));
    CHECK(rec().made == (vector<string>{"x two y", "one-II-%3"}));
}
''')
plant('mapping-empty-value-repeated', 'P33', [(P + 'MappingData.cpp', '''    if (_keyToValueMap.find(strkey) != _keyToValueMap.end()) {
''', '''    auto known = _keyToValueMap.find(strkey);
    if (known != _keyToValueMap.end() && known->second != strValue) {
''')], 'a key given twice in a mapping with the same value', 'the mapping is accepted', START + r'''
int main()
{
    string e;
    CHECK(!starts("<IntegerParameter Name='a' Size='8' Mapping='Card:1,Fmt:a,Card:1'/>", "", "", e));
    CHECK(!starts("<IntegerParameter Name='a' Size='8' Mapping='Fmt:a'/>", "", "Card,Card", e));
    CHECK(starts("<IntegerParameter Name='a' Size='8' Mapping='Fmt:a'/>", "", "Card", e));
}
''')
