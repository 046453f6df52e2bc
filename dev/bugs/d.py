import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'

plant('byte-word-out-of-range', 'P16', [(P + 'ParameterMgr.cpp', '''    auto first = remoteCommand.getArguments().cbegin() + 1;
    auto last = remoteCommand.getArguments().cend();

    try {
        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
            uint8_t byte;

            if (!convertTo(input, byte)) {
                throw std::domain_error("Some values out of byte range");
            }

            return byte;
        });
''', '''    auto first = remoteCommand.getArguments().cbegin() + 1;
    auto last = remoteCommand.getArguments().cend();

    try {
        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
            uint32_t byte;

            if (!convertTo(input, byte)) {
                throw std::domain_error("Some values out of byte range");
            }

            return static_cast<uint8_t>(byte);
        });
''')], 'setElementBytes with a number greater than 255', 'the command stores another byte instead of refusing the request', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='16' Mapping='Rec:a'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    CHECK(p.cmd("setElementBytes", {"/test/test/a", "1", "2"}));
    CHECK(p.get("/test/test/a") == "513");
    string out;
    CHECK(!p.cmd("setElementBytes", {"/test/test/a", "257", "3"}, &out));
    CHECK(p.get("/test/test/a") == "513");
}
''')

plant('rule-words-dropped', 'P16', [(P + 'ParameterMgr.cpp', '''remoteCommand.packArguments(2, remoteCommand.getArgumentCount() - 2),
                              strResult)''', '''remoteCommand.getArgument(2), strResult)''')], 'a rule sent as several words', 'only the first word of the rule is used', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='16' Mapping='Rec:a'/>";
    Pf p(c);
    p.createSelectionCriterionType();
    auto t = p.createSelectionCriterionType(true);
    string e;
    CHECK(t->addValuePair(1, "r", e));
    p.createSelectionCriterion("crit", t);
    p.up();
    CHECK(p.tune());
    CHECK(p.cmd("createDomain", {"d"}));
    CHECK(p.cmd("createConfiguration", {"d", "c"}));
    string s;
    CHECK(p.cmd("setRule", {"d", "c", "All{crit", "Includes", "r}"}));
    CHECK(p.cmd("getRule", {"d", "c"}, &s));
    CHECK(s.find("crit Includes r") != string::npos);
}
''')
