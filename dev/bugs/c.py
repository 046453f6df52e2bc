import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
P = 'parameter/'

plant('resume-after-failed-access', 'P26', [(P + 'SubsystemObject.cpp', '''    // Access index init
    _accessedIndex = 0;

''', ''), (P + 'SubsystemObject.cpp', '''        return false;
    }

    return true;
}

// Sync to/from HW''', '''        return false;
    }

    // Everything was exchanged: the next access starts over
    _accessedIndex = 0;

    return true;
}

// Sync to/from HW''')], 'a transmission that fails after part of the element was exchanged, then another one',
      'the next transmission of the element continues where the failed one stopped', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='16' Mapping='Rec:a'/><IntegerParameter Name='b' Size='16'/>"
                  "<IntegerParameter Name='x' Size='32'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    CHECK(p.set("/test/test/a", "258"));
    rec().fail["a"] = "no";
    CHECK(!p.set("/test/test/a", "515"));
    rec().fail.clear();
    CHECK(p.set("/test/test/a", "772"));
    auto &b = rec().log.back().bytes;
    CHECK(b.size() == 2 && b[0] == 4 && b[1] == 3);
}
''')

plant('ask-no-more-after-failure', 'P26', [(P + 'SyncerSet.cpp', '''    bool bSuccess = true;

    std::string strError;
''', '''    bool bSuccess = true;
    std::string strLastError;
'''), (P + 'SyncerSet.cpp', '''        ISyncer *pSyncer = *it;
''', '''        ISyncer *pSyncer = *it;
        std::string strError;
'''), (P + 'SyncerSet.cpp', '''            if (errors != nullptr) {

                errors->push_back(strError);
            }''', '''            // Do not repeat the same failure for every element
            if (errors != nullptr && strError != strLastError) {

                errors->push_back(strError);
            }
            strLastError = strError;''')], 'two objects of a set fail with the same text',
      'the second failure is not in the errors', r'''
int main()
{
    Conf c;
    c.instances = "<IntegerParameter Name='a' Size='16' Mapping='Rec:a'/><IntegerParameter Name='b' Size='16' Mapping='Rec:b'/>";
    Pf p(c);
    p.up();
    CHECK(p.tune());
    CHECK(p.setAutoSync(false, p.err));
    rec().fail["a"] = rec().fail["b"] = "broken";
    p.err.clear();
    CHECK(!p.sync(p.err));
    size_t i = p.err.find("broken");
    CHECK(i != string::npos && p.err.find("broken", i + 1) != string::npos);
}
''')
