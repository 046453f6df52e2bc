// Recording subsystem shared by the demo program and the plug-in: what was transmitted, in which order.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
struct Sent
{
    std::string name;
    std::vector<uint8_t> bytes;
};
struct Rec
{
    std::vector<Sent> log;
    std::map<std::string, std::string> fail; // mapping value -> error
    std::map<std::string, std::vector<uint8_t>> hw;
    std::vector<std::string> made; // formatted objects, in the order of their creation
    void (*during)() = nullptr; // called once in the middle of a transmission
};
extern "C" Rec &rec();
