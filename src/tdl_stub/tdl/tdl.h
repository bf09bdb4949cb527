// A stand-in for the tool description library (https://github.com/deNBI-cibi/tool_description_lib), which is not available
// in this environment. It has the types that sharg uses; the two converters print the data they are given line by line.
#pragma once
#include <cstdint>
#include <set>
#include <string>
#include <variant>
#include <vector>

namespace tdl
{
using BoolValue = bool;
using IntValue = int64_t;
using DoubleValue = double;
using StringValue = std::string;
using BoolValueList = std::vector<BoolValue>;
using IntValueList = std::vector<IntValue>;
using DoubleValueList = std::vector<DoubleValue>;
using StringValueList = std::vector<StringValue>;

struct Node
{
    using Children = std::vector<Node>;
    using Value = std::variant<BoolValue, IntValue, DoubleValue, StringValue, IntValueList, DoubleValueList, StringValueList, Children>;

    std::string name{};
    std::string description{};
    std::set<std::string> tags{};
    Value value{Children{}};
};
struct CLIMapping
{
    std::string optionIdentifier{};
    std::string referenceName{};
};
struct MetaInfo
{
    std::string version{};
    std::string name{};
    std::string docurl{};
    std::string category{};
    std::string description{};
    std::string executableName{};
    std::vector<std::string> citations{};
};
struct ToolInfo
{
    MetaInfo metaInfo{};
    Node::Children params{};
    std::vector<CLIMapping> cliMapping{};
};

inline std::string show_nodes(Node::Children const & nodes, std::string const & indent)
{
    std::string r;
    for (auto & n : nodes)
    {
        std::string v;
        auto list = [&](auto const & l, std::string type, auto print)
        {
            v = "list of " + type + " [";
            for (auto const & x : l)
                v += print(x) + ",";
            v += "]";
        };
        auto number = [](auto x) { return std::to_string(x); };
        auto text = [](std::string const & x) { return "<" + x + ">"; };
        switch (n.value.index())
        {
        case 0: v = std::string{"bool "} + (std::get<0>(n.value) ? "true" : "false"); break;
        case 1: v = "int " + number(std::get<1>(n.value)); break;
        case 2: v = "double " + number(std::get<2>(n.value)); break;
        case 3: v = "string " + text(std::get<3>(n.value)); break;
        case 4: list(std::get<4>(n.value), "int", number); break;
        case 5: list(std::get<5>(n.value), "double", number); break;
        case 6: list(std::get<6>(n.value), "string", text); break;
        case 7: v = "node"; break;
        }
        r += indent + "param <" + n.name + "> " + v + " tags";
        for (auto & t : n.tags)
            r += " " + t;
        r += " description <" + n.description + ">\n";
        if (n.value.index() == 7)
            r += show_nodes(std::get<7>(n.value), indent + "  ");
    }
    return r;
}
inline std::string show(ToolInfo const & i)
{
    std::string r = "version <" + i.metaInfo.version + "> name <" + i.metaInfo.name + "> url <" + i.metaInfo.docurl + "> executable <"
                  + i.metaInfo.executableName + "> description <" + i.metaInfo.description + ">\n";
    r += show_nodes(i.params, "");
    for (auto & m : i.cliMapping)
        r += "map <" + m.optionIdentifier + "> <" + m.referenceName + ">\n";
    return r;
}
inline std::string convertToCTD(ToolInfo const & i) { return "CTD\n" + show(i); }
inline std::string convertToCWL(ToolInfo const & i) { return "CWL\n" + show(i); }
} // namespace tdl
