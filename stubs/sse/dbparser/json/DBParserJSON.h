#pragma once
#include <functional>
#include <list>
#include <string>
namespace dbparser {
class DBParserJSON {
public:
    explicit DBParserJSON(const std::string& path);
    void addCallbackList(std::function<void(const std::string, const std::list<unsigned>)> cb);
    void addCallbackPair(std::function<void(const std::string, unsigned)> cb);
    void parse();
};
}
