#pragma once
#include <memory>
#include <string>
#include <cstdint>
namespace grpc {
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5,
    ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10,
    OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16 };
class Status {
public:
    Status();
    Status(StatusCode c, const std::string& msg);
    static const Status OK;
    bool ok() const;
    StatusCode error_code() const;
    std::string error_message() const;
    std::string error_details() const;
private:
    int c_; std::string m_;
};
class ServerContext { public: ServerContext(); ~ServerContext(); };
class ClientContext { public: ClientContext(); ~ClientContext(); };
class Channel;
class ChannelInterface {};
class Channel : public ChannelInterface {};
class ChannelCredentials {};
class ServerCredentials {};
std::shared_ptr<ChannelCredentials> InsecureChannelCredentials();
std::shared_ptr<ServerCredentials> InsecureServerCredentials();
std::shared_ptr<Channel> CreateChannel(const std::string& target, const std::shared_ptr<ChannelCredentials>& c);
class Server { public: void Wait(); void Shutdown(); };
class Service { public: virtual ~Service(); };
class ServerBuilder {
public:
    ServerBuilder(); ~ServerBuilder();
    ServerBuilder& AddListeningPort(const std::string& a, std::shared_ptr<ServerCredentials> c, int* p = nullptr);
    ServerBuilder& RegisterService(Service* s);
    std::unique_ptr<Server> BuildAndStart();
};
class WriteOptions {};
template<class M> class ServerWriter { public: bool Write(const M& m); };
template<class M> class ServerReader { public: bool Read(M* m); };
template<class M> class ClientReader { public: bool Read(M* m); Status Finish(); };
template<class M> class ClientWriter { public: bool Write(const M& m); bool WritesDone(); Status Finish(); };
}
