#pragma once
#include <grpcpp/grpcpp.h>
#include <google/protobuf/empty.pb.h>
namespace sse { namespace diana {
class SetupMessage {
public:
    SetupMessage(); ~SetupMessage(); SetupMessage(const SetupMessage&); SetupMessage& operator=(const SetupMessage&);
    const std::string& wrapping_key() const; void set_wrapping_key(const std::string& v); void set_wrapping_key(std::string&& v); void set_wrapping_key(const char* v); void set_wrapping_key(const void* v, size_t n); std::string* mutable_wrapping_key();
};
class SearchRequestMessage {
public:
    SearchRequestMessage(); ~SearchRequestMessage(); SearchRequestMessage(const SearchRequestMessage&); SearchRequestMessage& operator=(const SearchRequestMessage&);
    const std::string& constrained_rcprf_rep() const; void set_constrained_rcprf_rep(const std::string& v); void set_constrained_rcprf_rep(std::string&& v); void set_constrained_rcprf_rep(const char* v); void set_constrained_rcprf_rep(const void* v, size_t n); std::string* mutable_constrained_rcprf_rep();
    uint32_t add_count() const; void set_add_count(uint32_t v);
    const std::string& kw_token() const; void set_kw_token(const std::string& v); void set_kw_token(std::string&& v); void set_kw_token(const char* v); void set_kw_token(const void* v, size_t n); std::string* mutable_kw_token();
};
class SearchReply {
public:
    SearchReply(); ~SearchReply(); SearchReply(const SearchReply&); SearchReply& operator=(const SearchReply&);
    uint64_t result() const; void set_result(uint64_t v);
};
class UpdateRequestMessage {
public:
    UpdateRequestMessage(); ~UpdateRequestMessage(); UpdateRequestMessage(const UpdateRequestMessage&); UpdateRequestMessage& operator=(const UpdateRequestMessage&);
    const std::string& update_token() const; void set_update_token(const std::string& v); void set_update_token(std::string&& v); void set_update_token(const char* v); void set_update_token(const void* v, size_t n); std::string* mutable_update_token();
    uint64_t index() const; void set_index(uint64_t v);
};
class Diana {
public:
    class Service : public ::grpc::Service {
    public:
        Service(); virtual ~Service();
        virtual ::grpc::Status setup(::grpc::ServerContext* c, const SetupMessage* m, ::google::protobuf::Empty* e);
        virtual ::grpc::Status search(::grpc::ServerContext* c, const SearchRequestMessage* m, ::grpc::ServerWriter<SearchReply>* w);
        virtual ::grpc::Status insert(::grpc::ServerContext* c, const UpdateRequestMessage* m, ::google::protobuf::Empty* e);
        virtual ::grpc::Status bulk_insert(::grpc::ServerContext* c, ::grpc::ServerReader<UpdateRequestMessage>* r, ::google::protobuf::Empty* e);
    };
    class Stub {
    public:
        ::grpc::Status setup(::grpc::ClientContext* c, const SetupMessage& m, ::google::protobuf::Empty* e);
        std::unique_ptr<::grpc::ClientReader<SearchReply>> search(::grpc::ClientContext* c, const SearchRequestMessage& m);
        ::grpc::Status insert(::grpc::ClientContext* c, const UpdateRequestMessage& m, ::google::protobuf::Empty* e);
        std::unique_ptr<::grpc::ClientWriter<UpdateRequestMessage>> bulk_insert(::grpc::ClientContext* c, ::google::protobuf::Empty* e);
    };
    static std::unique_ptr<Stub> NewStub(const std::shared_ptr<::grpc::ChannelInterface>& c);
};
} }
