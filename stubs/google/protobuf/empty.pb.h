#pragma once
namespace google { namespace protobuf { class Empty { public: Empty(); ~Empty(); }; } }
