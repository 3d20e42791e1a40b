#pragma once
#include <protos/sophos.grpc.pb.h>
