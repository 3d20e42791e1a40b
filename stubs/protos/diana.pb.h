#pragma once
#include <protos/diana.grpc.pb.h>
