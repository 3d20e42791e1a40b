#pragma once
#include <grpcpp/support/sync_stream.h>
