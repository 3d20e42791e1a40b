#pragma once
#include <sse/crypto/d/key.inc>
#include <sse/crypto/d/prg.inc>
#include <sse/crypto/d/hash.inc>
#include <sse/crypto/d/prf.inc>
#include <sse/crypto/d/tdp.inc>
#include <sse/crypto/d/rcprf.inc>
#include <sse/crypto/d/wrapper.inc>
#include <sse/crypto/d/random.inc>
#include <sse/crypto/d/puncturable_enc.inc>
