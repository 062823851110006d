// protobuf 3.21 no longer declares google::protobuf::string; /repo/src/generator still uses the bare name.
#pragma once
#include <string>
using std::string;
