#pragma once
#include <memory>
#include "common.hpp"
#include "kinds.hpp"
// Builds a box from field values as the specification names them.
std::unique_ptr<shiguredo::mp4::Box> make_box(const std::string& kind, const std::string& code_hex, const object& fields);
