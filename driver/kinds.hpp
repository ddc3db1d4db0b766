#pragma once
#include <string>
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_header.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box/unsupported.hpp"
// names of the kinds of boxes as the specification uses them
bool is_kind(shiguredo::mp4::Box*, const std::string&);
std::string kind_of(shiguredo::mp4::Box*);
shiguredo::mp4::BoxType type_of(const std::string& hex);
std::string type_hex(const shiguredo::mp4::BoxType&);
