#pragma once
#include <string>
std::string tx_payload(int m, size_t n);
std::string tx_body(int m, size_t n); // tagged text of message m with a payload of n characters
void tx_wipe(std::string& s);
