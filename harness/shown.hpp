// What was printed: the text with every number replaced by #, and the numbers.
#ifndef VERIF_SHOWN_HPP
#define VERIF_SHOWN_HPP
#include "proto.hpp"
inline void shown(proto::Obs& o, std::string const& s) {
    std::string text; std::vector<std::string> nums;
    for (std::size_t i = 0; i < s.size();) {
        bool digit = std::isdigit((unsigned char)s[i]) || ((s[i] == '-' || s[i] == '+') && i + 1 < s.size() && std::isdigit((unsigned char)s[i + 1]));
        bool word = i > 0 && std::isalpha((unsigned char)s[i - 1]);   // a digit inside a name (m2) is not a number
        if (digit && !word) { char* e; double v = std::strtod(s.c_str() + i, &e); i = e - s.c_str(); text += '#'; nums.push_back("\"" + proto::Obs::d17(v) + "\""); }
        else text += s[i++];
    }
    o.str("text", text); o.raw("nums", proto::jarr(nums));
}
#endif
