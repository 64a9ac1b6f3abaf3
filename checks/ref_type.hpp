// Independent recogniser of the cell type grammar (property C01).
#ifndef VERIF_REF_TYPE_HPP
#define VERIF_REF_TYPE_HPP
#include "parser/type_checker.hpp"
#include <string>
inline bool dig(char c) { return c >= '0' && c <= '9'; }

// Independent recogniser: a small state machine over the grammar in the property.
inline EdgeLearning::TypeChecker::Type ref_type(const std::string& s) {
    if (s.empty()) return EdgeLearning::TypeChecker::Type::NONE;
    if (s == "true" || s == "false") return EdgeLearning::TypeChecker::Type::BOOL;
    size_t i = 0, n = s.size();
    if (s[0] == '+' || s[0] == '-') i = 1;
    size_t d0 = i; while (i < n && dig(s[i])) ++i;
    size_t intdigits = i - d0;
    if (i == n && intdigits > 0) {
        if (intdigits == 1 || s[d0] != '0') return EdgeLearning::TypeChecker::Type::INT;
        return EdgeLearning::TypeChecker::Type::FLOAT;
    }
    size_t frac = 0; bool dot = false;
    if (i < n && s[i] == '.') { dot = true; ++i; size_t f = i; while (i < n && dig(s[i])) ++i; frac = i - f; }
    if (dot ? frac == 0 : intdigits == 0) return EdgeLearning::TypeChecker::Type::STRING;
    if (i == n) return EdgeLearning::TypeChecker::Type::FLOAT;
    if (s[i] != 'e' && s[i] != 'E') return EdgeLearning::TypeChecker::Type::STRING;
    ++i;
    if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
    size_t e0 = i; while (i < n && dig(s[i])) ++i;
    return (i == n && i > e0) ? EdgeLearning::TypeChecker::Type::FLOAT : EdgeLearning::TypeChecker::Type::STRING;
}

#endif
