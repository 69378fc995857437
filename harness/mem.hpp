// A file in memory with the interface of fits_stream, for the templates that read from or write to one.
#ifndef VERIF_MEM_HPP
#define VERIF_MEM_HPP
#include <cstddef>
#include <stdexcept>
#include <string>
struct Mem {
    std::string s; std::size_t at;
    explicit Mem(std::string const& t = std::string()) : s(t), at(0) {}
    bool is_open() { return true; }
    void set_reading_pos(std::size_t p) { at = p; }
    unsigned char get() { if (at >= s.size()) throw std::runtime_error("source ends"); return (unsigned char)s[at++]; }
    std::size_t get_current_pos() { return at; }
    bool write(std::string const& d) { if (at > s.size()) s.resize(at, '\0'); s.replace(at, d.size(), d); at += d.size(); return true; }
    bool write(std::string const& d, std::size_t p) { at = p; return write(d); }
    std::string read(std::size_t n) { if (at + n > s.size()) throw std::runtime_error("source ends"); at += n; return s.substr(at - n, n); }
    bool at_end() { return at >= s.size(); }
    void close() {}
    void set_unit_end() { at = find_unit_end(); }
    std::size_t find_unit_end() { return (at + 2879) / 2880 * 2880; }
};
#endif
