// stand-in for yaml-cpp: a configuration is an arbitrary map; the value of key K is whatever the harness decides
#ifndef VC_YAML
#define VC_YAML
#include "vc_yaml_hooks.h"
#include <string>
#include <vector>
#include <istream>
namespace YAML {
struct Node {
    const char *key; int ix, outer;    // outer: position in the enclosing list of maps (entry index + 1000 * (position + 1))
    Node() : key(""), ix(-1), outer(-1) {}
    Node(const char *k, int i = -1, int o = -1) : key(k), ix(i), outer(o) {}
    int at() const { return outer < 0 ? ix : ix + 1000 * (outer + 1); }
    int in() const { return ix >= 0 ? ix : outer; }
    explicit operator bool() const { return vc_yaml_has(key); }
    bool IsDefined() const { return vc_yaml_has(key); }
    int size() const { return vc_yaml_size(key); }
    Node operator[](const std::string &s) const { return Node(s.c_str(), -1, in()); }
    Node operator[](const char *s) const { return Node(s, -1, in()); }
    Node operator[](int i) const { return Node(key, i, outer); }
    Node operator[](size_t i) const { return Node(key, (int)i, outer); }
    Node operator[](unsigned i) const { return Node(key, (int)i, outer); }
    template <class T> T as() const { T t; vc_yaml_get(key, at(), t); return t; }
    template <class T> T as(const T &) const { T t; vc_yaml_get(key, at(), t); return t; }
    struct iterator { const char *key; int i, outer; Node operator*() const { return Node(key, i, outer); } iterator &operator++() { i++; return *this; } bool operator!=(const iterator &o) const { return i != o.i; } };
    iterator begin() const { return iterator{key, 0, outer}; } iterator end() const { return iterator{key, vc_yaml_size(key), outer}; }
};
inline Node LoadFile(const std::string &) { return Node(); }
inline Node Load(const std::string &) { return Node(); }
}
#endif
