#ifndef VC_YAML_HOOKS
#define VC_YAML_HOOKS
#include <string>
bool vc_yaml_has(const char *key); int vc_yaml_size(const char *key);
void vc_yaml_get(const char *key, int ix, double &v); void vc_yaml_get(const char *key, int ix, int &v);
void vc_yaml_get(const char *key, int ix, bool &v); void vc_yaml_get(const char *key, int ix, std::string &v);
void vc_yaml_get(const char *key, int ix, unsigned int &v); void vc_yaml_get(const char *key, int ix, float &v);
void vc_yaml_get(const char *key, int ix, long &v);
#endif
