#include "vc.h"
#include "vc_yaml_hooks.h"
#ifndef VC_YAML_HAS
bool vc_yaml_has(const char *) { return true; }
#endif
#ifndef VC_YAML_SIZE
int vc_yaml_size(const char *) { return 3; }
#endif
void vc_yaml_get(const char *key, int ix, double &v) { v = __vc_yreal(key, ix); }
void vc_yaml_get(const char *key, int ix, float &v) { v = (float)__vc_yreal(key, ix); }
void vc_yaml_get(const char *key, int ix, int &v) { v = (int)__vc_yint(key, ix); }
void vc_yaml_get(const char *key, int ix, long &v) { v = (long)__vc_yint(key, ix); }
void vc_yaml_get(const char *key, int ix, unsigned int &v) { v = (unsigned)__vc_yint(key, ix); }
void vc_yaml_get(const char *key, int ix, bool &v) { v = __vc_ybool(key, ix); }
#ifndef VC_YAML_STRING
void vc_yaml_get(const char *, int, std::string &v) { v = std::string(); }
#endif
