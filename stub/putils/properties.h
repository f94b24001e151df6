/* system properties as libputils declares them; simulated */
#ifndef _PUTILS_PROPERTIES_H_
#define _PUTILS_PROPERTIES_H_
#include <stdlib.h>
#define SYS_PROP_VALUE_MAX 92
int sys_prop_get(const char *key, char *value, const char *default_value);
int sys_prop_set(const char *key, const char *value);
#endif
