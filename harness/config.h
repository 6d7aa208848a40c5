/* stands in for the config.h the project's build generates */
#ifndef VT_CONFIG_H
#define VT_CONFIG_H
#define BUILD_ENABLE_DEBUG 1
#endif
