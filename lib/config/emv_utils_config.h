/* Stand-in for the header that CMake generates; only feature macros */
#ifndef EMV_UTILS_CONFIG_H
#define EMV_UTILS_CONFIG_H
#define EMV_UTILS_VERSION_STRING "verif"
#define HAVE_TIME_H
#define HAVE_TIMESPEC_GET
#endif
