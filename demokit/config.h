#define HAVE_ASSERT_H 1
#define HAVE_DLFCN_H 1
#define HAVE_EPOLL 1
#define HAVE_GETADDRINFO 1
#define HAVE_GETNAMEINFO 1
#define HAVE_INTTYPES_H 1
#define HAVE_IP6 1
#define HAVE_LIBCRYPTO 1
#define HAVE_LIBDL 1
#define HAVE_LIBPCRE 1
#define HAVE_LIBPTHREAD 1
#define HAVE_LIBSSL 1
#define HAVE_MALLOC 1
#define HAVE_MEMSET 1
#define HAVE_OPENSSL_SSL_H 1
#define HAVE_PCRE_H 1
#define HAVE_REALLOC 1
#define HAVE_SOCKADDR_IN6 1
#define HAVE_SOCKADDR_STORAGE 1
#define HAVE_SOCKADDR_UN 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE__BOOL 1
#define HOST_OS "linux-gnu"
#define LT_OBJDIR ".libs/"
#define PACKAGE "viriatum"
#define PACKAGE_BUGREPORT "development@hive.pt"
#define PACKAGE_NAME "viriatum"
#define PACKAGE_STRING "viriatum 1.0.0"
#define PACKAGE_TARNAME "viriatum"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "1.0.0"
#define STDC_HEADERS 1
#define VERSION "1.0.0"
#define WITH_CONFIG_ROOT "cfg"
#define WITH_MODULE_ROOT "mods"
#define WITH_PREFIX "/usr/local"
#define WITH_WWW_ROOT "www"
