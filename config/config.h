// gen/config.h
#ifndef BFS_CONFIG_H
#define BFS_CONFIG_H
#define BFS_WITH_LIBACL true
#define BFS_WITH_LIBCAP true
#define BFS_WITH_LIBSELINUX true
#define BFS_WITH_LIBURING true
#define BFS_WITH_ONIGURUMA true
#define BFS_HAS___ST_BIRTHTIM false
#define BFS_HAS__FORK true
#define BFS_HAS_ACL_GET_ENTRY true
#define BFS_HAS_ACL_GET_FILE true
#define BFS_HAS_ACL_GET_TAG_TYPE true
#define BFS_HAS_ACL_IS_TRIVIAL_NP false
#define BFS_HAS_ACL_TRIVIAL false
#define BFS_HAS_BUILTIN_RISCV_PAUSE false
#define BFS_HAS_CONFSTR true
#define BFS_HAS_DPRINTF true
#define BFS_HAS_EXTATTR_GET_FILE false
#define BFS_HAS_EXTATTR_GET_LINK false
#define BFS_HAS_EXTATTR_LIST_FILE false
#define BFS_HAS_EXTATTR_LIST_LINK false
#define BFS_HAS_FDCLOSEDIR false
#define BFS_HAS_GETDENTS false
#define BFS_HAS_GETDENTS64_SYSCALL true
#define BFS_HAS_GETDENTS64 true
#define BFS_HAS_GETMNTENT_1 true
#define BFS_HAS_GETMNTENT_2 false
#define BFS_HAS_GETMNTINFO false
#define BFS_HAS_GETPROGNAME_GNU true
#define BFS_HAS_GETPROGNAME false
#define BFS_HAS_IO_URING_MAX_WORKERS true
#define BFS_HAS_PIPE2 true
#define BFS_HAS_PRAGMA_NOUNROLL false
#define BFS_HAS_POSIX_GETDENTS false
#define BFS_HAS_POSIX_SPAWN_ADDFCHDIR_NP true
#define BFS_HAS_POSIX_SPAWN_ADDFCHDIR false
#define BFS_HAS_PTHREAD_SET_NAME_NP false
#define BFS_HAS_PTHREAD_SETNAME_NP true
#define BFS_HAS_SCHED_GETAFFINITY true
#define BFS_HAS_ST_ACMTIM true
#define BFS_HAS_ST_ACMTIMESPEC false
#define BFS_HAS_ST_BIRTHTIM false
#define BFS_HAS_ST_BIRTHTIMESPEC false
#define BFS_HAS_ST_FLAGS false
#define BFS_HAS_STATX_SYSCALL true
#define BFS_HAS_STATX true
#define BFS_HAS_STRERROR_L true
#define BFS_HAS_STRERROR_R_GNU true
#define BFS_HAS_STRERROR_R_POSIX false
#define BFS_HAS_STRING_TO_FLAGS false
#define BFS_HAS_STRTOFFLAGS false
#define BFS_HAS_TCGETWINSIZE false
#define BFS_HAS_TCSETWINSIZE false
#define BFS_HAS_TIMEGM true
#define BFS_HAS_TIMER_CREATE true
#define BFS_HAS_TM_GMTOFF true
#define BFS_HAS_USELOCALE true
#endif // BFS_CONFIG_H
