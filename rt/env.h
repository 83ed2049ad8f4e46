// Model of the operating system under the library: file system, stdio streams, clock, terminal, ids.  The same code runs under
// the symbolic engine and in the native replay (there it is linked in with -Wl,--wrap).  Every call may be made to fail: which
// ones do is a symbolic choice.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <ctime>
#include <iosfwd>
#include <string>
namespace env {
enum Op { OPEN = 1, FDOPEN = 2, FCLOSE = 4, FFLUSH = 8, FWRITE = 16, FSTAT = 32, STAT = 64, MKDIR = 128, REMOVE = 256, FSYNC = 512, RENAME = 1024 };
// --- faults
extern unsigned fault_ops;        // operations that may fail
extern int faults;                // how many failures may still be injected (each occurrence is a symbolic choice)
extern bool sticky;               // a failed kind of operation keeps failing until heal()
extern int failed_calls;          // operations that failed because of an injected fault
void heal();
// --- observations
extern int errors;                // error reports written to stderr through printf-like calls
extern bool report_text;           // they are also formatted and appended to err
extern int writes_to_null;        // stdio calls on a null stream
extern int fsyncs;
// --- file system
void mkfile(const char *path, const void *p, size_t n);
void mkdir(const char *path);
void erase(const char *path);                      // removed behind the library's back
bool exists(const char *path);
bool isdir(const char *path);
size_t fsize(const char *path);                   // committed bytes; sym_fail if it does not exist
const unsigned char *fdata(const char *path);
int nfiles();                                     // regular files
int open_fds();                                   // descriptors opened and not closed
extern bool blind; extern const char *last_opened;        // paths are not looked at
int open_streams();                               // streams opened and not closed
bool has(const char *path, size_t off, const void *p, size_t n);      // content equals (may be symbolic)
// --- standard streams
struct Std { unsigned char *data; size_t len, cap; size_t flushed; int flushes; int writes; bool tty; };
extern Std out, err;
// --- std::ostream: an object that only records (write, put, flush); not thread safe, like the real one
struct Ost { unsigned char *data; size_t len, cap; int writes, flushes; };
extern Ost ost; std::ostream &ostream();
extern bool io_points;                            // every stream operation is a scheduling point
// --- clock and calendar
extern int64_t now_ns;                            // system clock
extern int64_t step_ns;                           // added after every reading
extern int64_t (*now_hook)();                     // replaces now_ns if set
extern bool (*tm_hook)(time_t, struct tm *);      // calendar; default: fixed date
// --- ids and environment
extern size_t pid_v;
extern size_t (*tid_hook)();                      // kernel thread id, default 1000 + thread index
extern const char *env_colorterm, *env_term;
}
