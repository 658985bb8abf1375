"""Which undefined symbols of bin/base64.c lead into the simulated operating system."""
import re
FUNCS = """read write writev pwrite open open64 openat close fopen fopen64 fdopen freopen freopen64 fclose exit _exit _Exit abort malloc calloc realloc reallocarray free
aligned_alloc posix_memalign printf vprintf puts putchar perror fileno isatty signal sigaction fstat fstat64 poll select mmap mmap64 munmap lseek lseek64
posix_fadvise posix_fadvise64 fcntl fcntl64 usleep nanosleep sleep sched_yield setvbuf fsync fdatasync err errx warn warnx error dup dup2 pause atexit
getchar getchar_unlocked putchar_unlocked ungetc_stdin splice sendfile ioctl time clock_gettime gettimeofday getenv secure_getenv pread pread64 readv tcgetattr stat stat64 lstat lstat64 access ftruncate ftruncate64 fallocate posix_fallocate copy_file_range
getpid rand random srand srandom getrandom __fprintf_chk __printf_chk""".split()
VARS = "stdin stdout stderr".split()
def redefs(k, nm):
    und = {m.group(1) for m in re.finditer(r" U (\S+)", nm)}
    out = [("main", "cli%d_main" % k)]
    out += [(v, "cli%d_%s" % (k, v)) for v in VARS]
    out += [(f, "cli_" + f) for f in FUNCS if f in und]
    # C23-style names some compilers emit
    out += [("__isoc99_" + f, f) for f in ("sscanf",)] 
    return out
