/*
 * Stand-ins for the calls by which a creation gets at its files.  They let the real call happen
 * first; a call that succeeded is counted and logged, and the chosen ones are undone and reported
 * as failed, so that the numbering is that of the undisturbed run.
 */
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/resource.h>

static int ft_on;            /* inside the call under observation */
static int ft_first, ft_last; /* which successes to turn into failures, from 1 */
static unsigned long ft_mask; /* ... and which kinds */
static int ft_errno, ft_count, ft_hits;
static char ft_log[1<<17];
static size_t ft_len;

enum { FT_OPEN=1, FT_FOPEN=2, FT_MMAP=4, FT_DLOPEN=8, FT_OPENDIR=16, FT_REALPATH=32 };

static int ft_fail(int kind, const char *name, const char *what){
	if(!ft_on || !(ft_mask & kind))
		return 0;
	ft_count+=1;
	if(ft_len+strlen(name)*2+64 < sizeof(ft_log)){
		const unsigned char *p;
		ft_len+=sprintf(ft_log+ft_len, "%s%s:", ft_len ? "," : "", what);
		for(p=(const unsigned char *)name;*p;++p)
			ft_len+=sprintf(ft_log+ft_len, "%02x", *p);
	}
	if(ft_count>=ft_first && ft_count<=ft_last){
		ft_hits+=1;
		return 1;
	}
	return 0;
}

#define REAL(type, name) static type real; if(!real) real=(type)dlsym(RTLD_NEXT, name)

typedef int (*open_t)(const char *, int, ...);
int open(const char *p, int flags, ...){
	REAL(open_t, "open");
	va_list ap;
	va_start(ap, flags);
	int m=(flags & O_CREAT) ? va_arg(ap, int) : 0;
	va_end(ap);
	int fd=real(p, flags, m);
	if(fd>=0 && ft_fail(FT_OPEN, p, "open")){
		close(fd);
		errno=ft_errno;
		return -1;
	}
	return fd;
}

typedef FILE *(*fopen_t)(const char *, const char *);
FILE *fopen(const char *p, const char *m){
	REAL(fopen_t, "fopen");
	FILE *f=real(p, m);
	if(f && ft_fail(FT_FOPEN, p, "fopen")){
		fclose(f);
		errno=ft_errno;
		return NULL;
	}
	return f;
}

typedef void *(*mmap_t)(void *, size_t, int, int, int, off_t);
void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o){
	REAL(mmap_t, "mmap");
	void *m=real(a, l, pr, fl, fd, o);
	if(m!=MAP_FAILED && fd>=0 && ft_fail(FT_MMAP, "", "mmap")){
		munmap(m, l);
		errno=ft_errno;
		return MAP_FAILED;
	}
	return m;
}

typedef void *(*dlopen_t)(const char *, int);
void *dlopen(const char *p, int fl){
	REAL(dlopen_t, "dlopen");
	void *h=real(p, fl);
	if(h && ft_fail(FT_DLOPEN, p?p:"", "dlopen")){
		dlclose(h);
		errno=ft_errno;
		return NULL;
	}
	return h;
}

typedef DIR *(*opendir_t)(const char *);
DIR *opendir(const char *p){
	REAL(opendir_t, "opendir");
	DIR *d=real(p);
	if(d && ft_fail(FT_OPENDIR, p, "opendir")){
		closedir(d);
		errno=ft_errno;
		return NULL;
	}
	return d;
}

typedef char *(*realpath_t)(const char *, char *);
char *realpath(const char *p, char *buf){
	REAL(realpath_t, "realpath");
	char *r=real(p, buf);
	if(r && ft_fail(FT_REALPATH, p, "realpath")){
		if(buf)
			memset(buf, '?', 64);
		else
			free(r);
		errno=ft_errno;
		return NULL;
	}
	return r;
}

/* descriptor output: the system takes only a part of it, or none because of a signal */
static unsigned sw_seed; /* 0: as usual */
static int sw_fd=-1;
static int sw_hits;

typedef ssize_t (*write_t)(int, const void *, size_t);
ssize_t write(int fd, const void *p, size_t l){
	REAL(write_t, "write");
	if(sw_seed && fd==sw_fd){
		sw_seed=(sw_seed*1103515245u+12345u)|1;
		unsigned v=sw_seed>>8;
		if(v%4==0){
			sw_hits+=1;
			errno=EINTR;
			return -1;
		}
		if(v%4<3 && l>1){
			sw_hits+=1;
			l=1+(v>>2)%(l-1);
		}
	}
	return real(fd, p, l);
}
