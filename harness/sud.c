/*
 * Preloaded into the command: every system call it makes is dispatched to a handler here (Linux's
 * syscall user dispatch), which performs it through a stub and counts those that concern files in
 * the directory SUD_DIR.  At the SUD_AT-th of them it
 *   before  ends the process instead of the call        after  ends it once the call is done
 *   half    (write) writes half, then ends it           short  (read, write) transfers half only
 *   error   does not make the call, reports SUD_ERRNO   late   (close) closes, then reports it
 *   errors  like error, and so at each later call of the same kind
 * and every counted call is written to the file SUD_LOG.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/ucontext.h>
#include <unistd.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#define PR_SYS_DISPATCH_ON 1
#endif

__asm__(
	".text\n"
	".globl sud_begin, sud_call, sud_restore, sud_end\n"
	"sud_begin:\n"
	"sud_call:\n"
	"	mov %rdi, %rax\n"
	"	mov %rsi, %rdi\n"
	"	mov %rdx, %rsi\n"
	"	mov %rcx, %rdx\n"
	"	mov %r8, %r10\n"
	"	mov %r9, %r8\n"
	"	mov 8(%rsp), %r9\n"
	"	syscall\n"
	"	ret\n"
	"sud_restore:\n"
	"	mov $15, %rax\n"
	"	syscall\n"
	"	nop\n"
	"sud_end:\n"
);
extern char sud_begin[] __attribute__((visibility("hidden"))), sud_end[] __attribute__((visibility("hidden")));
long sud_call(long nr, long a, long b, long c, long d, long e, long f) __attribute__((visibility("hidden")));
void sud_restore(void) __attribute__((visibility("hidden")));

struct ksigaction { void *handler; unsigned long flags; void *restorer; unsigned long mask; };

static char dir[512];
static size_t dirlen;
static int at, err, logfd=-1, count, pid;
static char mode[16];
static char mine[1024];
static long again=-1;

static const struct { long nr; const char *name; signed char path, fd; } calls[]={
	{SYS_open, "open", 0, -1}, {SYS_openat, "open", 1, -1}, {SYS_creat, "open", 0, -1},
	{SYS_read, "read", -1, 0}, {SYS_pread64, "read", -1, 0}, {SYS_readv, "read", -1, 0},
	{SYS_write, "write", -1, 0}, {SYS_pwrite64, "write", -1, 0}, {SYS_writev, "write", -1, 0},
	{SYS_lseek, "lseek", -1, 0}, {SYS_fstat, "fstat", -1, 0}, {SYS_newfstatat, "fstat", 1, 0}, {SYS_stat, "stat", 0, -1}, {SYS_lstat, "stat", 0, -1},
	{SYS_close, "close", -1, 0}, {SYS_fsync, "fsync", -1, 0}, {SYS_fdatasync, "fsync", -1, 0},
	{SYS_ftruncate, "truncate", -1, 0}, {SYS_truncate, "truncate", 0, -1}, {SYS_fallocate, "truncate", -1, 0},
	{SYS_fchmod, "chmod", -1, 0}, {SYS_chmod, "chmod", 0, -1}, {SYS_fchmodat, "chmod", 1, -1},
	{SYS_fchown, "chown", -1, 0}, {SYS_chown, "chown", 0, -1}, {SYS_fchownat, "chown", 1, -1}, {SYS_lchown, "chown", 0, -1},
	{SYS_rename, "rename", 0, -1}, {SYS_renameat, "rename", 1, -1}, {SYS_renameat2, "rename", 1, -1},
	{SYS_link, "link", 0, -1}, {SYS_linkat, "link", 1, -1}, {SYS_symlink, "link", 1, -1},
	{SYS_unlink, "unlink", 0, -1}, {SYS_unlinkat, "unlink", 1, -1},
	{SYS_mmap, "mmap", -1, 4}, {SYS_copy_file_range, "copy", -1, 2}, {SYS_sendfile, "copy", -1, 0}, {SYS_dup, "dup", -1, 0}, {SYS_fcntl, "fcntl", -1, 0},
};

static void put(const char *s, size_t n){
	while(n>0){
		long w=sud_call(SYS_write, logfd, (long)s, n, 0, 0, 0);
		if(w<=0)
			return;
		s+=w; n-=w;
	}
}

static void die(void){
	sud_call(SYS_kill, pid, SIGKILL, 0, 0, 0, 0);
	for(;;);
}

static void handler(int sig, siginfo_t *si, void *u){
	ucontext_t *uc=u;
	greg_t *g=uc->uc_mcontext.gregs;
	long nr=si->si_syscall, a[6]={g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
	size_t i;
	long r;
	const char *p=NULL;
	int fd=-1;
	char line[700];
	size_t n;
	for(i=0;i<sizeof(calls)/sizeof(*calls);++i) if(calls[i].nr==nr){
		if(calls[i].path>=0){
			p=(const char *)a[(int)calls[i].path];
			if(p && strncmp(p, dir, dirlen)!=0)
				p=NULL;
		}
		if(!p && calls[i].fd>=0){
			fd=a[(int)calls[i].fd];
			if(fd<0 || fd>=(int)sizeof(mine) || !mine[fd])
				fd=-1;
		}
		break;
	}
	if(!p && fd<0){
		g[REG_RAX]=sud_call(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
		return;
	}
	count+=1;
	int hit=count==at || (again>=0 && again==nr);
	if(hit && !strcmp(mode, "errors"))
		again=nr;
	/* log: name, whether hit, size or path */
	n=0;
	strcpy(line, calls[i].name); n=strlen(line);
	line[n++]=hit ? '!' : ' ';
	if(p){
		size_t l=strlen(p+dirlen);
		if(l>500) l=500;
		for(size_t k=0;k<l;++k) line[n++]=p[dirlen+k]=='\n' ? '?' : p[dirlen+k];
	}else{
		if(fd>=10) line[n++]='0'+fd/10%10;
		line[n++]='0'+fd%10;
		if(!strcmp(calls[i].name, "write") || !strcmp(calls[i].name, "read")){
			char d[24]; int k=0; long v=a[2];
			line[n++]=' ';
			do{ d[k++]='0'+v%10; v/=10; }while(v);
			while(k) line[n++]=d[--k];
		}
	}
	line[n++]='\n';
	put(line, n);
	int rw=nr==SYS_read || nr==SYS_write || nr==SYS_pwrite64;
	if(hit && !strcmp(mode, "before"))
		die();
	if(hit && (!strcmp(mode, "error") || !strcmp(mode, "errors"))){
		g[REG_RAX]=-err;
		return;
	}
	if(hit && rw && a[2]>1 && (!strcmp(mode, "short") || !strcmp(mode, "half")))
		a[2]/=2;
	r=sud_call(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
	if(hit && (!strcmp(mode, "after") || !strcmp(mode, "half")))
		die();
	if(!strcmp(calls[i].name, "open") && r>=0 && r<(long)sizeof(mine))
		mine[r]=1;
	if((nr==SYS_dup || (nr==SYS_fcntl && (a[1]==F_DUPFD || a[1]==F_DUPFD_CLOEXEC))) && r>=0 && r<(long)sizeof(mine))
		mine[r]=1;
	if(nr==SYS_close)
		mine[fd]=0;
	if(hit && !strcmp(mode, "late"))
		r=-err;
	g[REG_RAX]=r;
}

__attribute__((constructor)) static void start(void){
	const char *d=getenv("SUD_DIR"), *l=getenv("SUD_LOG");
	struct ksigaction sa;
	if(!d || !l)
		return;
	strncpy(dir, d, sizeof(dir)-1);
	dirlen=strlen(dir);
	strncpy(mode, getenv("SUD_MODE") ? getenv("SUD_MODE") : "", sizeof(mode)-1);
	at=getenv("SUD_AT") ? atoi(getenv("SUD_AT")) : 0;
	err=getenv("SUD_ERRNO") ? atoi(getenv("SUD_ERRNO")) : EIO;
	pid=getpid();
	logfd=open(l, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0600);
	logfd=fcntl(logfd, F_DUPFD_CLOEXEC, 900);
	memset(&sa, 0, sizeof(sa));
	sa.handler=(void *)handler;
	sa.flags=SA_SIGINFO|0x04000000;
	sa.restorer=(void *)sud_restore;
	if(syscall(SYS_rt_sigaction, SIGSYS, &sa, NULL, 8) || prctl(PR_SET_SYSCALL_USER_DISPATCH, PR_SYS_DISPATCH_ON, sud_begin, sud_end-sud_begin, NULL)){
		put("unavailable\n", 12);
		_exit(125);
	}
	put("on\n", 3);
}
