/*
 * Script-driven client of the public libbsdconv API.
 *
 * Reads one command per line on stdin, executes it against the library it is linked with and
 * writes one result line per command, so that an oracle outside the process can judge recorded
 * API histories.  Strings travel hex encoded; "-" is NULL, "." is the empty string.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <time.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "bsdconv.h"

#if defined(VARIANT_ASAN)
size_t __sanitizer_get_current_allocated_bytes(void);
int __lsan_do_recoverable_leak_check(void);
#endif

#if defined(FAULTS)
#include "fault.h"
#else
static int ft_on;
#endif

#define NSLOT 1024
static struct bsdconv_instance *slot[NSLOT];
#define NHELD 64
static bsdconv_counter_t *held[NHELD];

/* borrowed input buffers (flags without F_FREE) are kept until the slot is re-initialised */
struct keep { void *p; struct keep *n; };
static struct keep *kept[NSLOT];
/* files attached with bsdconv_ctl live as long as the instance */
static FILE *ctlfp[NSLOT][64];
static int nctlfp[NSLOT];

static FILE *out;

static int hv(int c){
	if(c>='0' && c<='9') return c-'0';
	if(c>='a' && c<='f') return c-'a'+10;
	if(c>='A' && c<='F') return c-'A'+10;
	return -1;
}

/* exact-size allocation, so that a read one past the end is seen by the sanitizer */
static unsigned char *unhex(const char *s, size_t *len){
	size_t n, i;
	unsigned char *r;
	*len=0;
	if(strcmp(s, "-")==0)
		return NULL;
	if(strcmp(s, ".")==0)
		return malloc(1);
	n=strlen(s)/2;
	r=malloc(n?n:1);
	for(i=0;i<n;++i)
		r[i]=hv(s[2*i])*16+hv(s[2*i+1]);
	*len=n;
	return r;
}

static char *unstr(const char *s){
	size_t l;
	unsigned char *p=unhex(s, &l);
	char *r;
	if(!p)
		return NULL;
	r=malloc(l+1);
	memcpy(r, p, l);
	r[l]=0;
	free(p);
	return r;
}

static void puthex(const void *_p, size_t l){
	static const char d[]="0123456789abcdef";
	const unsigned char *p=_p;
	size_t i;
	if(l==0){
		fputc('.', out);
		return;
	}
	for(i=0;i<l;++i){
		fputc(d[p[i]>>4], out);
		fputc(d[p[i]&15], out);
	}
}

static void putstr(const char *s){
	if(s==NULL)
		fputc('-', out);
	else
		puthex(s, strlen(s));
}

static void drop_kept(int s){
	struct keep *k;
	while((k=kept[s])){
		kept[s]=k->n;
		free(k->p);
		free(k);
	}
}

static int ptype(const char *s){
	if(!strcmp(s,"from")) return FROM;
	if(!strcmp(s,"inter")) return INTER;
	if(!strcmp(s,"to")) return TO;
	if(!strcmp(s,"filter")) return FILTER;
	if(!strcmp(s,"scorer")) return SCORER;
	return atoi(s);
}

static void set_input(struct bsdconv_instance *ins, int s, const char *hex, int own){
	size_t l;
	unsigned char *p=unhex(hex, &l);
	if(!p){
		ins->input.data=NULL;
		ins->input.len=0;
		ins->input.flags=0;
		ins->input.next=NULL;
		return;
	}
	ins->input.data=p;
	ins->input.len=l;
	ins->input.next=NULL;
	if(own){
		ins->input.flags=F_FREE;
	}else{
		struct keep *k=malloc(sizeof(*k));
		k->p=p;
		k->n=kept[s];
		kept[s]=k;
		ins->input.flags=0;
	}
}

static int cmpcnt(const void *a, const void *b){
	const struct bsdconv_counter_entry *x=*(void **)a, *y=*(void **)b;
	return strcmp(x->key, y->key);
}

static void dump_counters(struct bsdconv_instance *ins){
	struct bsdconv_counter_entry *e, *v[256];
	int n=0, i;
	for(e=ins->counter;e && n<256;e=e->next)
		v[n++]=e;
	qsort(v, n, sizeof(v[0]), cmpcnt);
	if(n==0)
		fputc('.', out);
	for(i=0;i<n;++i){
		if(i) fputc(',', out);
		putstr(v[i]->key);
		fprintf(out, "=%zu", v[i]->val);
	}
}

static int count_fds(void){
	DIR *d=opendir("/proc/self/fd");
	struct dirent *e;
	int n=0;
	if(!d)
		return -1;
	while((e=readdir(d)))
		if(e->d_name[0]!='.')
			++n;
	closedir(d);
	return n-1;
}

static int count_maps(void){
	FILE *f=fopen("/proc/self/maps","r");
	char *l=NULL;
	size_t c=0;
	int n=0;
	if(!f)
		return -1;
	/* only file mappings of the module directory: heap growth is no business of ours */
	while(getline(&l,&c,f)>0)
		if(strstr(l,"/share/bsdconv/"))
			++n;
	free(l);
	fclose(f);
	return n;
}

/* one bsdconv() call.  args: mode flush own input [extra] */
static void feed(int s, char mode, int flush, int own, const char *hex, long extra){
	struct bsdconv_instance *ins=slot[s];
	char *mem=NULL;
	size_t memlen=0;
	FILE *fp;
	int fd;
	unsigned char *buf;

	if(mode=='S' && slot[extra]==NULL){
		fputs("noslot", out);
		return;
	}
	set_input(ins, s, hex, own);
	if(flush>=0)
		ins->flush=flush;
	switch(mode){
		case 'H':
			ins->output_mode=BSDCONV_HOLD;
			bsdconv(ins);
			fputs("held", out);
			break;
		case 'Z':
			ins->output_mode=BSDCONV_NULL;
			bsdconv(ins);
			fputs("dropped", out);
			break;
		case 'A':
			ins->output_mode=BSDCONV_AUTOMALLOC;
			ins->output.len=extra;
			bsdconv(ins);
			if(extra){
				/* the slack the caller asked for must be usable */
				memset((char *)ins->output.data+ins->output.len, 0x5a, extra);
			}
			puthex(ins->output.data, ins->output.len);
			bsdconv_free(ins->output.data);
			ins->output.data=NULL;
			ins->output.len=0;
			break;
		case 'Q': /* query of the pending size */
			ins->output_mode=BSDCONV_PREMALLOCED;
			ins->output.data=NULL;
			ins->output.len=0;
			bsdconv(ins);
			fprintf(out, "%zu", ins->output.len);
			break;
		case 'P': {
			size_t cap=extra;
			ins->output_mode=BSDCONV_PREMALLOCED;
			buf=malloc(cap?cap:1);
			ins->output.data=buf;
			ins->output.len=cap;
			bsdconv(ins);
			if(cap==0){
				/* no room is the size query */
				fprintf(out, "%zu", ins->output.len);
			}else if(ins->output.len>cap){
				fprintf(out, "OVERLONG %zu>%zu", ins->output.len, cap);
			}else{
				puthex(buf, ins->output.len);
			}
			free(buf);
			ins->output.data=NULL;
			ins->output.len=0;
			break;
		}
		case 'L':
			fp=open_memstream(&mem, &memlen);
			ins->output_mode=BSDCONV_FILE;
			ins->output.data=fp;
			bsdconv(ins);
			fclose(fp);
			puthex(mem, memlen);
			free(mem);
			ins->output.data=NULL;
			break;
		case 'W':
			fd=memfd_create("out", 0);
			ins->output_mode=BSDCONV_FD;
			ins->output.data=(void *)(intptr_t)fd;
#ifdef FAULTS
			sw_fd=fd;
#endif
			bsdconv(ins);
#ifdef FAULTS
			sw_fd=-1;
#endif
			{
				struct stat st;
				fstat(fd, &st);
				buf=malloc(st.st_size+1);
				if(pread(fd, buf, st.st_size, 0)!=st.st_size)
					fputs("?short?", out);
				puthex(buf, st.st_size);
				free(buf);
			}
			close(fd);
			ins->output.data=NULL;
			break;
		case 'S': /* hand the data on to another instance */
			ins->output_mode=BSDCONV_PASS;
			ins->output.data=slot[extra];
			bsdconv(ins);
			fputs("passed", out);
			break;
		case 'K': /* keep whatever input the previous PASS left, only run: see cmd 'k' */
			break;
	}
}

int main(int argc, char **argv){
	char *line=NULL;
	size_t cap=0;
	ssize_t n;
	char *tok[16];
	int nt;
	int sync=getenv("DRV_SYNC")!=NULL;
	out=stdout;
	static char obuf[1<<16];
	setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));

	while((n=getline(&line, &cap, stdin))>0){
		char *p=line;
		if(line[n-1]=='\n')
			line[n-1]=0;
		for(nt=0;nt<16 && (tok[nt]=strsep(&p, " "))!=NULL;++nt);
		if(nt==0 || !tok[0][0])
			continue;
		const char *c=tok[0];
		int s=nt>1?atoi(tok[1]):0;
		fprintf(out, "%s ", c);
		if(!strcmp(c, "B")){
			/* case marker: everything so far must be visible if this case dies */
			fprintf(out, "%s\n", tok[1]);
			fflush(out);
			continue;
		}else if(strchr("DIFkORGgZP", c[0]) && c[1]==0 && slot[s]==NULL){
			/* the instance was refused: the rest of the history is void */
			fputs("noslot", out);
		}else if(!strncmp(c, "h", 1) && slot[s]==NULL){
			fputs("noslot", out);
		}else if(!strcmp(c, "N")){
			char *conv=unstr(tok[2]);
			errno=0;
			ft_on=1;
			slot[s]=bsdconv_create(conv);
			ft_on=0;
			if(slot[s])
				fprintf(out, "ok %d", slot[s]->phasen);
			else
				fprintf(out, "null %d", errno);
			free(conv);
		}else if(!strcmp(c, "D")){
			bsdconv_destroy(slot[s]);
			slot[s]=NULL;
			drop_kept(s);
			while(nctlfp[s])
				fclose(ctlfp[s][--nctlfp[s]]);
			fputs("ok", out);
		}else if(!strcmp(c, "I")){
			bsdconv_init(slot[s]);
			drop_kept(s);
			fputs("ok", out);
		}else if(!strcmp(c, "F")){
			/* F slot mode flush own hex [extra] */
			feed(s, tok[2][0], atoi(tok[3]), atoi(tok[4]), tok[5], nt>6?atol(tok[6]):0);
		}else if(!strcmp(c, "k")){
			/* run with the input already placed by a PASS of another instance: k slot mode flush extra */
			struct bsdconv_instance *ins=slot[s];
			struct data_rt *save_next=ins->input.next;
			(void)save_next;
			ins->flush=atoi(tok[3]);
			ins->output_mode=BSDCONV_AUTOMALLOC;
			ins->output.len=0;
			bsdconv(ins);
			puthex(ins->output.data, ins->output.len);
			bsdconv_free(ins->output.data);
			ins->output.data=NULL;
			ins->output.len=0;
		}else if(!strcmp(c, "X")){
			/* one shot: X conv input -> output counters | null errno */
			char *conv=unstr(tok[1]);
			struct bsdconv_instance *ins;
			size_t l;
			errno=0;
			ins=bsdconv_create(conv);
			free(conv);
			if(!ins){
				fprintf(out, "null %d", errno);
			}else{
				bsdconv_init(ins);
				ins->output_mode=BSDCONV_AUTOMALLOC;
				ins->output.len=0;
				ins->input.data=unhex(tok[2], &l);
				ins->input.len=l;
				ins->input.flags=F_FREE;
				ins->input.next=NULL;
				ins->flush=1;
				bsdconv(ins);
				puthex(ins->output.data, ins->output.len);
				bsdconv_free(ins->output.data);
				fputc(' ', out);
				dump_counters(ins);
				bsdconv_destroy(ins);
			}
		}else if(!strcmp(c, "O")){
			/* one conversion on an existing instance: O slot input (init, flush, automalloc, counters reset) */
			struct bsdconv_instance *ins=slot[s];
			bsdconv_init(ins);
			drop_kept(s);
			bsdconv_counter_reset(ins, NULL);
			feed(s, 'A', 1, 1, tok[2], 0);
			fputc(' ', out);
			dump_counters(ins);
		}else if(!strcmp(c, "R")){
			dump_counters(slot[s]);
		}else if(!strcmp(c, "G")){
			char *k=unstr(tok[2]);
			fprintf(out, "%zu", *bsdconv_counter(slot[s], k));
			free(k);
		}else if(!strcmp(c, "g")){ /* add to a counter: g slot key n */
			char *k=unstr(tok[2]);
			bsdconv_counter_t *v=bsdconv_counter(slot[s], k);
			*v+=atoi(tok[3]);
			fprintf(out, "%zu", *v);
			free(k);
		}else if(!strcmp(c, "hold")){ /* keep the address of a counter: hold slot key index */
			char *k=unstr(tok[2]);
			held[atoi(tok[3])%NHELD]=bsdconv_counter(slot[s], k);
			fputs("ok", out);
			free(k);
		}else if(!strcmp(c, "held")){ /* add to it: held slot(unused) index n */
			bsdconv_counter_t *v=held[atoi(tok[2])%NHELD];
			*v+=atoi(tok[3]);
			fprintf(out, "%zu", *v);
		}else if(!strcmp(c, "Z")){
			char *k=unstr(tok[2]);
			bsdconv_counter_reset(slot[s], k);
			fputs("ok", out);
			free(k);
		}else if(!strcmp(c, "P")){
			char *r=bsdconv_pack(slot[s]);
			putstr(r);
			bsdconv_free(r);
		}else if(!strcmp(c, "hs")){
			char *k=unstr(tok[2]);
			bsdconv_hash_set(slot[s], k, (void *)(intptr_t)atol(tok[3]));
			fputs("ok", out);
			free(k);
		}else if(!strcmp(c, "hg")){
			char *k=unstr(tok[2]);
			fprintf(out, "%ld", (long)(intptr_t)bsdconv_hash_get(slot[s], k));
			free(k);
		}else if(!strcmp(c, "hh")){
			char *k=unstr(tok[2]);
			fprintf(out, "%d", !!bsdconv_hash_has(slot[s], k));
			free(k);
		}else if(!strcmp(c, "hd")){
			char *k=unstr(tok[2]);
			bsdconv_hash_del(slot[s], k);
			fputs("ok", out);
			free(k);
		}else if(!strcmp(c, "ip") || !strcmp(c, "rp")){
			char *conv=unstr(tok[1]), *codec=unstr(tok[2]);
			char *r=(c[0]=='i'?bsdconv_insert_phase:bsdconv_replace_phase)(conv, codec, ptype(tok[3]), atoi(tok[4]));
			putstr(r);
			bsdconv_free(r);
			free(conv);
			free(codec);
		}else if(!strcmp(c, "ic") || !strcmp(c, "rc")){
			char *conv=unstr(tok[1]), *codec=unstr(tok[2]);
			char *r=(c[0]=='i'?bsdconv_insert_codec:bsdconv_replace_codec)(conv, codec, atoi(tok[3]), atoi(tok[4]));
			putstr(r);
			bsdconv_free(r);
			free(conv);
			free(codec);
		}else if(!strcmp(c, "ml")){
			char **l=(nt>2 ? bsdconv_codecs_list : bsdconv_modules_list)(ptype(tok[1]));
			int i;
			if(!l)
				fputc('-', out);
			else{
				if(!l[0]) fputc('.', out);
				for(i=0;l[i];++i){
					if(i) fputc(',', out);
					putstr(l[i]);
					bsdconv_free(l[i]);
				}
				bsdconv_free(l);
			}
		}else if(!strcmp(c, "mc")){
			char *k=unstr(tok[2]);
			fprintf(out, "%d %d", !!bsdconv_module_check(ptype(tok[1]), k), !!bsdconv_codec_check(ptype(tok[1]), k));
			free(k);
		}else if(!strcmp(c, "sa")){
			char *k=unstr(tok[2]);
			char *r=bsdconv_solve_alias(ptype(tok[1]), k);
			putstr(r);
			bsdconv_free(r);
			free(k);
		}else if(!strcmp(c, "err")){
			errno=atoi(tok[1]);
			char *r=bsdconv_error();
			putstr(r);
			bsdconv_free(r);
		}else if(!strcmp(c, "ctlfile")){
			/* attach a FILE with the given content to slot: ctlfile slot action contenthex nr */
			size_t l;
			unsigned char *b=unhex(tok[3], &l);
			FILE *fp=tmpfile();
			if(l) fwrite(b, 1, l, fp);
			rewind(fp);
			free(b);
			if(slot[s] && nctlfp[s]<64){
				ctlfp[s][nctlfp[s]++]=fp;
				bsdconv_ctl(slot[s], atoi(tok[2]), fp, nt>4?atoi(tok[4]):0);
			}else
				fclose(fp);
			fputs("ok", out);
		}else if(!strcmp(c, "ctlread")){
			/* what an attached file holds now: ctlread slot index */
			size_t k=atoi(tok[2]), n;
			unsigned char *b=malloc(1<<22);
			if(s<NSLOT && k<(size_t)nctlfp[s]){
				fflush(ctlfp[s][k]);
				rewind(ctlfp[s][k]);
				n=fread(b, 1, 1<<22, ctlfp[s][k]);
				puthex(b, n);
			}else
				fputs("-", out);
			free(b);
		}else if(!strcmp(c, "ctl")){
			if(slot[s]) bsdconv_ctl(slot[s], atoi(tok[2]), NULL, atoi(tok[3]));
			fputs("ok", out);
		}else if(!strcmp(c, "cwd")){
			char *w=getcwd(NULL, 0);
			putstr(w);
			free(w);
		}else if(!strcmp(c, "chdir")){
			char *w=unstr(tok[1]);
			fprintf(out, "%d", chdir(w));
			free(w);
		}else if(!strcmp(c, "env")){
			char *k=unstr(tok[1]), *v=unstr(tok[2]);
			if(v) setenv(k, v, 1); else unsetenv(k);
			fputs("ok", out);
			free(k);
			free(v);
		}else if(!strcmp(c, "rep")){
			/* the same chunk (mode C: as a whole conversion) again and again, heap bytes (highest per eighth), cpu time per half: rep slot mode count hex */
			size_t l, total=0, top[8]={0}, h;
			int i, k=atoi(tok[3]), m=tok[2][0];
			unsigned char *b=unhex(tok[4], &l);
			clock_t t0=clock(), t1=t0;
			if(slot[s]) for(i=0;i<k;++i){
				struct bsdconv_instance *ins=slot[s];
				unsigned char *d=NULL;
				char small[4096];
				if(i==k/2)
					t1=clock();
				if(b){
					d=malloc(l?l:1);
					memcpy(d, b, l);
				}
				if(m=='C') /* conversion after conversion */
					bsdconv_init(ins);
				ins->input.data=d;
				ins->input.len=l;
				ins->input.flags=d?F_FREE:0;
				ins->input.next=NULL;
				ins->flush=m=='C';
				ins->output.data=NULL;
				ins->output.len=0;
				ins->output_mode=m=='Z'?BSDCONV_NULL:m=='P'?BSDCONV_PREMALLOCED:BSDCONV_AUTOMALLOC;
				if(m=='P'){
					/* all of it, a buffer at a time */
					do{
						ins->output_mode=BSDCONV_PREMALLOCED;
						ins->output.data=small;
						ins->output.len=sizeof(small);
						bsdconv(ins);
						total+=ins->output.len;
						ins->input.data=NULL;
						ins->input.len=0;
						ins->input.flags=0;
						ins->input.next=NULL;
					}while(ins->output.len>0);
				}else{
					bsdconv(ins);
					if(m=='A' || m=='C'){
						total+=ins->output.len;
						bsdconv_free(ins->output.data);
					}
				}
				ins->output.data=NULL;
				ins->output.len=0;
#if defined(VARIANT_ASAN)
				h=__sanitizer_get_current_allocated_bytes();
				if(h>top[i*8/k])
					top[i*8/k]=h;
#endif
			}
			free(b);
			fprintf(out, "%zu %ld %ld", total, (long)(t1-t0), (long)(clock()-t1));
			for(i=0;i<8;++i)
				fprintf(out, " %zu", top[i]);
		}else if(!strcmp(c, "res")){
			/* resources held by the process: heap bytes, descriptors, module mappings */
			size_t heap=0;
#if defined(VARIANT_ASAN)
			heap=__sanitizer_get_current_allocated_bytes();
#endif
			fprintf(out, "%zu %d %d", heap, count_fds(), count_maps());
#if defined(FAULTS)
		}else if(!strcmp(c, "fault")){
			/* which successful calls of the next creations fail: fault first last errno kinds */
			ft_first=atoi(tok[1]);
			ft_last=atoi(tok[2]);
			ft_errno=atoi(tok[3]);
			ft_mask=atoi(tok[4]);
			ft_count=ft_hits=ft_len=0;
			ft_log[0]=0;
			fputs("ok", out);
		}else if(!strcmp(c, "faults")){
			fprintf(out, "%d %d %s", ft_count, ft_hits, ft_len ? ft_log : ".");
		}else if(!strcmp(c, "short")){
			/* from here on, writes to descriptors are cut short: short seed (0: no more) */
			sw_seed=atoi(tok[1]);
			fprintf(out, "%d", sw_hits);
			sw_hits=0;
		}else if(!strcmp(c, "nofile")){
			/* descriptors left: nofile n (negative: as before) */
			static struct rlimit was;
			struct rlimit l;
			int i, n=atoi(tok[1]);
			if(!was.rlim_cur)
				getrlimit(RLIMIT_NOFILE, &was);
			l=was;
			if(n>=0){
				for(i=0;fcntl(i, F_GETFD)!=-1;++i);
				l.rlim_cur=i+n;
			}
			fprintf(out, "%d", setrlimit(RLIMIT_NOFILE, &l));
#endif
		}else if(!strcmp(c, "lsan")){
			int r=0;
#if defined(VARIANT_ASAN)
			fflush(out);
			r=__lsan_do_recoverable_leak_check();
#endif
			fprintf(out, "%d", r);
		}else if(!strcmp(c, "sd")){
			char *k=unstr(tok[1]);
			struct data_rt d;
			int r=str2datum(k, &d);
			fprintf(out, "%d ", r);
			if(!r){
				puthex(d.data, d.len);
				free(d.data);
			}else
				fputc('-', out);
			free(k);
		}else if(!strcmp(c, "churn")){
			/* disturb the heap: allocate, fill with a pattern, free */
			int i, pat=atoi(tok[1]);
			void *v[64];
			for(i=0;i<64;++i){
				size_t z=(i*37)%900+1;
				v[i]=malloc(z);
				memset(v[i], pat, z);
			}
			for(i=0;i<64;++i)
				free(v[(i*29)%64]);
			fputs("ok", out);
		}else{
			fprintf(out, "BADCMD");
		}
		fputc('\n', out);
		if(sync)
			fflush(out);
	}
	fflush(out);
	free(line);
	return 0;
}
