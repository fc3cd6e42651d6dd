/*
 * Runs conversions on different instances in parallel and compares every result with the one the
 * same conversion gave alone.  stdin: "convhex inputhex" per line; argv: threads rounds seed.
 * Creation and destruction are serialised (bsdconv_create changes the working directory), the
 * conversions run freely, also while other threads create and destroy.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include "bsdconv.h"

struct job { char *conv; unsigned char *in; size_t inl; unsigned char *ref; size_t refl; size_t ierr, oerr; int ok; };
static struct job *job;
static int njob, rounds;
static pthread_mutex_t mtx=PTHREAD_MUTEX_INITIALIZER, omtx=PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t bar;
static long calls;

static unsigned char *unhex(const char *s, size_t *l){
	size_t i, n=strlen(s)/2;
	unsigned char *r;
	unsigned x;
	if(s[0]=='.') n=0;
	r=malloc(n+1);
	for(i=0;i<n;++i){
		sscanf(s+2*i, "%2x", &x);
		r[i]=x;
	}
	r[n]=0;
	*l=n;
	return r;
}

static void append(unsigned char **b, size_t *l, struct bsdconv_instance *ins){
	*b=realloc(*b, *l+ins->output.len+1);
	memcpy(*b+*l, ins->output.data, ins->output.len);
	*l+=ins->output.len;
	bsdconv_free(ins->output.data);
}

static void feed(struct bsdconv_instance *ins, unsigned char *p, size_t l, int flush, unsigned char **b, size_t *bl){
	unsigned char *d=NULL;
	if(p){
		d=malloc(l?l:1);
		memcpy(d, p, l);
	}
	ins->input.data=d;
	ins->input.len=l;
	ins->input.flags=F_FREE;
	if(!d) ins->input.flags=0;
	ins->input.next=NULL;
	ins->flush=flush;
	ins->output_mode=BSDCONV_AUTOMALLOC;
	ins->output.len=0;
	bsdconv(ins);
	append(b, bl, ins);
	__atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED);
}

static void *work(void *a){
	unsigned seed=(unsigned)(size_t)a;
	int r;
	pthread_barrier_wait(&bar);
	for(r=0;r<rounds;++r){
		struct job *j=&job[rand_r(&seed)%njob];
		struct bsdconv_instance *ins;
		unsigned char *b=NULL;
		size_t l=0, o=0;
		int again;
		if(!j->ok)
			continue;
		pthread_mutex_lock(&mtx);
		ins=bsdconv_create(j->conv);
		pthread_mutex_unlock(&mtx);
		for(again=0;again<3;++again){
			if(!ins){
				printf("MISMATCH %ld create\n", (long)(j-job));
				break;
			}
			bsdconv_init(ins);
			bsdconv_counter_reset(ins, NULL);
			l=0;
			for(o=0;o<j->inl;){
				size_t n=1+rand_r(&seed)%8;
				if(n>j->inl-o) n=j->inl-o;
				feed(ins, j->in+o, n, 0, &b, &l);
				o+=n;
				if(rand_r(&seed)%4==0) sched_yield();
			}
			feed(ins, NULL, 0, 1, &b, &l);
			if(l!=j->refl || (l && memcmp(b, j->ref, l)) || *ins->ierr!=j->ierr || *ins->oerr!=j->oerr){
				size_t i;
				pthread_mutex_lock(&omtx);
				printf("MISMATCH %ld ", (long)(j-job));
				for(i=0;i<l;++i) printf("%02x", b[i]);
				printf(" ierr=%zu oerr=%zu alone ", *ins->ierr, *ins->oerr);
				for(i=0;i<j->refl;++i) printf("%02x", j->ref[i]);
				printf(" ierr=%zu oerr=%zu\n", j->ierr, j->oerr);
				fflush(stdout);
				pthread_mutex_unlock(&omtx);
				break;
			}
		}
		free(b);
		if(ins){
			pthread_mutex_lock(&mtx);
			bsdconv_destroy(ins);
			pthread_mutex_unlock(&mtx);
		}
	}
	return NULL;
}

int main(int argc, char **argv){
	int nt=atoi(argv[1]), i;
	unsigned seed=atoi(argv[3]);
	char *line=NULL;
	size_t cap=0;
	pthread_t *t=calloc(nt, sizeof(*t));
	rounds=atoi(argv[2]);
	while(getline(&line, &cap, stdin)>0){
		char *p=line, *a, *b;
		size_t l;
		line[strcspn(line, "\n")]=0;
		a=strsep(&p, " ");
		b=strsep(&p, " ");
		job=realloc(job, sizeof(*job)*(njob+1));
		memset(&job[njob], 0, sizeof(*job));
		job[njob].conv=(char *)unhex(a, &l);
		job[njob].in=unhex(b, &job[njob].inl);
		++njob;
	}
	int good=0;
	for(i=0;i<njob;++i){
		struct job *j=&job[i];
		struct bsdconv_instance *ins=bsdconv_create(j->conv);
		if(!ins) continue;
		bsdconv_init(ins);
		feed(ins, j->in, j->inl, 1, &j->ref, &j->refl);
		j->ierr=*ins->ierr;
		j->oerr=*ins->oerr;
		j->ok=1;
		++good;
		bsdconv_destroy(ins);
	}
	pthread_barrier_init(&bar, NULL, nt);
	for(i=0;i<nt;++i)
		pthread_create(&t[i], NULL, work, (void *)(size_t)(seed*1000+i+1));
	for(i=0;i<nt;++i)
		pthread_join(t[i], NULL);
	printf("DONE jobs=%d calls=%ld\n", good, calls);
	return 0;
}
