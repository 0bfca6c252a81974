from bugpre import *
ID='C26a'; PROP='C26'
NEEDS='descriptor table in which the random device gets a large number (more than 255 open files)'
BREAKS='the descriptor is kept in a byte: the read fails, the seed is all zero, and the descriptor leaks'
EDITS=[('src/com/random.c', '\tint fd;\n\tint size;', '\tsigned char fd;\n\tint size;')]
DEMO=PRE+r'''
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
int main(void){ int i, fd=-1, top; struct RaRandom *g; struct rlimit l={600,600}; setrlimit(RLIMIT_NOFILE,&l);
	for(i=0;i<200;i++) fd=open("/dev/null",O_RDONLY);
	CHECK(fd>=200); top=open("/dev/null",O_RDONLY); close(top);
	for(i=0;i<5;i++){ CHECK(RaRandomCreate(RA_RAND_MD5,NULL,0,&g)==0); RaRandomDestroy(g); }
	fd=open("/dev/null",O_RDONLY); printf("%d %d\n",top,fd); CHECK(fd==top); return 0; }
'''
