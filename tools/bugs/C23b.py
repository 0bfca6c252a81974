from bugpre import *
ID='C23b'; PROP='C23'

NEEDS="destroying a generator that uses SHA-256"
BREAKS="only the size of a SHA-1 context is erased: the last words of the hash input stay in memory"
EDITS=[("src/com/random.c","""			case RA_RAND_SHA512:
			case RA_RAND_SHA256:
				RaSha2Destroy((struct RaSha2Ctx *)ctx->alg_ctx);
				break;
			case RA_RAND_SHA160:
			default:
				RaSha1Destroy((struct RaSha1Ctx *)ctx->alg_ctx);""","""			case RA_RAND_SHA512:
				RaSha2Destroy((struct RaSha2Ctx *)ctx->alg_ctx);
				break;
			case RA_RAND_SHA256:
			case RA_RAND_SHA160:
			default:
				RaSha1Destroy((struct RaSha1Ctx *)ctx->alg_ctx);""")]
DEMO=PRE+r"""
void *__libc_malloc(size_t); void __libc_free(void*); static volatile int on, dirty; static size_t sz[4096]; static void *pt[4096]; static int np;
void *malloc(size_t n){ void *p=__libc_malloc(n); if(np<4096){pt[np]=p;sz[np++]=n;} return p; }
void free(void *p){ int i; size_t j; if(on&&p) for(i=np-1;i>=0;i--) if(pt[i]==p){ unsigned char *b=p; for(j=0;j<sz[i];j++) if(b[j]) dirty++; pt[i]=0; break; } __libc_free(p); }
int main(void){ unsigned char s[40]; int i; struct RaRandom *g; for(i=0;i<40;i++) s[i]=i+1; CHECK(RaRandomCreate(RA_RAND_SHA256,s,40,&g)==0); on=1; RaRandomDestroy(g); on=0; printf("%d\n",dirty); CHECK(dirty==0); return 0; }
"""
