// Random search for a failing input of the ring-buffer operations against their specification.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <string>
#include <random>
extern "C++" {
#include "read_buffer.h"
}
static std::mt19937 R;
static unsigned rnd(unsigned n){ return n? R()%n:0; }
#define FAIL(...) do{ printf("FAILING INPUT: read_position=%u write_position=%u ",rp,wp); printf(__VA_ARGS__); printf("\n"); exit(1);}while(0)
int main(int c,char**v){
	R.seed(atoi(v[1])); time_t end=time(0)+atoi(v[2]); const unsigned BS=BUFFER_SIZE;
	read_buffer* rb=(read_buffer*)malloc(sizeof(read_buffer)); read_buffer* cp=(read_buffer*)malloc(sizeof(read_buffer));
	for(unsigned it=0;it<400000 && time(0)<end;it++){
		unsigned rem; switch(rnd(6)){case 0:rem=0;break;case 1:rem=BS;break;case 2:rem=BS-rnd(4);break;default:rem=rnd(2)?rnd(24):rnd(BS+1);}
		unsigned near=rnd(3); uint16_t rp= near==0? (uint16_t)R() : (uint16_t)(rnd(65536/BS)*BS + BS - rnd(30)); if(rnd(9)==0) rp=rnd(4)*BS;
		uint16_t wp=rp+rem;
		int mode=rnd(3);
		for(unsigned i=0;i<BS;i++) rb->buffer[i]= mode==0? (char)R() : mode==1? '0'+rnd(10): "0123456789 /:a-"[rnd(15)];
		if(mode==2||mode==1){ unsigned z=rnd(6); for(unsigned i=0;i<rem&&i<z;i++) rb->buffer[(rp+i)&(BS-1)]='0'; static const char* B[]={"2147483647","2147483648","2147483646","4294967296","99999999999","21474836470","9","0"}; if(rnd(2)){const char*b=B[rnd(8)];for(unsigned i=0;b[i];i++)rb->buffer[(rp+i)&(BS-1)]=b[i];} }
		rb->read_position=rp; rb->write_position=wp; memcpy(cp,rb,sizeof *rb);
#ifdef DEBUG_BUILD
		rb->write_remaining=rem;
#endif
		auto B=[&](unsigned i){return (unsigned char)cp->buffer[(rp+i)&(BS-1)];};
		unsigned ri=rp&(BS-1),wi=wp&(BS-1); unsigned cont=rem<BS-ri?rem:BS-ri; unsigned wc=(BS-rem)<(BS-wi)?(BS-rem):(BS-wi);
		if(rbuf_read_remaining(rb)!=(int)rem) FAIL("rbuf_read_remaining=%d expected %u",rbuf_read_remaining(rb),rem);
		if(rbuf_write_remaining(rb)!=(int)(BS-rem)) FAIL("rbuf_write_remaining=%d expected %u",rbuf_write_remaining(rb),BS-rem);
		if(rbuf_read_contiguous(rb)!=(int)cont) FAIL("rbuf_read_contiguous=%d expected %u",rbuf_read_contiguous(rb),cont);
		int te=rbuf_read_to_end(rb); if(te!=(int)cont && !(rem==BS&&te==(int)BS)) FAIL("rbuf_read_to_end=%d expected %u",te,cont);
		if(rbuf_write_to_end(rb)!=wc) FAIL("rbuf_write_to_end=%d expected %u",(int)rbuf_write_to_end(rb),wc);
		unsigned n=rnd(4)==0?rnd(BS+1):(rnd(2)?rnd(30):(rem+rnd(5))); if(n>BS)n=BS; if(rnd(5)==0) n=cont; if(rnd(7)==0) n=rem;
		char* d=(char*)malloc(n?n:1); memset(d,0x5a,n?n:1);
		unsigned m=n<rem?n:rem; int r=rbuf_copyn(rb,d,n);
		if(r!=(int)m) FAIL("rbuf_copyn(%u)=%d expected %u",n,r,m);
		for(unsigned i=0;i<m;i++) if((unsigned char)d[i]!=B(i)) FAIL("rbuf_copyn(%u): byte %u is %d expected %d",n,i,(unsigned char)d[i],B(i));
		for(unsigned i=m;i<n;i++) if(d[i]!=0x5a) FAIL("rbuf_copyn(%u) wrote byte %u beyond the %u available",n,i,m);
		bool same=rem>=n; for(unsigned i=0;i<n;i++){ d[i]=B(i); if(!d[i]){d[i]='x';} if(i<rem && (unsigned char)d[i]!=B(i)) same=false; }
		if(n&&rnd(2)){ unsigned k=rnd(3)==0?n-1:(rnd(2)&&cont<n?cont:rnd(n)); d[k]^=1; if(!d[k])d[k]=2; if((unsigned char)d[k]!=B(k)) same=false; }
		for(unsigned i=0;i<n&&i<rem;i++) if((unsigned char)d[i]!=B(i)) same=false;
		r=rbuf_cmpn(rb,d,n);
		if((r==0)!=same) FAIL("rbuf_cmpn(%u bytes)=%d but bytes are %s",n,r,same?"equal":"different or missing");
		free(d);
		int mx=rnd(3)==0?-1:(int)rnd(14); if(rnd(6)==0) mx=rnd(rem+2); unsigned q=(mx==-1||mx>(int)rem)?rem:mx; int out=77777,*o=(int*)malloc(4); *o=out;
		bool ok=q>0; unsigned long long val=0; for(unsigned i=0;i<q&&ok;i++){ if(B(i)<'0'||B(i)>'9') ok=false; else {val=val*10+B(i)-'0'; if(val>2147483647ull) ok=false;} }
		bool g=rbuf_strntol(rb,o,mx); std::string s; for(unsigned i=0;i<q&&i<40;i++) s+=B(i)>=32&&B(i)<127?(char)B(i):'.';
		if(g!=ok) FAIL("rbuf_strntol(max=%d) of \"%s\" returned %d expected %d",mx,s.c_str(),g,ok);
		if(g&&*o!=(int)val) FAIL("rbuf_strntol(max=%d) of \"%s\" gives %d expected %llu",mx,s.c_str(),*o,val);
		free(o);
		if(rb->read_position!=rp||rb->write_position!=wp||memcmp(rb->buffer,cp->buffer,BS)) FAIL("an operation changed the buffer");
		if(rnd(50)==0){ rbuf_init(rb); if(rb->read_position!=rb->write_position) FAIL("rbuf_init leaves a non-empty buffer"); }
	}
	printf("no failing input\n"); return 0;
}
