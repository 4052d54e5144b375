// Scenarios: what is proved about the library with the abstract interpreter.
// Usage: irabs <scenario> [key=value ...] file.ll ...      (JSON lines on stdout)
#include "absint.h"
#include <chrono>
#include <array>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
static std::map<std::string,std::string> opt;
static std::vector<std::string> files;
static uint64_t nob=0,nbad=0;
static std::string js(const std::string&s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else if((unsigned char)c>126){ char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)c); r+=b; } else r+=c; } return r+"\""; }
static void ob(bool ok,const std::string&rule,const std::string&what,const std::string&detail=""){
  nob++; if(ok) return; nbad++; printf("{\"fail\":%s,\"rule\":%s,\"detail\":%s}\n",js(what).c_str(),js(rule).c_str(),js(detail).c_str()); }
static void info(const std::string&k,const std::string&v){ printf("{\"info\":%s,\"value\":%s}\n",js(k).c_str(),js(v).c_str()); }
static long oi(const char*k,long d){ auto it=opt.find(k); return it==opt.end()?d:atol(it->second.c_str()); }
static std::string os(const char*k,const char*d){ auto it=opt.find(k); return it==opt.end()?d:it->second; }
static std::vector<int> ol(const char*k,const char*d){ std::vector<int> r; std::string s=os(k,d),t; for(char c:s+","){ if(c==','){ if(!t.empty()){ auto p=t.find('-',1); if(p!=std::string::npos){ for(int i=atoi(t.substr(0,p).c_str());i<=atoi(t.substr(p+1).c_str());i++) r.push_back(i);} else r.push_back(atoi(t.c_str())); } t.clear(); } else t+=c; } return r; }
// ------------------------------------------------ struct layout by field name
static std::map<std::string,std::pair<uint64_t,uint64_t>> fieldsOf(Module&M,const std::string&sn){
  std::map<std::string,std::pair<uint64_t,uint64_t>> r; DebugInfoFinder F_; F_.processModule(M);
  for(auto*T:F_.types()) if(auto*c=dyn_cast<DICompositeType>(T)) if(c->getName()==sn&&c->getTag()==dwarf::DW_TAG_structure_type&&c->getElements().size()) for(auto*e:c->getElements()) if(auto*d=dyn_cast<DIDerivedType>(e)) r[d->getName().str()]={d->getOffsetInBits()/8,d->getSizeInBits()/8};
  if(r.empty()) throw Broken("struct "+sn+" not found in debug info"); return r; }
struct Fields { std::map<std::string,std::pair<uint64_t,uint64_t>> m; std::string sn; std::pair<uint64_t,uint64_t> at(const std::string&f) const { auto it=m.find(f); if(it==m.end()) throw Broken("field "+sn+"."+f+" not found"); return it->second; } };
static int64_t getInt(Interp&I,State&s,int obj,int64_t off,int n,bool*known=nullptr){ Val v=I.simp(s,I.loadAt(s,obj,off,Type::getIntNTy(I.M->getContext(),n*8))); if(known) *known=(v.k==Val::Int&&v.isc); return v.k==Val::Int&&v.isc?v.sc():INT64_MIN; }
static void setInt(Interp&I,State&s,int obj,int64_t off,int n,int64_t x){ I.storeAt(s,obj,off,Val::I(n*8,x),Type::getIntNTy(I.M->getContext(),n*8)); }
static Val getPtr(Interp&I,State&s,int obj,int64_t off){ return I.loadAt(s,obj,off,PointerType::getUnqual(I.M->getContext())); }
static int mkbuf(Interp&I,State&s,const char*n,size_t sz){ return I.newobj(s,n,sz,Obj::Heap); }
static std::vector<F> putSym(Interp&I,State&s,int obj,size_t off,size_t n){ std::vector<F> all; for(size_t i=0;i<n;i++){ std::vector<F> b(8); for(auto&f:b){ f=G.fresh(); all.push_back(f);} I.wobj(s,obj).cells[off+i]=I.symCell(b); } return all; } // bit k of byte i = all[8*i+k]
static bool defined(Interp&I,State&s,int obj,size_t off){ auto&c=I.robj(s,obj).cells[off]; return c.k==Cell::Const||c.k==Cell::Sym; }
static std::string cellDesc(Interp&I,State&s,int obj,size_t off){ auto&c=I.robj(s,obj).cells[off]; static const char*n[]={"undefined","const","sym","ptr","unknown"}; return c.k==Cell::Const?std::to_string(c.c):n[c.k]; }

// ------------------------------------------------------------------- oracles
static bool isPrime(int x){ if(x<2) return false; for(int i=2;i*i<=x;i++) if(x%i==0) return false; return true; }
static int ilB(int nbytes){ if(nbytes==43) return 337; if(nbytes==63) return 389; int b=(int)floor(nbytes*8/1.62); do b++; while(!isPrime(b)); return b; }
static int txLen(int n){ int nb=n*8; int cw=(nb+11)/12; return (16+nb+cw*11+7)/8; }
struct Wire { int n,ntx; std::vector<int> pos; /* pos[k] : transmitted bit index (MSB-first index into packet) of message bit k */ std::vector<int> scr; std::vector<std::vector<int>> cw; };
static uint32_t golayParity(uint32_t m){ uint32_t c=m<<11; for(int i=22;i>=11;i--) if(c>>i&1) c^=0xC75u<<(i-11); return c; }
// all message bits (payload MSB-first, then parity MSB-first) as forms
static std::vector<F> wireForms(const std::vector<F>&pay,int n,bool il,bool sc){ // returns ntx*8 forms, MSB-first per byte index: r[8*byte+bitLSBidx]
  int ntx=txLen(n); std::vector<F> r(ntx*8,0);
  for(int b=0;b<2;b++) for(int k=0;k<8;k++) r[8*b+k]=(0x24>>k)&1;
  std::vector<F> mb; for(int i=0;i<n*8;i++) mb.push_back(pay[8*(i/8)+7-i%8]);
  std::vector<F> par; for(size_t i=0;i<mb.size();i+=12){ int k=std::min<size_t>(12,mb.size()-i); // message value: first bit is most significant; short final word is v<<1
    std::vector<F> msg(12,0); if(k==12) for(int j=0;j<12;j++) msg[11-j]=mb[i+j]; else for(int j=0;j<k;j++) msg[k-j]=mb[i+j];
    std::vector<F> p(11,0); for(int j=0;j<12;j++){ uint32_t g=golayParity(1u<<j); for(int q=0;q<11;q++) if(g>>q&1) p[q]=G.x(p[q],msg[j]); }
    for(int q=10;q>=0;q--) par.push_back(p[q]); }
  std::vector<F> body((ntx-2)*8,0); // LSB-first within bytes
  for(size_t i=0;i<mb.size();i++) body[8*(i/8)+7-i%8]=mb[i];
  for(size_t i=0;i<par.size();i++) body[8*n+8*(i/8)+7-i%8]=par[i];
  if(il){ int nb=body.size(); uint32_t B=ilB(ntx-2); std::vector<F> o(nb,0); for(int i=0;i<nb;i++) o[(uint64_t)B*i%nb]=body[i]; body=o; }
  if(sc){ uint16_t s=0x4a80; for(auto&f:body){ int o=((s>>1)^s)&1; f=G.x(f,o); s=(s>>1)|(o<<14); } }
  for(size_t i=0;i<body.size();i++) r[16+i]=body[i];
  return r; }
// index (in the r[] numbering) of each bit of each codeword on the wire: cwpos[c][23] for codeword bit 22..0 (data 22..11, parity 10..0); -1 unused
static std::vector<std::vector<int>> cwPositions(int n){
  int ntx=txLen(n),nb=(ntx-2)*8; uint32_t B=ilB(ntx-2); std::vector<std::vector<int>> out; auto map=[&](int lsbidx){ return 16+(int)((uint64_t)B*lsbidx%nb); };
  for(int i=0,c=0;i<n*8;i+=12,c++){ std::vector<int> p(23,-1); int k=std::min(12,n*8-i); for(int j=0;j<k;j++){ int m=i+j; int w= k==12?11-j:k-j; p[11+w]=map(8*(m/8)+7-m%8); }
    for(int q=0;q<11;q++){ int m=c*11+q; p[10-q]=map(8*n+8*(m/8)+7-m%8); } out.push_back(p); }
  return out; }
static std::vector<F> crcForms(const std::vector<F>&bytes,int off,int n){ // CRC-16/CCITT-FALSE over symbolic bytes
  std::vector<F> c(16,1); for(int i=off;i<off+n;i++){ for(int k=0;k<8;k++) c[8+k]=G.x(c[8+k],bytes[8*i+k]); for(int s=0;s<8;s++){ F t=c[15]; for(int k=15;k>0;k--) c[k]=c[k-1]; c[0]=0; for(int k=0;k<16;k++) if(0x1021>>k&1) c[k]=G.x(c[k],t); } } return c; }
// ----------------------------------------------------------------- reporting
static int finish(Interp&I){
  for(auto&e:I.events) printf("{\"alarm\":%s,\"where\":%s,\"detail\":%s}\n",js(e.kind).c_str(),js(e.where).c_str(),js(e.detail).c_str());
  std::string fs; for(auto*f:I.reached) fs+=(fs.empty()?"\"":",\"")+f->getName().str()+"\""; 
  printf("{\"stats\":{\"obligations\":%lu,\"failed\":%lu,\"alarms\":%zu,\"accesses\":%lu,\"steps\":%lu,\"forks\":%lu,\"joins\":%lu,\"forms\":%zu,\"functions\":[%s]}}\n",nob,nbad,I.events.size(),I.accesses,I.steps,I.forks,I.joins,G.tab.size(),fs.c_str());
  return 0; }
static void initL2(Interp&I,State&s){ auto o=I.run("horus_l2_init",{},s); if(o.size()!=1) throw Broken("init outcomes"); s=o[0].st; }

// =================================================================== codec
static int sc_codec(Interp&I){
  State base=I.init; initL2(I,base);
  bool wire=oi("wire",1), rt=oi("roundtrip",1);
  for(int n:ol("sizes","22,32")){
    I.ctx="payload of "+std::to_string(n)+" bytes"; State s=base;
    int pin=mkbuf(I,s,"payload",n); auto pay=putSym(I,s,pin,0,n);
    auto lo=I.run("horus_l2_get_num_tx_data_bytes",{Val::I(32,n)},s); bool lok=lo.size()==1&&lo[0].ret.k==Val::Int&&lo[0].ret.isc; int len=lok?lo[0].ret.sc():-1;
    ob(lok&&len==txLen(n),"wire-length",I.ctx+": packet length",std::to_string(len)+" expected "+std::to_string(txLen(n)));
    if(!lok||len<0||len>100000) continue;
    int tx=mkbuf(I,s,"tx packet (reported size)",len);
    auto outs=I.run("horus_l2_encode_tx_packet",{Val::P(tx,0),Val::P(pin,0),Val::I(32,n)},s);
    ob(!outs.empty(),"encode-returns",I.ctx+": encoder has no normal return");
    for(auto&o:outs){
      ob(o.ret.k==Val::Int&&o.ret.isc&&o.ret.sc()==len,"wire-length",I.ctx+": encoder return value");
      if(wire){ auto w=wireForms(pay,n,true,true); int bad=0; std::string d; for(int i=0;i<std::min(len,txLen(n));i++){ if(!defined(I,o.st,tx,i)){ if(!bad++) d="byte "+std::to_string(i)+" "+cellDesc(I,o.st,tx,i); continue; } auto b=I.cellBits(o.st,tx,i); for(int k=0;k<8;k++) if(o.st.eqs.red(b[k])!=o.st.eqs.red(w[8*i+k])){ if(!bad++) d="byte "+std::to_string(i)+" bit "+std::to_string(k)+": "+fmtForm(b[k]).substr(0,200)+" expected "+fmtForm(w[8*i+k]).substr(0,200); } }
        nob+=len; ob(!bad,"wire-format",I.ctx+": encoded packet differs from the format",std::to_string(bad)+" bits, first: "+d); }
      if(rt){ int out=mkbuf(I,o.st,"decoded payload",n);
        auto ds=I.run("horus_l2_decode_rx_packet",{Val::P(out,0),Val::P(tx,0),Val::I(32,n)},o.st);
        ob(!ds.empty(),"decode-returns",I.ctx+": decoder has no normal return");
        for(auto&d:ds){ int bad=0; std::string dd; for(int i=0;i<n;i++){ if(!defined(I,d.st,out,i)){ if(!bad++) dd="byte "+std::to_string(i)+" "+cellDesc(I,d.st,out,i); continue; } auto b=I.cellBits(d.st,out,i); for(int k=0;k<8;k++) if(d.st.eqs.red(b[k])!=d.st.eqs.red(pay[8*i+k])) if(!bad++) dd="byte "+std::to_string(i)+" bit "+std::to_string(k)+": "+fmtForm(b[k]).substr(0,200); }
          nob+=n; ob(!bad,"round-trip",I.ctx+": decoded payload differs from the encoded one",std::to_string(bad)+" bits, first: "+dd); } }
    } }
  return finish(I); }
// ==================================================================== CRC
static int sc_crc(Interp&I){
  for(int n:ol("sizes","0-126")){ I.ctx="CRC over "+std::to_string(n)+" bytes"; State s=I.init; int p=mkbuf(I,s,"data",n?n:1); auto b=putSym(I,s,p,0,n);
    auto fnT=I.fn("horus_l2_gen_crc16")->getFunctionType(); unsigned lw=fnT->getParamType(1)->getIntegerBitWidth();
    auto outs=I.run("horus_l2_gen_crc16",{Val::P(p,0),Val::I(lw,n)},s); ob(outs.size()>=1,"crc-returns",I.ctx);
    auto c=crcForms(b,0,n); for(auto&o:outs){ bool ok=o.ret.k==Val::Int; for(int k=0;k<16&&ok;k++) if(o.st.eqs.red(o.ret.bit(k))!=o.st.eqs.red(c[k])) ok=false; ob(ok,"crc-definition",I.ctx+": result differs from CRC-16/CCITT-FALSE"); } }
  return finish(I); }
// ================================================================== golay
static int sc_golay(Interp&I){
  State base=I.init; auto o0=I.run("golay23_init",{},base); base=o0.at(0).st;
  // encode
  { State s=base; std::vector<F> x(32,0); for(int i=0;i<12;i++) x[i]=G.fresh();
    I.ctx="golay encode"; 
    auto enc=I.M->getFunction("golay23_encode"); if(enc&&!enc->isDeclaration()){ auto outs=I.run("golay23_encode",{Val::S(x)},s); for(auto&o:outs){ bool ok=true; for(int q=0;q<23;q++){ F f=0; for(int j=0;j<12;j++){ uint32_t w=golayParity(1u<<j)|(1u<<(11+j)); if(w>>q&1) f=G.x(f,x[j]); } if(o.st.eqs.red(o.ret.bit(q))!=f) ok=false; } ob(ok,"golay-encode","golay23_encode is not the systematic (23,12) code of generator 0xC75"); } } }
  auto run1=[&](uint32_t e){ State s=base; std::vector<F> x(12),cw(32,0); for(auto&f:x) f=G.fresh(); for(int q=0;q<23;q++){ F f=(e>>q)&1; for(int j=0;j<12;j++){ uint32_t w=golayParity(1u<<j)|(1u<<(11+j)); if(w>>q&1) f=G.x(f,x[j]); } cw[q]=f; }
    char c[64]; snprintf(c,64,"codeword with error pattern 0x%06x",e); I.ctx=c; auto outs=I.run("golay23_decode",{Val::S(cw)},s); ob(!outs.empty(),"golay-decode",I.ctx+": no return");
    for(auto&o:outs){ bool ok=o.ret.k==Val::Int; for(int j=0;j<12&&ok;j++) if(o.st.eqs.red(o.ret.bit(11+j))!=x[j]) ok=false; for(int j=23;j<32&&ok;j++) if(o.ret.bit(j)!=0) ok=false; ob(ok,"golay-correct",I.ctx+": data bits are not recovered"); } };
  run1(0); for(int a=0;a<23;a++){ run1(1u<<a); for(int b=a+1;b<23;b++){ run1(1u<<a|1u<<b); for(int c=b+1;c<23;c++) run1(1u<<a|1u<<b|1u<<c); } }
  return finish(I); }
// packet level: every codeword of a packet carries the same error pattern
static int sc_packeterr(Interp&I){
  State base=I.init; initL2(I,base); int stride=oi("stride",1),phase=oi("phase",0);
  std::vector<uint32_t> pats={0}; for(int a=0;a<23;a++){ pats.push_back(1u<<a); for(int b=a+1;b<23;b++){ pats.push_back(1u<<a|1u<<b); for(int c=b+1;c<23;c++) pats.push_back(1u<<a|1u<<b|1u<<c);} }
  for(int n:ol("sizes","22")){ auto cw=cwPositions(n); int len=txLen(n); State s0=base; int pin=mkbuf(I,s0,"payload",n); auto pay=putSym(I,s0,pin,0,n); auto w=wireForms(pay,n,true,true);
    auto one=[&](const std::vector<F>&bits,const std::string&ctx){ I.ctx=ctx; State s=s0; int tx=mkbuf(I,s,"rx packet",len),out=mkbuf(I,s,"decoded payload",n); for(int i=0;i<len;i++) I.wobj(s,tx).cells[i]=I.symCell(std::vector<F>(bits.begin()+8*i,bits.begin()+8*i+8));
      auto ds=I.run("horus_l2_decode_rx_packet",{Val::P(out,0),Val::P(tx,0),Val::I(32,n)},s); ob(!ds.empty(),"decode-returns",ctx); for(auto&d:ds){ bool ok=true; for(int i=0;i<n&&ok;i++){ if(!defined(I,d.st,out,i)){ ok=false; break; } auto b=I.cellBits(d.st,out,i); for(int k=0;k<8;k++) if(d.st.eqs.red(b[k])!=pay[8*i+k]) ok=false; } ob(ok,"packet-correct",ctx+": payload not recovered"); } };
    if(oi("same",1)) for(size_t p=phase;p<pats.size();p+=stride){ auto b=w; for(auto&c:cw) for(int q=0;q<23;q++) if(pats[p]>>q&1&&c[q]>=0) b[c[q]]=G.inv(b[c[q]]); char t[120]; snprintf(t,120,"%d-byte packet, error pattern 0x%06x in every codeword",n,pats[p]); one(b,t); }
    if(oi("single",0)) for(int q=0;q<(int)w.size();q++){ auto b=w; b[q]=G.inv(b[q]); char t[120]; snprintf(t,120,"%d-byte packet, wire bit %d inverted",n,q); one(b,t); }
  }
  return finish(I); }
// ============================================================ frame extraction
struct Api { Interp&I; Fields H,K; Api(Interp&i):I(i){ H.sn="horus"; H.m=fieldsOf(*I.M,"horus"); K.sn="FSK"; K.m=fieldsOf(*I.M,"FSK"); }
  int64_t geti(State&s,int o,const char*f){ auto a=H.at(f); return getInt(I,s,o,a.first,a.second); }
  void seti(State&s,int o,const char*f,int64_t v){ auto a=H.at(f); setInt(I,s,o,a.first,a.second,v); }
  Val getp(State&s,int o,const char*f){ return getPtr(I,s,o,H.at(f).first); } };
static std::vector<std::pair<State,int>> openModem(Interp&I,int mode,int Rs,int ts,int Fs,int P){
  std::vector<std::pair<State,int>> r; auto outs=I.run("horus_open_advanced_sample_rate",{Val::I(32,mode),Val::I(32,Rs),Val::I(32,ts),Val::I(32,Fs),Val::I(32,P)},I.init);
  for(auto&o:outs){ if(o.ret.k!=Val::Ptr||!o.ret.obj) throw Broken("open does not return a handle"); r.push_back({o.st,o.ret.obj}); } if(r.empty()) throw Broken("open has no normal outcome"); return r; }
static int callInt(Interp&I,State&s,const char*f,std::vector<Val> a){ auto o=I.run(f,a,s); if(o.size()!=1||o[0].ret.k!=Val::Int||!o[0].ret.isc) throw Broken(std::string(f)+": no single constant result"); s=o[0].st; return o[0].ret.sc(); }
// hex text at obj+off -> payload byte forms; false if some character is not the exact digit of a nibble
static bool hexBytes(Interp&I,State&s,int obj,int n,std::vector<F>&bytes,std::string&why){
  bytes.assign(8*n,0); for(int i=0;i<2*n;i++){ if(!defined(I,s,obj,i)){ why="character "+std::to_string(i)+" is "+cellDesc(I,s,obj,i); return false; } auto b=I.cellBits(s,obj,i); std::vector<F> nib(4);
    auto&c=I.robj(s,obj).cells[i]; if(c.k==Cell::Const){ const char*h="0123456789ABCDEF"; const char*p=strchr(h,c.c); if(!c.c||!p){ why="character "+std::to_string(i)+" is not an upper-case hex digit"; return false; } int v=p-h; for(int k=0;k<4;k++) nib[k]=(v>>k)&1; }
    else { auto it=hexOf.find(b); if(it==hexOf.end()){ why="character "+std::to_string(i)+" is not the upper-case hex digit of a decoded nibble"; return false; } nib=it->second; nib.resize(4,0); if(it->second.size()!=4){ why="partial nibble"; return false; } }
    int base=8*(i/2)+(i%2?0:4); for(int k=0;k<4;k++) bytes[base+k]=nib[k]; }
  if((int)I.robj(s,obj).size<=2*n||!(I.robj(s,obj).cells[2*n].k==Cell::Const&&I.robj(s,obj).cells[2*n].c==0)){ why="text is not terminated after "+std::to_string(2*n)+" digits"; return false; }
  return true; }
static F crcMatch(State&s,const std::vector<F>&b,int off,int n,int lo,int hi){ auto c=crcForms(b,off,n); std::vector<F> d; for(int k=0;k<16;k++){ F t= k<8?b[8*lo+k]:b[8*hi+k-8]; d.push_back(s.eqs.red(G.x(s.eqs.red(c[k]),s.eqs.red(t)))); } return s.eqs.red(G.allzero(d)); }
static int sc_binary(Interp&I){
  Api A(I); int which=oi("frame",0); // 0: v1 (22 bytes), otherwise size of the long frame
  auto opened=openModem(I,0,oi("Rs",-1),oi("ts",-1),oi("Fs",48000),oi("P",8)); if(opened.size()!=1) throw Broken("open outcomes"); State base=opened[0].first; int h=opened[0].second;
  if(oi("verbose",0)) A.seti(base,h,"verbose",1);
  int L=A.geti(base,h,"rx_bits_len"); Val rb=A.getp(base,h,"rx_bits"); if(rb.k!=Val::Ptr||!rb.obj||L<=0) throw Broken("rx_bits");
  int cap=callInt(I,base,"horus_get_max_ascii_out_len",{Val::P(h,0)}); int n= which?which:22; int nbits= which?txLen(n)*8:360;
  ob(cap>=2*n+1,"reported-size",std::to_string(n)+"-byte frame: reported text capacity "+std::to_string(cap)+" cannot hold "+std::to_string(2*n)+" digits and the terminator");
  auto call=[&](State&s,int out,int loc){ std::vector<Val> a={Val::P(h,0),Val::P(out,0),Val::I(32,loc)}; if(which) a.push_back(Val::I(32,n)); return I.run(which?"extract_horus_binary_v2_256":"extract_horus_binary_v1",a,s); };
  std::vector<int> locs; int last=L-nbits; // last position at which the frame is complete
  for(int v:ol("locs","0,1,7,-1")) { int p= v<0? last+1+v : v; if(p>=0&&p<=last) locs.push_back(p); }
  if(oi("all",0)) for(int p=oi("from",0);p<=last;p+=oi("step",1)) locs.push_back(p);
  if(oi("tailall",1)) for(int p=last+1;p<L;p++) locs.push_back(p); 
  std::sort(locs.begin(),locs.end()); locs.erase(std::unique(locs.begin(),locs.end()),locs.end()); info("positions",std::to_string(locs.size())); info("buffer bits",std::to_string(L));
  for(int loc:locs){ bool full=loc<=last;
   for(int sc=0;sc<(full?2:1);sc++){
    State s=base; I.ctx=std::to_string(n)+"-byte frame at bit "+std::to_string(loc)+(sc?" (valid frame)":" (any bits)"); s.part.insert(h);
    int out=mkbuf(I,s,"text buffer of the reported size",cap);
    auto&cells=I.wobj(s,rb.obj).cells; for(int i=0;i<L;i++){ std::vector<F> b(8,0); if(i>=loc&&i<loc+nbits+16) b[0]=G.fresh(); else b[0]=0; cells[rb.c+i]=I.symCell(b); }
    // bits outside the frame window: one shared unknown bit each side is enough, they must not be used
    F pre=G.fresh(),post=G.fresh(); for(int i=0;i<loc&&i<L;i++){ std::vector<F> b(8,0); b[0]=pre; cells[rb.c+i]=I.symCell(b);} for(int i=loc+nbits;i<L;i++){ std::vector<F> b(8,0); b[0]=post; cells[rb.c+i]=I.symCell(b);} 
    std::vector<std::vector<F>> valid; std::vector<int> headForm;
    if(sc==0) valid.push_back({});
    else { for(int head=0;head<2;head++){ if(!which&&head) continue; if(which&&n!=32&&!head) continue; std::vector<F> p(8*n); for(auto&f:p) f=G.fresh(); auto c=crcForms(p,head?2:0,n-2); for(int k=0;k<16;k++) p[8*(head?(k<8?0:1):(k<8?n-2:n-1))+k%8]=c[k]; valid.push_back(p); headForm.push_back(head);} }
    for(size_t vi=0;vi<valid.size();vi++){ State t=s; 
      if(sc){ auto w=wireForms(valid[vi],n,true,true); for(int i=0;i<txLen(n)*8&&i<nbits;i++){ std::vector<F> b(8,0); b[0]=w[8*(i/8)+7-i%8]; I.wobj(t,rb.obj).cells[rb.c+loc+i]=I.symCell(b);} }
      A.seti(t,h,"crc_ok",0); A.seti(t,h,"version",99); A.seti(t,h,"total_payload_bits",-7);
      auto outs=call(t,out,loc); ob(!outs.empty(),"extract-returns",I.ctx+": no normal return");
      bool anyAcc=false;
      for(auto&o:outs){
        if(o.ret.k!=Val::Int||!o.ret.isc){ ob(false,"extract-result",I.ctx+": result is not decided by the checksum"); continue; }
        bool acc=o.ret.c!=0; if(acc) anyAcc=true;
        if(!full){ ob(!acc,"incomplete-frame",I.ctx+": reported although the frame is not complete in the buffer"); continue; }
        std::vector<F> by; std::string why; bool hx=hexBytes(I,o.st,out,n,by,why);
        if(acc){
          ob(hx,"exact-hex",I.ctx+": reported text is not the payload in upper-case hex",why); if(!hx) continue;
          F tail=crcMatch(o.st,by,0,n-2,n-2,n-1), head=crcMatch(o.st,by,2,n-2,0,1);
          bool tailOk= tail==1&&(!which||n==32), headOk= which&&head==1;
          ob(tailOk||headOk,"crc-gate",I.ctx+": reported although the payload checksum is not known to match");
          ob(A.geti(o.st,h,"crc_ok")==1,"crc-flag",I.ctx+": checksum flag not set for a reported frame",std::to_string(A.geti(o.st,h,"crc_ok")));
          int64_t v=A.geti(o.st,h,"version"); ob(!which? v==1 : (v==2&&tailOk)||(v==3&&headOk),"version",I.ctx+": wrong protocol version for the checksum that matched","version "+std::to_string(v));
          ob(A.geti(o.st,h,"total_payload_bits")==n,"payload-size",I.ctx+": payload size record",std::to_string(A.geti(o.st,h,"total_payload_bits")));
          if(sc){ bool same=true; for(int i=0;i<8*n;i++) if(o.st.eqs.red(by[i])!=o.st.eqs.red(valid[vi][i])) same=false; ob(same,"exact-payload",I.ctx+": reported payload differs from the transmitted one"); if(which&&headForm[vi]) ob(v==3||tail==1,"version",I.ctx+": head-checksum frame"); }
        } else {
          ob(A.geti(o.st,h,"crc_ok")==0,"crc-flag",I.ctx+": checksum flag set for a frame that is not reported");
          ob(A.geti(o.st,h,"total_payload_bits")==-7,"payload-size",I.ctx+": payload size updated for a frame that is not reported");
          if(sc) ob(false,"valid-frame-accepted",I.ctx+": a valid frame is rejected");
          else if(hx){ F tail=crcMatch(o.st,by,0,n-2,n-2,n-1), head=crcMatch(o.st,by,2,n-2,0,1); bool bad= (!which? tail!=0 : (n==32&&tail!=0)||head!=0); ob(!bad,"valid-checksum-accepted",I.ctx+": a payload with a matching checksum can be rejected"); }
        } }
      if(full&&outs.size()) ob(anyAcc,"acceptance-possible",I.ctx+": never accepted");
    } } }
  return finish(I); }

static int sc_rtty(Interp&I){
  Api A(I); int mode=oi("mode",90); int nb= mode==91?8:7, stop= mode==89?1:2, step=nb+stop+1;
  auto opened=openModem(I,mode,oi("Rs",-1),oi("ts",-1),oi("Fs",48000),oi("P",8)); if(opened.size()!=1) throw Broken("open outcomes"); State base=opened[0].first; int h=opened[0].second;
  int L=A.geti(base,h,"rx_bits_len"); Val rb=A.getp(base,h,"rx_bits"); if(rb.k!=Val::Ptr||!rb.obj||L<=0) throw Broken("rx_bits");
  int cap=callInt(I,base,"horus_get_max_ascii_out_len",{Val::P(h,0)}); info("buffer bits",std::to_string(L)); info("text capacity",std::to_string(cap));
  if(oi("verbose",0)) A.seti(base,h,"verbose",1);
  auto setbits=[&](State&s,int at,const std::vector<F>&b){ for(size_t i=0;i<b.size();i++){ if(at+(int)i>=L) break; std::vector<F> c(8,0); c[0]=b[i]; I.wobj(s,rb.obj).cells[rb.c+at+i]=I.symCell(c);} };
  auto call=[&](State&s,int out,int loc){ return I.run("extract_horus_rtty",{Val::P(h,0),Val::P(out,0),Val::I(32,loc),Val::I(32,nb),Val::I(32,stop)},s); };
  std::string sub=os("sub","any");
  if(sub=="any"){ // every bit unknown: memory safety, result is checksum flag
    std::vector<int> locs; for(int v:ol("locs","0,1,-1")) { int p=v<0?L+v:v; if(p>=0&&p<L) locs.push_back(p); } if(oi("all",0)) for(int p=oi("from",0);p<L;p+=oi("step",1)) locs.push_back(p);
    std::sort(locs.begin(),locs.end()); locs.erase(std::unique(locs.begin(),locs.end()),locs.end()); info("positions",std::to_string(locs.size()));
    for(int loc:locs){ State s=base; I.ctx="RTTY text at bit "+std::to_string(loc)+" of "+std::to_string(L); s.part.insert(h); int out=mkbuf(I,s,"text buffer of the reported size",cap);
      for(int i=0;i<L;i++){ std::vector<F> c(8,0); c[0]=G.fresh(); I.wobj(s,rb.obj).cells[rb.c+i]=I.symCell(c);} 
      A.seti(s,h,"crc_ok",0); A.seti(s,h,"total_payload_bits",-7);
      auto outs=call(s,out,loc); ob(!outs.empty(),"extract-returns",I.ctx+": no normal return");
      for(auto&o:outs){ bool acc; if(o.ret.k!=Val::Int||!o.ret.isc){ ob(false,"extract-result",I.ctx+": result not decided"); continue; } acc=o.ret.c!=0;
        ob(A.geti(o.st,h,"crc_ok")==(acc?1:0),"crc-flag",I.ctx+": checksum flag disagrees with the result");
        if(!acc) ob(A.geti(o.st,h,"total_payload_bits")==-7,"payload-size",I.ctx+": payload size updated although nothing is reported"); } } 
    return finish(I); }
  // sub=text: '*' at character s, concrete checksum characters, text characters unknown but different from '*' in one bit
  auto stars=ol("stars","8"); auto classes=ol("classes","6"); auto quads=os("quads","30303030"); 
  std::vector<std::vector<int>> Q; { std::string t; for(char c:quads+","){ if(c==','){ std::vector<int> q; for(size_t i=0;i+1<t.size()+1&&i+2<=t.size();i+=2) q.push_back(strtol(t.substr(i,2).c_str(),0,16)); if(q.size()==4) Q.push_back(q); t.clear(); } else t+=c; } }
  if(oi("sweep",0)) for(int k=0;k<4;k++) for(int c=0;c<(1<<nb);c++){ std::vector<int> q={'0','7','a','F'}; q[k]=c; Q.push_back(q); }
  auto hexv=[](int c){ return c>='0'&&c<='9'?c-'0':c>='A'&&c<='F'?c-'A'+10:c>='a'&&c<='f'?c-'a'+10:-1; };
  auto dollars=ol("dollars","-1"); // number of leading '$' fixed concretely; -1: all text unknown
  for(int loc:ol("locs","0")) for(int sp:stars) for(int cl:classes) for(int dl:dollars) for(auto&q:Q){
    if(loc<0) loc=L-(sp+6)*step+loc; if(loc<0||dl>sp) continue; 
    char cx[200]; snprintf(cx,200,"%d-bit RTTY at bit %d, '*' after %d characters, checksum characters %02X %02X %02X %02X, text class %d, %d leading $",nb,loc,sp,q[0],q[1],q[2],q[3],cl,dl); I.ctx=cx;
    State s=base; s.part.insert(h); int out=mkbuf(I,s,"text buffer of the reported size",cap); F pad=G.fresh(); for(int i=0;i<L;i++){ std::vector<F> c(8,0); c[0]=pad; I.wobj(s,rb.obj).cells[rb.c+i]=I.symCell(c);} 
    std::vector<std::vector<F>> tx; for(int c=0;c<sp;c++){ std::vector<F> b(8,0); for(int k=0;k<nb;k++) b[k]= c<dl?('$'>>k)&1: k==cl?(('*'>>k)&1)^1: G.fresh(); tx.push_back(b);} 
    auto put=[&](int ci,std::vector<F> b){ b.resize(nb); setbits(s,loc+ci*step,b); };
    auto cst=[&](int v){ std::vector<F> b(8); for(int k=0;k<8;k++) b[k]=(v>>k)&1; return b; };
    for(int c=0;c<sp;c++) put(c,tx[c]); put(sp,cst('*')); for(int k=0;k<4;k++) put(sp+1+k,cst(q[k]));
    for(int c=sp+5;c<sp+8;c++){ std::vector<F> b(8,0); for(int k=0;k<nb;k++) b[k]=G.fresh(); put(c,b);} 
    bool hex=true; int val=0; for(int k=0;k<4;k++){ int v=hexv(q[k]); if(v<0) hex=false; val=val*16+(v&15); }
    A.seti(s,h,"crc_ok",0); A.seti(s,h,"total_payload_bits",-7);
    auto outs=call(s,out,loc); ob(!outs.empty(),"extract-returns",I.ctx+": no normal return"); bool complete= sp+5+1<=cap && loc+oi("maxbits",L)>=0; 
    bool anyAcc=false;
    for(auto&o:outs){ if(o.ret.k!=Val::Int||!o.ret.isc){ ob(false,"extract-result",I.ctx+": result not decided"); continue; } bool acc=o.ret.c!=0; anyAcc|=acc;
      ob(A.geti(o.st,h,"crc_ok")==(acc?1:0),"crc-flag",I.ctx+": checksum flag disagrees with the result");
      // number of leading dollars in this outcome: decided if each text character is known to be / not to be '$'
      std::vector<F> flat; for(auto&t:tx) for(F f:t) flat.push_back(f);
      auto isd=[&](int c)->int{ std::vector<F> d; for(int k=0;k<8;k++) d.push_back(o.st.eqs.red(G.x(tx[c][k],('$'>>k)&1))); F f=o.st.eqs.red(G.allzero(d)); return f==1?1:f==0?0:-1; };
      // matches[r]: condition "CRC over text after r dollars == val"
      auto match=[&](int r){ auto c=crcForms(flat,r,sp-r); std::vector<F> d; for(int k=0;k<16;k++) d.push_back(o.st.eqs.red(G.x(c[k],(val>>k)&1))); return o.st.eqs.red(G.allzero(d)); };
      int r=0; bool known=true; while(r<sp&&r<8){ int v=isd(r); if(v<0){ known=false; break; } if(v==0) break; r++; }
      if(acc){ ob(hex,"crc-hex",I.ctx+": reported although a checksum character is not a hex digit");
        if(hex){ bool ok=false; if(known&&r<8) ok=match(r)==1; else if(r>=8) ok=match(0)==1||match(8)==1; else for(int z=0;z<=std::min(sp,7)&&!ok;z++){ bool pre=true; for(int c=0;c<z;c++) if(isd(c)!=1) pre=false; if(pre&&match(z)==1) ok=true; }
          ob(ok,"crc-gate",I.ctx+": reported although the checksum of the text does not match the transmitted one"); }
        bool ex=true; std::string why; for(int c=0;c<sp+5&&ex;c++){ std::vector<F> want= c<sp?tx[c]: c==sp?cst('*'):cst(q[c-sp-1]); if(!defined(I,o.st,out,c)){ ex=false; why=cellDesc(I,o.st,out,c); break; } auto b=I.cellBits(o.st,out,c); for(int k=0;k<8;k++) if(o.st.eqs.red(b[k])!=o.st.eqs.red(want[k])){ ex=false; why="character "+std::to_string(c); } }
        ob(ex,"exact-text",I.ctx+": reported text differs from the received characters",why);
        auto&z=I.robj(o.st,out).cells[sp+5]; ob(z.k==Cell::Const&&z.c==0,"exact-text",I.ctx+": reported text is not terminated after the checksum");
      } else if(hex&&sp+6<=cap-1){ if(known&&r<8&&r<sp+1) ob(match(r)==0,"valid-checksum-accepted",I.ctx+": a line with a matching checksum can be rejected"); }
    }
    if(hex&&sp>=6&&sp+6<=cap-1&&oi("mustaccept",1)) ob(anyAcc,"acceptance-possible",I.ctx+": never accepted");
  }
  return finish(I); }
// ============================================================ stream handling
struct RxRun { std::vector<int> newbits; std::vector<std::vector<F>> newforms; int calls=0; bool ok=true; std::string why; };
static int sc_rx(Interp&I){
  Api A(I); int mode=oi("mode",0); std::string sub=os("sub","list");
  auto opened=openModem(I,mode,oi("Rs",-1),oi("ts",-1),oi("Fs",48000),oi("P",8)); if(opened.size()!=1) throw Broken("open outcomes"); State base=opened[0].first; int h=opened[0].second;
  int L=A.geti(base,h,"rx_bits_len"); Val rb=A.getp(base,h,"rx_bits"); Val fk=A.getp(base,h,"fsk"); if(rb.k!=Val::Ptr||!rb.obj||L<=0||fk.k!=Val::Ptr||!fk.obj) throw Broken("rx_bits");
  auto geK=[&](State&s,const char*f){ auto a=A.K.at(f); return getInt(I,s,fk.obj,fk.c+a.first,a.second); };
  int Nb=geK(base,"Nbits"), nin=geK(base,"nin"); int cap=callInt(I,base,"horus_get_max_ascii_out_len",{Val::P(h,0)}); int UL=A.geti(base,h,"uw_len");
  auto ul=A.H.at("uw_loc"); int MAXU=ul.second/4; info("buffer bits",std::to_string(L)); info("bits per call",std::to_string(Nb)); if(Nb<=0||UL<=0||nin<=0) throw Broken("modem state");
  if(oi("verbose",0)) A.seti(base,h,"verbose",1);
  // the receiver's own idea of the sync word, fixed by the protocol
  std::vector<int> UW; if(mode==0) for(int b=0;b<2;b++) for(int k=7;k>=0;k--) UW.push_back(0x24>>k&1); else { int nbch= mode==91?8:7, stp= mode==89?1:2; for(int r=0;r<2;r++){ for(int k=0;k<nbch;k++) UW.push_back(0x24>>k&1); for(int k=0;k<stp;k++) UW.push_back(1); UW.push_back(0); } }
  // RTTY: characters are sent start(0) data stop(1); the receiver frames from the first data bit
  ob(UL==(int)UW.size(),"sync-word","length of the sync word the receiver searches for",std::to_string(UL)); UL=UW.size();
  RxRun R; bool quad=false;
  I.stubs["fsk_demod_core"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){
    R.calls++;
    if(!(a.size()>=4&&a[1].k==Val::Ptr&&a[1].obj==rb.obj&&a[1].isc&&(int64_t)a[1].c==(int64_t)rb.c+L-Nb)){ R.ok=false; R.why="new bits are not stored at the end of the bit buffer"; }
    else { J.check(st,a[1],Nb,true,CB); for(int i=0;i<Nb;i++){ std::vector<F> b(8,0); b[0]= R.newforms.empty()? R.newbits[i] : R.newforms[0][i]; J.wobj(st,a[1].obj).cells[a[1].c+i]=J.symCell(b); } }
    if(a.size()>=4&&a[2].k==Val::Ptr&&a[2].obj) J.check(st,a[2],4*Nb,true,CB);
    if(a.size()>=4&&a[3].k==Val::Ptr&&J.check(st,a[3],8*nin,false,CB)){ for(int i=0;i<nin&&R.ok;i++) for(int q=0;q<2;q++){ Val v=J.loadAt(st,a[3].obj,a[3].c+8*i+4*q,Type::getFloatTy(J.M->getContext())); double want= quad? (double)(int16_t)(2*i+q+1) : q?0:(double)(int16_t)(i+1); if(v.k!=Val::Fp||v.d!=want){ R.ok=false; R.why="sample "+std::to_string(i)+(q?" (imaginary)":" (real)")+" handed to the demodulator is not the caller's sample"; break; } } }
    Out o; o.st=std::move(st); r.push_back(std::move(o)); return true; };
  auto getList=[&](State&s,std::vector<int>&out,bool&known){ out.clear(); known=true; int64_t c64=A.geti(s,h,"uw_count"); if(c64<0||c64>MAXU){ known=false; return -1; } int c=(int)c64; for(int i=0;i<c;i++){ bool k; int64_t v=getInt(I,s,h,ul.first+4*i,4,&k); if(!k) known=false; if(v>=0) out.push_back(v); } return c; };
  auto setList=[&](State&s,const std::vector<int>&v){ A.seti(s,h,"uw_count",v.size()); for(size_t i=0;i<v.size();i++) setInt(I,s,h,ul.first+4*i,4,v[i]); };
  auto setBit=[&](State&s,int i,F f){ std::vector<F> b(8,0); b[0]=f; I.wobj(s,rb.obj).cells[rb.c+i]=I.symCell(b); };
  auto rx=[&](State&s,int out,bool q){ quad=q; R.calls=0; R.ok=true; R.why.clear(); int din=mkbuf(I,s,"caller's sample buffer (as many samples as asked for)",2*nin*(q?2:1)); for(int i=0;i<nin*(q?2:1);i++) I.storeAt(s,din,2*i,Val::I(16,i+1),Type::getInt16Ty(I.M->getContext()));
    auto o=I.run("horus_rx",{Val::P(h,0),Val::P(out,0),Val::P(din,0),Val::I(32,q)},s); ob(!o.empty(),"rx-returns",I.ctx+": no normal return"); ob(R.calls>=1,"demod-called",I.ctx+": the samples are not demodulated"); ob(R.ok,"stream-order",I.ctx+": "+R.why); return o; };
  auto lst=[](const std::vector<int>&v){ std::string r; for(int x:v) r+=(r.empty()?"":",")+std::to_string(x); return "["+r+"]"; };
  auto heapcheck=[&](State&s,size_t from){ for(size_t i=from;i<s.objs.size();i++) if(s.objs[i]->kind==Obj::Heap&&!s.objs[i]->freed&&s.objs[i]->name.rfind("heap@",0)==0) ob(false,"rx-leak",I.ctx+": storage allocated during the call is still held: "+s.objs[i]->name); };
  if(sub=="shift"){ // every older bit keeps its place in the stream, every new bit is appended; samples are passed in order
    for(int q=0;q<2;q++){ State s=base; s.part.insert(h); I.ctx=std::string("mode ")+std::to_string(mode)+(q?", quadrature samples":", real samples"); std::vector<F> old(L); for(int i=0;i<L;i++){ old[i]= i<L-UL ? G.fresh() : 0; setBit(s,i,old[i]); } R.newforms.clear(); R.newbits.assign(Nb,0); for(int i=0;i<Nb;i++) R.newbits[i]= mode?1:0; int out=mkbuf(I,s,"text buffer of the reported size",cap); size_t n0=s.objs.size();
      for(auto&o:rx(s,out,q)){ int bad=0; std::string d; for(int i=0;i<L;i++){ F want= i<L-Nb? old[i+Nb] : R.newbits[i-(L-Nb)]; nob++; if(!defined(I,o.st,rb.obj,rb.c+i)||o.st.eqs.red(I.cellBits(o.st,rb.obj,rb.c+i)[0])!=want){ if(!bad++) d="bit "+std::to_string(i); } } ob(!bad,"stream-order",I.ctx+": the bit buffer is not the previous stream shifted by the new bits",d); ob(o.ret.k==Val::Int&&o.ret.isc&&o.ret.c==0,"no-report",I.ctx+": a packet is reported although no sync word was seen"); std::vector<int> l; bool k; getList(o.st,l,k); ob(k&&l.empty(),"sync-list",I.ctx+": a position is tracked although no sync word was seen",lst(l)); heapcheck(o.st,n0); } }
    return finish(I); }
  if(sub=="list"){
    int idle= mode?1:0; auto blank=[&](){ State s=base; for(int i=0;i<L;i++) setBit(s,i,idle); s.part.insert(h); R.newforms.clear(); R.newbits.assign(Nb,idle); return s; };
    auto step=[&](State s,const std::vector<int>&prior,const std::vector<int>&found,bool mayReport){ // prior positions before the call, found: positions after the call at which a sync word has appeared
      setList(s,prior); int out=mkbuf(I,s,"text buffer of the reported size",cap); size_t n0=s.objs.size(); std::vector<int> want; for(int p:prior) if(p-Nb>=0) want.push_back(p-Nb); size_t keep=want.size(); for(int p:found) want.push_back(p); bool over=(int)want.size()>MAXU; 
      for(auto&o:rx(s,out,false)){ std::vector<int> l; bool k; int c=getList(o.st,l,k); ob(c>=0&&c<=MAXU,"sync-list",I.ctx+": number of tracked positions out of range",std::to_string(c)); ob(k,"sync-list",I.ctx+": tracked positions not determined"); auto a=l,b=want; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); ob(o.ret.k==Val::Int&&o.ret.isc&&o.ret.c==0,"no-report",I.ctx+": a packet is reported although there is none");
        if(!over) ob(a==b,"sync-list",I.ctx+": tracked positions after the call",lst(a)+" expected "+lst(b)); else { bool in=true; for(size_t i=0;i<keep;i++) if(!std::count(a.begin(),a.end(),want[i])) in=false; for(int x:a) if(!std::count(b.begin(),b.end(),x)) in=false; ob(in&&(int)a.size()==MAXU,"sync-list",I.ctx+": tracked positions after the call when the table is full",lst(a)); } heapcheck(o.st,n0); } };
    int W0=L-Nb-UL; // first position searched after a call
    { State s=blank(); std::vector<std::vector<int>> priors={{},{0},{Nb-1},{Nb},{Nb+1},{W0+Nb-1},{Nb-1,Nb,Nb+7,W0},{3,5,Nb+30,W0+2,Nb+200}}; { std::vector<int> f; for(int i=0;i<MAXU;i++) f.push_back(Nb+3+i*5); priors.push_back(f); for(int i=0;i<MAXU/2;i++) f[i]=i; priors.push_back(f); }
      for(auto&p:priors){ I.ctx="mode "+std::to_string(mode)+", tracked "+lst(p)+", no new sync word"; step(blank(),p,{},false); } }
    auto place=[&](State&s,int at,int err){ for(int k=0;k<UL;k++){ int b=UW[k]^(k==err); int i=at+k; if(i<L-Nb) setBit(s,i+Nb,b); else R.newbits[i-(L-Nb)]=b; } };
    int ph=oi("phase",0),st=oi("stride",1),cnt=0;
    for(int o=0;o<Nb;o++){ std::vector<int> errs={-1}; if(o==0||o==Nb/2||o==Nb-1||oi("allerr",0)) for(int e=0;e<UL;e++) errs.push_back(e);
      for(int e:errs){ if(cnt++%st!=ph) continue; State s=blank(); place(s,W0+o,e); I.ctx="mode "+std::to_string(mode)+", sync word "+(e<0?std::string("without errors"):"with bit "+std::to_string(e)+" wrong")+" at offset "+std::to_string(o)+" of the search window";
        // positions at which the word (with at most one wrong bit) really occurs
        std::vector<int> occ; { std::vector<int> w(Nb+UL,idle); for(int k=0;k<UL;k++) if(o+k<(int)w.size()) w[o+k]=UW[k]^(k==e); for(int i=0;i<Nb;i++){ int d=0; for(int k=0;k<UL;k++) d+=w[i+k]!=UW[k]; if(d<=1) occ.push_back(W0+i); } }
        ob(std::count(occ.begin(),occ.end(),W0+o)==1,"oracle",I.ctx); step(s,{},occ,false); if(o%17==3){ State t=blank(); place(t,W0+o,e); I.ctx+=", others tracked"; step(t,{1,Nb,Nb+100},occ,false); } if(o==5){ State t=blank(); place(t,W0+o,e); std::vector<int> f; for(int i=0;i<MAXU;i++) f.push_back(Nb+3+i*5); I.ctx+=", table full"; step(t,f,occ,false); f[4]=2; State u=blank(); place(u,W0+o,e); I.ctx+=" but one expiring"; step(u,f,occ,false); } } }
    // sync words that overlap: after a previously tracked one, and two in the window
    auto occOf=[&](int o,const std::vector<int>&w){ std::vector<int> r; for(int i=0;i<Nb;i++){ int d=0; for(int k=0;k<UL;k++) d+=w[i+k]!=UW[k]; if(d<=1) r.push_back(W0+i); } return r; };
    for(int o=0;o<4;o++) for(int d: {1,2,7,UL-1}){ if(cnt++%st!=ph) continue; State s=blank(); place(s,W0+o,-1); std::vector<int> w(Nb+UL,idle); for(int k=0;k<UL;k++) w[o+k]=UW[k]; I.ctx="mode "+std::to_string(mode)+", sync word at offset "+std::to_string(o)+" of the search window, another tracked "+std::to_string(d+o)+" bits before"; step(s,{W0+Nb-d},occOf(o,w),false); }
    for(int d=1;d<=UL+2;d++) for(int o: {0,Nb/3,Nb-1-d}){ if(o<0||o+d>=Nb) continue; std::vector<int> w(Nb+UL,idle); int e1=0,e2=0; bool have=true; for(int k=0;k<UL+d;k++){ bool A=k<UL,B=k>=d; int a=A?UW[k]:-1,b=B?UW[k-d]:-1; int v; if(A&&B&&a!=b){ if(e1==0){ v=b; e1=1; } else if(e2==0){ v=a; e2=1; } else { have=false; break; } } else v= A?a:b; w[o+k]=v; } if(!have) continue; if(cnt++%st!=ph) continue;
      State s=blank(); for(int k=0;k<UL+d;k++){ int i=W0+o+k; if(i<L-Nb) setBit(s,i+Nb,w[o+k]); else R.newbits[i-(L-Nb)]=w[o+k]; } auto occ=occOf(o,w); I.ctx="mode "+std::to_string(mode)+", sync words at offsets "+std::to_string(o)+" and "+std::to_string(o+d)+" of the search window"; ob(std::count(occ.begin(),occ.end(),W0+o)&&std::count(occ.begin(),occ.end(),W0+o+d),"oracle",I.ctx); step(s,{},occ,false); }
    return finish(I); }
  if(sub=="frame"){ // a complete valid frame at a tracked position is reported, once
    if(mode==0) for(int n:ol("sizes","22,32,48,64,96,128")) for(int head=0;head<2;head++){ if(n==22&&head) continue; if(n>32&&!head) continue; int nb= n==22?360:txLen(n)*8; 
      for(int p:ol("at","0,1,100,2100")){ if(p+nb>L-Nb-UL) continue; State s=base; for(int i=0;i<L;i++) setBit(s,i,0); s.part.insert(h); R.newforms.clear(); R.newbits.assign(Nb,0); std::vector<F> pl(8*n); for(auto&f:pl) f=G.fresh(); auto c=crcForms(pl,head?2:0,n-2); for(int k=0;k<16;k++) pl[8*(head?(k<8?0:1):(k<8?n-2:n-1))+k%8]=c[k]; auto w=wireForms(pl,n,true,true); for(int i=0;i<nb;i++) setBit(s,p+Nb+i,w[8*(i/8)+7-i%8]);
        std::vector<int> p2s; for(int x:{p+nb,p+nb+40,p+nb+400}) if(x+Nb<L-UL) p2s.push_back(x+Nb); std::vector<int> pr={p+Nb}; if(p>=2000){ pr.insert(pr.begin(),{Nb,Nb+9}); /* false sync words before it, followed by nothing valid */ } pr.insert(pr.end(),p2s.begin(),p2s.end()); setList(s,pr); A.seti(s,h,"crc_ok",0); A.seti(s,h,"version",99); int out=mkbuf(I,s,"text buffer of the reported size",cap); I.ctx="valid "+std::to_string(n)+"-byte frame ("+(head?"leading":"trailing")+" checksum) tracked at bit "+std::to_string(p); size_t n0=s.objs.size(); bool exact=false;
        for(auto&o:rx(s,out,false)){ bool rep=o.ret.k==Val::Int&&o.ret.isc&&o.ret.c!=0; ob(rep,"frame-reported",I.ctx+": not reported"); heapcheck(o.st,n0); if(!rep) continue; std::vector<int> l; bool k; getList(o.st,l,k); ob(k&&!std::count(l.begin(),l.end(),p),"reported-once",I.ctx+": still tracked after it was reported"); for(int p2:p2s) ob(k&&std::count(l.begin(),l.end(),p2-Nb)==1,"others-kept",I.ctx+": another tracked position is lost",lst(l)); ob(A.geti(o.st,h,"crc_ok")==1,"crc-flag",I.ctx+": checksum flag");
          std::vector<F> by; std::string why; if(hexBytes(I,o.st,out,n,by,why)){ bool same=true; for(int i=0;i<8*n;i++) if(o.st.eqs.red(by[i])!=o.st.eqs.red(pl[i])) same=false; if(same) exact=true; }
        }
        ob(exact,"frame-reported",I.ctx+": the transmitted payload is never the reported one"); } }
    else { int nbch= mode==91?8:7, stp= mode==89?1:2, stepb=nbch+stp+1; std::vector<std::string> texts={"HORUS,1,12:00:00,-34.9,138.5,30000","A,0","$$$X,1,2,3"}; 
      auto crc=[&](const std::string&t){ unsigned c=0xffff; for(unsigned char ch:t){ c^=ch<<8; for(int k=0;k<8;k++) c= c&0x8000?(c<<1^0x1021)&0xffff:(c<<1)&0xffff; } return c; };
      for(auto&body:texts) for(int nd=2;nd<=7;nd++) for(int p:ol("at","0,1,30,52")) for(int lc=0;lc<2;lc++){ std::string b2=body; if(b2[0]=='$') b2=b2.substr(3); char ck[8]; snprintf(ck,8,lc?"%04x":"%04X",crc(b2)); std::string line=std::string(nd,'$')+b2+"*"+ck+"\n"; if(body[0]=='$'&&lc) continue;
        State s=base; for(int i=0;i<L;i++) setBit(s,i,1); s.part.insert(h); R.newforms.clear(); R.newbits.assign(Nb,1); std::vector<int> bits; for(unsigned char ch:line){ for(int k=0;k<nbch;k++) bits.push_back(ch>>k&1); for(int k=0;k<stp;k++) bits.push_back(1); bits.push_back(0); } bits.pop_back(); for(size_t i=0;i<bits.size();i++) setBit(s,p+Nb+i,bits[i]); std::vector<int> pr; for(int r=0;r+1<nd;r++) pr.push_back(p+Nb+r*stepb); std::vector<int> p2s; { int e=p+Nb+(int)line.size()*stepb; for(int x:{e,e+40,e+300}) if(x<L-UL) p2s.push_back(x); } pr.insert(pr.end(),p2s.begin(),p2s.end()); setList(s,pr); A.seti(s,h,"crc_ok",0); int out=mkbuf(I,s,"text buffer of the reported size",cap); I.ctx="mode "+std::to_string(mode)+" line '"+line.substr(0,line.size()-1)+"' tracked at bit "+std::to_string(p); size_t n0=s.objs.size();
        for(auto&o:rx(s,out,false)){ bool rep=o.ret.k==Val::Int&&o.ret.isc&&o.ret.c!=0; ob(rep,"frame-reported",I.ctx+": not reported"); heapcheck(o.st,n0); if(!rep) continue; std::string got; for(int i=0;i<cap;i++){ auto&c=I.robj(o.st,out).cells[i]; if(c.k!=Cell::Const||!c.c) break; got+=c.c; } ob(got==line.substr(0,line.size()-1),"exact-text",I.ctx+": reported text",got); ob(A.geti(o.st,h,"crc_ok")==1,"crc-flag",I.ctx+": checksum flag");
          { std::vector<int> l; bool k; getList(o.st,l,k); for(int x:p2s) ob(k&&std::count(l.begin(),l.end(),x-Nb)==1,"others-kept",I.ctx+": a tracked position behind the line is lost",lst(l)); }
          // the same line is not reported again by the next call
          State t=o.st; for(auto&o2:rx(t,out,false)) ob(o2.ret.k==Val::Int&&o2.ret.isc&&o2.ret.c==0,"reported-once",I.ctx+": reported again by the next call"); } } }
    return finish(I); }
  throw Broken("sub"); }
// ============================================================ handle life cycle
static int sc_life(Interp&I){
  Api A(I); 
  I.stubs["fsk_demod_core"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ Out o; o.st=std::move(st); r.push_back(std::move(o)); return true; };
  auto modes=ol("modes","0,89,90,91"); std::vector<std::array<int,4>> P; // Rs, spacing, Fs, P
  std::string s0=os("params","-1:-1:48000:8;50:100:48000:8;300:500:48000:10;100:270:8000:8"); { std::array<int,4> q; int n=0; std::string t; for(char c:s0+";"){ if(c==':'||c==';'){ if(n<4) q[n++]=atoi(t.c_str()); t.clear(); if(c==';'){ if(n==4) P.push_back(q); n=0; } } else t+=c; } }
  auto leak=[&](State&s,size_t from,size_t n1,const std::string&c){ for(size_t i=from;i<n1&&i<s.objs.size();i++) if(s.objs[i]->kind==Obj::Heap&&s.objs[i]->name.rfind("heap@",0)==0) ob(s.objs[i]->freed,"handle-storage-freed",c+": storage allocated at "+s.objs[i]->name.substr(5)+" is still held after close"); };
  auto closeAndCheck=[&](State s,int h,size_t from,const std::string&c){ I.ctx=c; auto o=I.run("horus_close",{Val::P(h,0)},s); ob(!o.empty(),"close-returns",c+": close has no normal return"); for(auto&x:o) leak(x.st,from,x.st.objs.size(),c); };
  auto use=[&](State s,int h,const std::string&c,size_t from,int quad){ I.ctx=c+", used"; for(int i=0;i<2;i++){ int cap=callInt(I,s,"horus_get_max_ascii_out_len",{Val::P(h,0)}); auto nq=I.run("horus_nin",{Val::P(h,0)},s); if(nq.size()!=1||!nq[0].ret.isc){ ob(false,"nin",I.ctx+": number of samples to supply not determined"); return; } int nin=nq[0].ret.sc(); s=nq[0].st; int mx=callInt(I,s,"horus_get_max_demod_in",{Val::P(h,0)}); ob(nin>0&&nin*2*1<=mx,"reported-size",I.ctx+": samples asked for exceed the reported maximum",std::to_string(nin)); int out=mkbuf(I,s,"text buffer of the reported size",cap), din=mkbuf(I,s,"caller's sample buffer",2*nin*(quad?2:1)); for(auto&cl:I.wobj(s,din).cells) cl.k=Cell::Const; auto o=I.run("horus_rx",{Val::P(h,0),Val::P(out,0),Val::P(din,0),Val::I(32,quad)},s); ob(o.size()==1,"rx-returns",I.ctx+": outcomes"); if(o.size()!=1) return; s=o[0].st; } closeAndCheck(s,h,from,c+", closed after use"); };
  // the three ways of opening
  for(int m:modes){ size_t from=I.init.objs.size(); 
    { std::string c="horus_open mode "+std::to_string(m); I.ctx=c; auto o=I.run("horus_open",{Val::I(32,m)},I.init); ob(!o.empty(),"open-returns",c+": no normal return"); for(auto&x:o){ if(x.ret.k!=Val::Ptr||!x.ret.obj){ ob(false,"open-returns",c+": no handle"); continue; } closeAndCheck(x.st,x.ret.obj,from,c+", closed"); } }
    for(auto&p:P){ std::string c="mode "+std::to_string(m)+" Rs "+std::to_string(p[0])+" spacing "+std::to_string(p[1])+" Fs "+std::to_string(p[2])+" P "+std::to_string(p[3]); I.ctx=c; auto os_=openModem(I,m,p[0],p[1],p[2],p[3]); for(auto&x:os_){ closeAndCheck(x.first,x.second,from,c+", closed"); if(oi("use",1)) for(int q=0;q<2;q++) use(x.first,x.second,c+(q?", quadrature":", real"),from,q);
      // setters and statistics between open and close
      { State t=x.first; int h=x.second; I.ctx=c+", reconfigured"; auto r1=I.run("horus_set_verbose",{Val::P(h,0),Val::I(32,1)},t); for(auto&y:r1){ auto r2=I.run("horus_set_freq_est_limits",{Val::P(h,0),Val::D(100),Val::D(3000)},y.st); for(auto&z:r2) closeAndCheck(z.st,h,from,c+", reconfigured and closed"); } } 
      // a second handle is independent of the first
      { auto o2=I.run("horus_open_advanced_sample_rate",{Val::I(32,m),Val::I(32,p[0]),Val::I(32,p[1]),Val::I(32,p[2]),Val::I(32,p[3])},x.first); for(auto&y:o2) if(y.ret.k==Val::Ptr&&y.ret.obj){ I.ctx=c+", two handles"; auto c1=I.run("horus_close",{Val::P(x.second,0)},y.st); for(auto&z:c1){ bool alive=true; for(size_t i=x.first.objs.size();i<y.st.objs.size();i++) if(z.st.objs[i]->kind==Obj::Heap&&z.st.objs[i]->freed&&z.st.objs[i]->name.rfind("heap@",0)==0&&!y.st.objs[i]->freed) alive=false; ob(alive,"handles-independent",I.ctx+": closing one handle frees storage of the other"); closeAndCheck(z.st,y.ret.obj,from,c+", both closed"); } } }
    } } }
  return finish(I); }
#include "cli.hpp"
#include "tables.hpp"
#include "dsp.hpp"
int main(int argc,char**argv){
  if(argc<3){ fprintf(stderr,"usage\n"); return 2; } setvbuf(stdout,nullptr,_IOFBF,1<<16);
  for(int i=2;i<argc;i++){ std::string a=argv[i]; auto p=a.find('='); if(p!=std::string::npos&&a.size()>3&&a.substr(a.size()-3)!=".ll") opt[a.substr(0,p)]=a.substr(p+1); else files.push_back(a); }
  try { if(files.empty()) throw Broken("no input files"); LLVMContext C; auto M=loadModules(C,files); Interp I(M.get()); I.maxtime=oi("maxtime",700); std::string s=argv[1];
    try {
    if(s=="codec") return sc_codec(I); if(s=="crc") return sc_crc(I); if(s=="golay") return sc_golay(I); if(s=="packeterr") return sc_packeterr(I); if(s=="binary") return sc_binary(I); if(s=="rtty") return sc_rtty(I); if(s=="rx") return sc_rx(I); if(s=="life") return sc_life(I); if(s=="cli") return sc_cli(I); if(s=="tables") return sc_tables(I); if(s=="dsp") return sc_dsp(I);
    } catch(const Broken&){ for(auto&e:I.events) printf("{\"alarm\":%s,\"where\":%s,\"detail\":%s}\n",js(e.kind).c_str(),js(e.where).c_str(),js(e.detail).c_str()); throw; }
    fprintf(stderr,"unknown scenario\n"); return 2;
  } catch(const Broken&b){ printf("{\"broken\":%s}\n",js(b.what()).c_str()); return 2; }
}
