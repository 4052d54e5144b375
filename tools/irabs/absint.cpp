#include "absint.h"
Forms G;
static std::set<std::vector<F>> nonzeroTuples;
std::map<std::vector<F>,std::vector<F>> hexOf;   // character tuple -> nibble it is the upper-case hex digit of
static std::map<std::vector<F>,int32_t> tupIdx; static std::vector<std::vector<F>> tupTab;
static std::vector<Val> ptrTab; static std::map<std::tuple<int,uint64_t>,int32_t> ptrIdx;

std::string fmtForm(F f){ std::string s; for(auto v:G.tab[f]) s+=(s.empty()?"":"^")+(v?("x"+std::to_string(v)):std::string("1")); return s.empty()?"0":s; }

std::unique_ptr<Module> loadModules(LLVMContext&C,const std::vector<std::string>&files){
  SMDiagnostic E; std::unique_ptr<Module> M;
  for(auto&f:files){ auto m=parseIRFile(f,E,C); if(!m) throw Broken("cannot parse IR "+f+": "+E.getMessage().str());
    if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))) throw Broken("link failed "+f); }
  LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager CG; ModuleAnalysisManager MA; PassBuilder PB;
  PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(CG); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L,FA,CG,MA);
  ModulePassManager MP; if(PB.parsePassPipeline(MP,"function(sroa,mem2reg)")) throw Broken("pipeline");
  MP.run(*M,MA); return M;
}

Interp::Interp(Module*m):M(m),DL(&m->getDataLayout()){ init.objs.push_back(std::make_shared<Obj>()); initGlobals(); }

std::string Interp::loc(const Instruction*I){
  std::string r; if(!I) return "?";
  if(auto&D=I->getDebugLoc()){ auto*s=cast<DIScope>(D.getScope()); r=s->getFilename().str(); auto p=r.rfind('/'); if(p!=std::string::npos) r=r.substr(p+1); r+=":"+std::to_string(D.getLine()); }
  return r+" in "+I->getFunction()->getName().str();
}
void Interp::alarm(const char*k,const Instruction*I,const std::string&d){ 
  if(getenv("IRABS_DEBUG")) fprintf(stderr,"ALARM %s %s %s [%s]\n",k,loc(I).c_str(),d.c_str(),ctx.c_str());
  events.insert({k,loc(I),d+(ctx.empty()?"":" ["+ctx+"]")}); if(fpmode&&events.size()>300) throw Broken("too many alarms"); }

int Interp::newobj(State&s,const std::string&n,uint64_t size,int kind){
  if(size>(64u<<20)) throw Broken("object too large: "+n);
  auto o=std::make_shared<Obj>(); o->name=n; o->size=size; o->kind=(decltype(o->kind))kind; o->cells.resize(size); s.objs.push_back(o); return s.objs.size()-1; }

void Interp::initGlobals(){
  for(auto&g:M->globals()){ uint64_t sz=g.getValueType()->isSized()?DL->getTypeAllocSize(g.getValueType()).getFixedValue():0;
    int id=newobj(init,g.getName().str(),sz,Obj::Global); gobj[&g]=id; }
  for(auto&f:*M){ int id=newobj(init,f.getName().str(),1,Obj::Global); init.objs[id]->fn=&f; init.objs[id]->ro=true; gobj[&f]=id; }
  for(auto&g:M->globals()) if(g.hasInitializer()){ storeConst(init,gobj[&g],0,g.getInitializer()); init.objs[gobj[&g]]->ro=g.isConstant(); }
    else { init.objs[gobj[&g]]->kind=Obj::Ext; for(auto&c:init.objs[gobj[&g]]->cells) c.k=Cell::Top; }
}
void Interp::storeConst(State&s,int obj,uint64_t off,const Constant*c){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||c->isNullValue()){ auto&o=wobj(s,obj); uint64_t n=DL->getTypeAllocSize(t).getFixedValue(); for(uint64_t i=0;i<n;i++){ o.cells[off+i].k=Cell::Const; o.cells[off+i].c=0; o.cells[off+i].id=0; } return; }
  if(auto*ca=dyn_cast<ConstantDataSequential>(c)){ uint64_t es=DL->getTypeAllocSize(ca->getElementType()).getFixedValue(); for(unsigned i=0;i<ca->getNumElements();i++) storeConst(s,obj,off+i*es,ca->getElementAsConstant(i)); return; }
  if(auto*ca=dyn_cast<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue(); for(unsigned i=0;i<ca->getNumOperands();i++) storeConst(s,obj,off+i*es,ca->getOperand(i)); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) storeConst(s,obj,off+sl->getElementOffset(i),cs->getOperand(i)); return; }
  if(isa<UndefValue>(c)) return;
  storeAt(s,obj,off,constant(s,c),t);
}
Val Interp::constant(State&s,const Constant*c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) throw Broken("wide int"); return Val::I(ci->getBitWidth(),ci->getZExtValue()); }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ return Val::D(cf->getType()->isFloatTy()?(double)cf->getValueAPF().convertToFloat():cf->getType()->isDoubleTy()?cf->getValueAPF().convertToDouble():throw Broken("fp type")); }
  if(isa<ConstantPointerNull>(c)) return Val::P(0,0);
  if(isa<UndefValue>(c)) { if(c->getType()->isAggregateType()||c->getType()->isVectorTy()){ Val v; v.k=Val::Agg; unsigned n=isa<StructType>(c->getType())?cast<StructType>(c->getType())->getNumElements():isa<ArrayType>(c->getType())?cast<ArrayType>(c->getType())->getNumElements():cast<FixedVectorType>(c->getType())->getNumElements(); v.agg=std::make_shared<std::vector<Val>>(n); return v; } return Val(); }
  if(auto*g=dyn_cast<GlobalValue>(c)){ if(auto*al=dyn_cast<GlobalAlias>(g)) return constant(s,al->getAliasee()); auto it=gobj.find(g); if(it==gobj.end()) throw Broken("global"); return Val::P(it->second,0); }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(ce->getOpcode()==Instruction::GetElementPtr){ Val b=constant(s,ce->getOperand(0)); APInt o(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,o)) throw Broken("gep const"); b.c+=o.getSExtValue(); return b; }
    if(ce->getOpcode()==Instruction::BitCast||ce->getOpcode()==Instruction::AddrSpaceCast) return constant(s,ce->getOperand(0));
    if(ce->getOpcode()==Instruction::IntToPtr){ Val v=constant(s,ce->getOperand(0)); return Val::P(0,v.c); }
  }
  if(c->getType()->isAggregateType()||c->getType()->isVectorTy()){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); unsigned n=isa<StructType>(c->getType())?cast<StructType>(c->getType())->getNumElements():isa<ArrayType>(c->getType())?cast<ArrayType>(c->getType())->getNumElements():cast<FixedVectorType>(c->getType())->getNumElements(); for(unsigned i=0;i<n;i++) v.agg->push_back(constant(s,c->getAggregateElement(i))); return v; }
  std::string q; raw_string_ostream os(q); c->print(os); throw Broken("unsupported constant "+os.str());
}

// ------------------------------------------------------------------ memory
bool Interp::check(State&s,const Val&p,uint64_t n,bool wr,const Instruction*I){
  accesses++;
  const char*k=wr?"oob-write":"oob-read";
  if(p.k!=Val::Ptr){ if(p.k==Val::Undef) { alarm("wild-pointer",I,"access through uninitialised pointer"); return false; } alarm("wild-pointer",I,"access through non-pointer value"); return false; }
  if(p.obj==0){ alarm("null-deref",I,"null pointer"); return false; }
  const Obj&o=robj(s,p.obj);
  if(o.fn){ alarm(k,I,"access to function"); return false; }
  if(o.freed){ alarm("use-after-free",I,o.name); return false; }
  if(p.isc){ int64_t off=(int64_t)p.c; if(off<0||(uint64_t)off+n>o.size){ alarm(k,I,o.name+" size "+std::to_string(o.size)+" offset "+std::to_string(off)+" len "+std::to_string(n)); return false; } }
  else { Val q=Val::S(*p.bits); uint64_t lo=umin(q),hi=umax(q); if(hi+n>o.size||hi>o.size){ alarm(k,I,o.name+" size "+std::to_string(o.size)+" offset range up to "+std::to_string((int64_t)hi)); return false; } (void)lo; }
  if(wr&&o.ro){ alarm("const-write",I,o.name); return false; }
  return true;
}
struct FltE { double lo,hi; F nan; };
static std::vector<FltE> fltTab;
Val Interp::rng(const State&s,const Val&v){
  if(v.k==Val::Fp) return std::isnan(v.d)?Val::R(-INFINITY,INFINITY,1):Val::R(v.d,v.d,0);
  if(v.k==Val::FpTop){ Val r=v; if(r.nan>1) r.nan=s.eqs.red(r.nan); return r; }
  return Val::DT(); }
Cell Interp::symCell(const std::vector<F>&b){
  Cell c; bool cc=true; uint8_t v=0; for(int i=0;i<8;i++){ if(b[i]>1) cc=false; else if(b[i]) v|=1<<i; }
  if(cc){ c.k=Cell::Const; c.c=v; return c; }
  auto it=tupIdx.find(b); int32_t id; if(it==tupIdx.end()){ id=tupTab.size(); tupTab.push_back(b); tupIdx[b]=id; } else id=it->second;
  c.k=Cell::Sym; c.id=id; return c;
}
std::vector<F> Interp::cellBits(State&s,int obj,uint64_t off){
  const Cell c=robj(s,obj).cells[off]; std::vector<F> r(8);
  if(c.k==Cell::Const){ for(int i=0;i<8;i++) r[i]=(c.c>>i)&1; return r; }
  if(c.k==Cell::Sym) return tupTab[c.id];
  for(int i=0;i<8;i++) r[i]=G.fresh();
  wobj(s,obj).cells[off]=symCell(r);
  return r;
}
Val Interp::freshInt(unsigned w){ std::vector<F> b(w); for(auto&f:b) f=G.fresh(); return Val::S(b); }

Val Interp::loadAt(State&s,int obj,int64_t off,Type*t){
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); uint64_t es=DL->getTypeAllocSize(vt->getElementType()).getFixedValue(); for(unsigned i=0;i<vt->getNumElements();i++) v.agg->push_back(loadAt(s,obj,off+i*es,vt->getElementType())); return v; }
  if(auto*st=dyn_cast<StructType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) v.agg->push_back(loadAt(s,obj,off+sl->getElementOffset(i),st->getElementType(i))); return v; }
  if(auto*at=dyn_cast<ArrayType>(t)){ Val v; v.k=Val::Agg; v.agg=std::make_shared<std::vector<Val>>(); uint64_t es=DL->getTypeAllocSize(at->getElementType()).getFixedValue(); for(unsigned i=0;i<at->getNumElements();i++) v.agg->push_back(loadAt(s,obj,off+i*es,at->getElementType())); return v; }
  uint64_t n=DL->getTypeStoreSize(t).getFixedValue();
  const Obj&o=robj(s,obj);
  const Cell*cs=&o.cells[off];
  if(t->isPointerTy()){
    if(cs[0].k==Cell::Ptr){ for(unsigned i=0;i<8;i++) if(cs[i].k!=Cell::Ptr||cs[i].id!=cs[0].id||cs[i].c!=i) throw Broken("torn pointer load from "+o.name); return ptrTab[cs[0].id]; }
    bool z=true; uint64_t v=0; for(unsigned i=0;i<8;i++){ if(cs[i].k!=Cell::Const) z=false; else v|=(uint64_t)cs[i].c<<(8*i); }
    if(z) return Val::P(0,(int64_t)v);
    return Val();
  }
  bool cc=true; uint64_t v=0; bool ptr=false;
  for(uint64_t i=0;i<n;i++){ if(cs[i].k!=Cell::Const) cc=false; else v|=(uint64_t)cs[i].c<<(8*i); if(cs[i].k==Cell::Ptr) ptr=true; }
  if(fpmode&&t->isFloatingPointTy()&&!cc){
    if(cs[0].k==Cell::Flt){ bool same=true; for(uint64_t i=0;i<n;i++) if(cs[i].k!=Cell::Flt||cs[i].id!=cs[0].id||cs[i].c!=i) same=false; if(same){ auto&e=fltTab[cs[0].id]; return Val::R(e.lo,e.hi,e.nan); } return Val::DT(); }
    if(o.kind==Obj::Stack){ Val v=Val::R(-INFINITY,INFINITY,G.fresh()); storeAt(s,obj,off,v,t); return v; } }
  if(t->isFloatTy()){ if(!cc) return Val::DT(); float f; uint32_t u=v; memcpy(&f,&u,4); return Val::D(f); }
  if(t->isDoubleTy()){ if(!cc) return Val::DT(); double d; memcpy(&d,&v,8); return Val::D(d); }
  if(!t->isIntegerTy()||n>8) throw Broken("load type");
  unsigned w=t->getIntegerBitWidth();
  if(cc) return Val::I(w,v);
  if(ptr&&n==8&&cs[0].k==Cell::Ptr) return ptrTab[cs[0].id];
  std::vector<F> b(w);
  for(uint64_t i=0;i<n;i++){ auto cb=cellBits(s,obj,off+i); for(int j=0;j<8&&i*8+j<w;j++) b[i*8+j]=cb[j]; }
  return Val::S(b);
}
void Interp::storeAt(State&s,int obj,int64_t off,const Val&v,Type*t){
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeAllocSize(vt->getElementType()).getFixedValue(); if(v.k!=Val::Agg) throw Broken("vector store"); for(unsigned i=0;i<vt->getNumElements();i++) storeAt(s,obj,off+i*es,(*v.agg)[i],vt->getElementType()); return; }
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) storeAt(s,obj,off+sl->getElementOffset(i),(*v.agg)[i],st->getElementType(i)); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()).getFixedValue(); for(unsigned i=0;i<at->getNumElements();i++) storeAt(s,obj,off+i*es,(*v.agg)[i],at->getElementType()); return; }
  uint64_t n=DL->getTypeStoreSize(t).getFixedValue();
  Obj&o=wobj(s,obj); Cell*cs=&o.cells[off];
  auto putc=[&](uint64_t c){ for(uint64_t i=0;i<n;i++){ cs[i].k=Cell::Const; cs[i].c=(c>>(8*i))&255; cs[i].id=0; } };
  switch(v.k){
    case Val::Undef: for(uint64_t i=0;i<n;i++) cs[i]=Cell(); return;
    case Val::FpTop: if(fpmode&&(v.nan>=0||std::isfinite(v.lo)||std::isfinite(v.hi))){ int32_t id=fltTab.size(); fltTab.push_back({v.lo,v.hi,v.nan}); for(uint64_t i=0;i<n;i++){ cs[i]=Cell(); cs[i].k=Cell::Flt; cs[i].c=i; cs[i].id=id; } return; }
      for(uint64_t i=0;i<n;i++){ cs[i]=Cell(); cs[i].k=Cell::Top; } return;
    case Val::Fp: { if(t->isFloatTy()){ float f=v.d; uint32_t u; memcpy(&u,&f,4); putc(u);} else { uint64_t u; memcpy(&u,&v.d,8); putc(u);} return; }
    case Val::Ptr: { if(v.obj==0&&v.isc){ putc(v.c); return; } int32_t id; if(v.isc){ auto key=std::make_tuple(v.obj,v.c); auto it=ptrIdx.find(key); if(it==ptrIdx.end()){ id=ptrTab.size(); ptrTab.push_back(v); ptrIdx[key]=id; } else id=it->second; } else { id=ptrTab.size(); ptrTab.push_back(v); }
      for(unsigned i=0;i<8;i++){ cs[i].k=Cell::Ptr; cs[i].c=i; cs[i].id=id; } return; }
    case Val::Int: { if(v.isc){ putc(v.c); return; } for(uint64_t i=0;i<n;i++){ std::vector<F> b(8,0); for(int j=0;j<8&&i*8+j<v.w;j++) b[j]=v.bit(i*8+j); cs[i]=symCell(b); } return; }
    default: throw Broken("store kind");
  }
}
std::vector<F> Interp::tableFn(const std::vector<uint64_t>&vals,unsigned width,const std::vector<F>&idx){
  // vals has 2^k entries; per output bit: constant, affine, or uninterpreted function of idx
  std::vector<F> r(width); size_t N=vals.size(); bool anyfn=false;
  std::vector<uint64_t> lin(idx.size()); for(size_t j=0;j<idx.size();j++) lin[j]=vals[0]^vals[1ull<<j];
  uint64_t nonaff=0; for(size_t x=0;x<N;x++){ uint64_t p=vals[0]; for(size_t j=0;j<idx.size();j++) if(x>>j&1) p^=lin[j]; nonaff|=p^vals[x]; }
  for(unsigned b=0;b<width;b++){
    if(!(nonaff>>b&1)){ F f=(vals[0]>>b)&1; for(size_t j=0;j<idx.size();j++) if(lin[j]>>b&1) f=G.x(f,idx[j]); r[b]=f; continue; }
    std::vector<int64_t> key; key.push_back(-7); key.push_back(idx.size()); for(F f:idx) key.push_back(f); uint64_t acc=0; for(size_t x=0;x<N;x++){ acc=acc<<1|(vals[x]>>b&1); if(x%64==63||x==N-1){ key.push_back(acc); acc=0; } }
    auto it=G.fnmemo.find(key); if(it==G.fnmemo.end()) it=G.fnmemo.emplace(key,std::vector<F>{G.fresh()}).first; r[b]=it->second[0]; anyfn=true;
  }
  if(N==16&&width==8){ bool hx=true; for(int x=0;x<16;x++) if((vals[x]&255)!=(uint64_t)"0123456789ABCDEF"[x]) hx=false; if(hx) hexOf[r]=idx; }
  if(anyfn&&width==8){ bool z=false; for(auto v:vals) if((v&255)==0) z=true; if(!z) nonzeroTuples.insert(r); }
  return r;
}
Val Interp::load(State&s,const Val&p0,Type*t,const Instruction*I){
  Val p=p0; if(p.k==Val::Ptr&&!p.isc){ Val o=simp(s,Val::S(*p.bits)); if(o.isc){ p.isc=true; p.c=o.c; } else p.bits=o.bits; }
  uint64_t n=DL->getTypeStoreSize(t).getFixedValue();
  if(!check(s,p,n,false,I)){ if(t->isIntegerTy()) return freshInt(t->getIntegerBitWidth()); if(t->isFloatingPointTy()) return Val::DT(); if(t->isPointerTy()) return Val(); Obj tmp; tmp.size=n; tmp.cells.resize(n); for(auto&c:tmp.cells) c.k=Cell::Top; int id=s.objs.size(); s.objs.push_back(std::make_shared<Obj>(tmp)); Val r=loadAt(s,id,0,t); s.objs.pop_back(); return r; }
  if(p.isc){
    const Obj&o=robj(s,p.obj); for(uint64_t i=0;i<n;i++) if(o.cells[p.c+i].k==Cell::Undef){ alarm("uninit-read",I,o.name+" offset "+std::to_string((int64_t)p.c+i)); break; }
    return simp(s,loadAt(s,p.obj,p.c,t)); }
  // symbolic offset
  std::vector<F> idx; std::vector<int> pos; const auto&b=*p.bits; uint64_t base=0;
  for(int i=0;i<64;i++){ if(b[i]>1) { idx.push_back(b[i]); pos.push_back(i);} else if(b[i]) base|=1ull<<i; }
  if(!t->isIntegerTy()) { if(t->isFloatingPointTy()) return Val::DT(); throw Broken("symbolic index into pointers"); }
  unsigned w=t->getIntegerBitWidth();
  if(idx.size()<=12){
    std::vector<uint64_t> vals(1ull<<idx.size()); bool ok=true; const Obj&o=robj(s,p.obj);
    for(size_t x=0;x<vals.size()&&ok;x++){ uint64_t off=base; for(size_t j=0;j<idx.size();j++) if(x>>j&1) off|=1ull<<pos[j]; uint64_t v=0; if(off+n>o.size){ ok=false; break; } for(uint64_t i=0;i<n;i++){ if(o.cells[off+i].k!=Cell::Const){ ok=false; break; } v|=(uint64_t)o.cells[off+i].c<<(8*i); } vals[x]=v; }
    if(ok) return simp(s,Val::S(tableFn(vals,w,idx)));
  }
  return freshInt(w);
}
void Interp::store(State&s,const Val&p0,const Val&v,Type*t,const Instruction*I){
  Val p=p0; if(p.k==Val::Ptr&&!p.isc){ Val o=simp(s,Val::S(*p.bits)); if(o.isc){ p.isc=true; p.c=o.c; } else p.bits=o.bits; }
  uint64_t n=DL->getTypeStoreSize(t).getFixedValue();
  if(!check(s,p,n,true,I)) return;
  if(p.isc){ storeAt(s,p.obj,p.c,v,t); return; }
  Val q=Val::S(*p.bits); uint64_t lo=umin(q),hi=umax(q); auto&o=wobj(s,p.obj); for(uint64_t i=lo;i<hi+n;i++){ if(o.cells[i].k==Cell::Undef) continue; o.cells[i]=Cell(); o.cells[i].k=Cell::Top; }
}

// ------------------------------------------------------------------ values
Val Interp::simp(const State&s,const Val&v){ if(v.k!=Val::Int||v.isc||s.eqs.piv.empty()) return v; std::vector<F> b(v.w); for(unsigned i=0;i<v.w;i++) b[i]=s.eqs.red((*v.bits)[i]); return Val::S(b); }
uint64_t Interp::umax(const Val&v){ if(v.isc) return v.c; uint64_t r=0; for(unsigned i=0;i<v.w;i++) if(v.bit(i)!=0) r|=1ull<<i; return r; }
uint64_t Interp::umin(const Val&v){ if(v.isc) return v.c; uint64_t r=0; for(unsigned i=0;i<v.w;i++) if(v.bit(i)==1) r|=1ull<<i; return r; }
Val Interp::addv(const Val&a,const Val&b,F cin){
  std::vector<F> r(a.w); F c=cin;
  for(unsigned i=0;i<a.w;i++){ F x=a.bit(i),y=b.bit(i); F xy=G.x(x,y); r[i]=G.x(xy,c);
    // majority
    F n; if(x==y) n=x; else if(x==c) n=x; else if(y==c) n=y; else n=G.lor(G.land(x,y),G.land(c,xy)); c=n; }
  return Val::S(r);
}
Val Interp::binop(State&s,const Instruction*I,unsigned op,const Val&a0,const Val&b0){
  unsigned w=I->getType()->isIntegerTy()?I->getType()->getIntegerBitWidth():0;
  bool isf=I->getType()->isFloatTy();
  auto fr=[&](double d){ return Val::D(isf?(double)(float)d:d); };
  if(I->getType()->isFloatingPointTy()){
    if((a0.k!=Val::Fp||b0.k!=Val::Fp)&&fpmode){ Val x=rng(s,a0),y=rng(s,b0); if(!std::isfinite(x.lo)||!std::isfinite(x.hi)||!std::isfinite(y.lo)||!std::isfinite(y.hi)) return Val::DT(); F nn= x.nan==0&&y.nan==0?0:-1; double p[4]; int q=0;
      auto rd=[&](double d){ return isf?(double)(float)d:d; };
      switch(op){ case Instruction::FAdd: p[0]=x.lo+y.lo; p[1]=x.hi+y.hi; q=2; break; case Instruction::FSub: p[0]=x.lo-y.hi; p[1]=x.hi-y.lo; q=2; break;
        case Instruction::FMul: p[0]=x.lo*y.lo; p[1]=x.lo*y.hi; p[2]=x.hi*y.lo; p[3]=x.hi*y.hi; q=4; break;
        case Instruction::FDiv: if(y.lo<=0&&y.hi>=0) return Val::DT(); p[0]=x.lo/y.lo; p[1]=x.lo/y.hi; p[2]=x.hi/y.lo; p[3]=x.hi/y.hi; q=4; break; default: return Val::DT(); }
      double lo=INFINITY,hi=-INFINITY; for(int i=0;i<q;i++){ double d=rd(p[i]); if(std::isnan(d)) return Val::DT(); lo=std::min(lo,d); hi=std::max(hi,d); } return Val::R(lo,hi,nn); }
    if(a0.k!=Val::Fp||b0.k!=Val::Fp) return Val::DT();
    double x=a0.d,y=b0.d; switch(op){ case Instruction::FAdd: return fr(x+y); case Instruction::FSub: return fr(x-y); case Instruction::FMul: return fr(x*y); case Instruction::FDiv: return fr(x/y); case Instruction::FRem: return fr(fmod(x,y)); default: throw Broken("fp op"); }
  }
  if(I->getType()->isVectorTy()) throw Broken("vector arithmetic");
  Val a=simp(s,a0),b=simp(s,b0);
  if(a.k==Val::Undef) a=freshInt(w); if(b.k==Val::Undef) b=freshInt(w);
  if(a.k==Val::Ptr&&b.k==Val::Ptr&&op==Instruction::Sub&&a.obj==b.obj&&a.isc&&b.isc) return Val::I(w,a.c-b.c);
  if(a.k!=Val::Int||b.k!=Val::Int) throw Broken("binop on non-int at "+loc(I));
  if(a.isc&&b.isc){
    uint64_t x=a.c,y=b.c; int64_t sx=a.sc(),sy=b.sc();
    switch(op){
      case Instruction::Add: return Val::I(w,x+y); case Instruction::Sub: return Val::I(w,x-y); case Instruction::Mul: return Val::I(w,x*y);
      case Instruction::And: return Val::I(w,x&y); case Instruction::Or: return Val::I(w,x|y); case Instruction::Xor: return Val::I(w,x^y);
      case Instruction::Shl: if(y>=w){ alarm("bad-shift",I,"shift by "+std::to_string(y)); return freshInt(w);} return Val::I(w,x<<y);
      case Instruction::LShr: if(y>=w){ alarm("bad-shift",I,"shift by "+std::to_string(y)); return freshInt(w);} return Val::I(w,x>>y);
      case Instruction::AShr: if(y>=w){ alarm("bad-shift",I,"shift by "+std::to_string(y)); return freshInt(w);} return Val::I(w,(uint64_t)(sx>>y));
      case Instruction::UDiv: if(!y){ alarm("div-zero",I,""); return freshInt(w);} return Val::I(w,x/y);
      case Instruction::URem: if(!y){ alarm("div-zero",I,""); return freshInt(w);} return Val::I(w,x%y);
      case Instruction::SDiv: if(!sy){ alarm("div-zero",I,""); return freshInt(w);} return Val::I(w,(uint64_t)(sx/sy));
      case Instruction::SRem: if(!sy){ alarm("div-zero",I,""); return freshInt(w);} return Val::I(w,(uint64_t)(sx%sy));
      default: throw Broken("int op"); }
  }
  std::vector<F> r(w);
  switch(op){
    case Instruction::And: for(unsigned i=0;i<w;i++) r[i]=G.land(a.bit(i),b.bit(i)); return simp(s,Val::S(r));
    case Instruction::Or: for(unsigned i=0;i<w;i++) r[i]=G.lor(a.bit(i),b.bit(i)); return simp(s,Val::S(r));
    case Instruction::Xor: for(unsigned i=0;i<w;i++) r[i]=G.x(a.bit(i),b.bit(i)); return Val::S(r);
    case Instruction::Add: return addv(a,b,0);
    case Instruction::Sub: { std::vector<F> nb(w); for(unsigned i=0;i<w;i++) nb[i]=G.inv(b.bit(i)); return addv(a,Val::S(nb),1); }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if(!b.isc){ // symbolic amount: enumerate when few unknown bits
        std::vector<F> ib; std::vector<int> ps; uint64_t base=0; for(unsigned i=0;i<b.w;i++){ if(b.bit(i)>1){ ib.push_back(b.bit(i)); ps.push_back(i);} else if(b.bit(i)) base|=1ull<<i; }
        if(umax(b)>=w){ alarm("bad-shift",I,"shift amount up to "+std::to_string(umax(b))); return freshInt(w); }
        if(ib.size()<=6&&a.isc){ std::vector<uint64_t> vals(1ull<<ib.size()); for(size_t x=0;x<vals.size();x++){ uint64_t sh=base; for(size_t j=0;j<ib.size();j++) if(x>>j&1) sh|=1ull<<ps[j]; vals[x]= op==Instruction::Shl?a.c<<sh: op==Instruction::LShr?a.c>>sh:(uint64_t)(a.sc()>>sh); } return Val::S(tableFn(vals,w,ib)); }
        return freshInt(w); }
      unsigned n=b.c; if(n>=w){ alarm("bad-shift",I,"shift by "+std::to_string(n)); return freshInt(w); }
      for(unsigned i=0;i<w;i++){ if(op==Instruction::Shl) r[i]= i>=n?a.bit(i-n):0; else if(op==Instruction::LShr) r[i]= i+n<w?a.bit(i+n):0; else r[i]=a.bit(std::min(i+n,w-1)); }
      return Val::S(r); }
    case Instruction::Mul: {
      const Val&k= b.isc?b: a.isc?a: b; const Val&v= b.isc?a: a.isc?b: a;
      auto nsym=[&](const Val&z){ unsigned q=0; for(unsigned i=0;i<w;i++) if(z.bit(i)>1) q++; return q; };
      const Val*kk=&k,*vv=&v; if(!k.isc&&nsym(v)<nsym(k)) std::swap(kk,vv);
      if(!kk->isc&&nsym(*kk)>8) return freshInt(w);
      Val acc=Val::I(w,0);
      for(unsigned i=0;i<w;i++){ F g=kk->bit(i); if(g==0) continue; std::vector<F> row(w,0); for(unsigned j=i;j<w;j++) row[j]=G.land(g,vv->bit(j-i)); acc=addv(acc,Val::S(row),0); }
      return acc; }
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      bool sg= op==Instruction::SDiv||op==Instruction::SRem;
      bool rem= op==Instruction::URem||op==Instruction::SRem;
      if(!b.isc){ if(umin(b)==0) alarm("div-zero",I,"divisor may be zero"); return freshInt(w); }
      if(!b.c){ alarm("div-zero",I,""); return freshInt(w); }
      if(sg&&(a.bit(w-1)!=0||b.sc()<0)) return freshInt(w);
      uint64_t m=b.c; if((m&(m-1))==0){ unsigned k=__builtin_ctzll(m); for(unsigned i=0;i<w;i++) r[i]= rem?(i<k?a.bit(i):0):(i+k<w?a.bit(i+k):0); return Val::S(r); }
      uint64_t mx= rem? std::min(m-1,umax(a)) : umax(a)/m; for(unsigned i=0;i<w;i++) r[i]= (mx>>i)?G.fresh():0; return Val::S(r); }
    default: throw Broken("int op");
  }
}
Val Interp::icmp(State&s,CmpInst::Predicate p,Val a,Val b,const Instruction*I){
  if(a.k==Val::Ptr||b.k==Val::Ptr){
    if(a.k==Val::Undef||b.k==Val::Undef) return freshInt(1);
    if(a.k!=b.k) throw Broken("ptr/int compare");
    if(a.isc&&b.isc){
      bool same=a.obj==b.obj; int64_t x=a.c,y=b.c;
      if(p==CmpInst::ICMP_EQ) return Val::I(1,same&&x==y); if(p==CmpInst::ICMP_NE) return Val::I(1,!(same&&x==y));
      if(!same){ alarm("ptr-compare",I,"ordering unrelated objects"); return freshInt(1); }
      switch(p){ case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return Val::I(1,x<y); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return Val::I(1,x<=y); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return Val::I(1,x>y); default: return Val::I(1,x>=y); }
    }
    return freshInt(1);
  }
  unsigned w=std::max(a.w,b.w); if(a.k==Val::Undef) a=freshInt(w?w:1); if(b.k==Val::Undef) b=freshInt(w?w:1);
  a=simp(s,a); b=simp(s,b); w=a.w;
  if(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE){
    std::vector<F> d; for(unsigned i=0;i<w;i++) d.push_back(s.eqs.red(G.x(a.bit(i),b.bit(i))));
    F f=G.allzero(d); if(p==CmpInst::ICMP_NE) f=G.inv(f); f=s.eqs.red(f); return Val::S({f}); }
  bool sg=CmpInst::isSigned(p);
  auto fl=[&](const Val&v){ if(!sg) return v; std::vector<F> x=v.all(); x[w-1]=G.inv(x[w-1]); return Val::S(x); };
  Val x=fl(a),y=fl(b); bool swap=false,neg=false; // reduce to x < y
  switch(p){ case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: swap=true; break; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: neg=true; break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: swap=neg=true; break; default: throw Broken("pred"); }
  if(swap) std::swap(x,y);
  F f;
  if(umax(x)<umin(y)) f=1; else if(umin(x)>=umax(y)) f=0;
  else { f=0; for(unsigned i=0;i<w;i++){ F xb=x.bit(i),yb=y.bit(i); F d=G.x(xb,yb); // lt_i = (!x&y) | (x==y & lt_{i-1})
      if(d==0) continue; F lt=G.land(G.inv(xb),yb); f= d==1? lt : G.lor(lt,G.land(G.inv(d),f)); } }
  if(neg) f=G.inv(f);
  return Val::S({s.eqs.red(f)});
}
Val Interp::select(State&s,const Val&c,const Val&a,const Val&b){
  F g=c.bit(0); std::vector<F> r(a.w); for(unsigned i=0;i<a.w;i++){ F d=G.x(a.bit(i),b.bit(i)); r[i]= d==0?a.bit(i): G.x(b.bit(i),G.land(g,d)); } return simp(s,Val::S(r)); }
Val Interp::castOp(State&s,const Instruction*I,unsigned op,const Val&a0,Type*to,Type*from){
  Val a=simp(s,a0);
  switch(op){
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { unsigned w=to->getIntegerBitWidth(); if(a.k==Val::Undef) return Val();
      if(a.k==Val::Ptr) return a;
      if(a.isc) return Val::I(w, op==Instruction::SExt?(uint64_t)a.sc():a.c); std::vector<F> r(w); for(unsigned i=0;i<w;i++) r[i]= i<a.w?a.bit(i): op==Instruction::SExt?a.bit(a.w-1):0; return Val::S(r); }
    case Instruction::BitCast: return a; case Instruction::Freeze: return a;
    case Instruction::PtrToInt: return a;
    case Instruction::IntToPtr: if(a.k==Val::Ptr) return a; if(a.k==Val::Int&&a.isc) return Val::P(0,a.c); return Val();
    case Instruction::SIToFP: case Instruction::UIToFP: if(a.k==Val::Int&&a.isc){ double d= op==Instruction::SIToFP?(double)a.sc():(double)a.c; return Val::D(to->isFloatTy()?(double)(float)(op==Instruction::SIToFP?(float)a.sc():(float)a.c):d);} return Val::DT();
    case Instruction::FPTrunc: if(a.k==Val::Fp) return Val::D((float)a.d); if(fpmode&&a.k==Val::FpTop) return Val::R((float)a.lo,(float)a.hi,a.nan); return Val::DT();
    case Instruction::FPExt: return a.k==Val::Fp||(fpmode&&a.k==Val::FpTop)?a:Val::DT();
    case Instruction::FPToSI: if(a.k==Val::Fp) return Val::I(to->getIntegerBitWidth(),(uint64_t)(int64_t)a.d); return freshInt(to->getIntegerBitWidth());
    case Instruction::FPToUI: if(a.k==Val::Fp) return Val::I(to->getIntegerBitWidth(),(uint64_t)a.d); return freshInt(to->getIntegerBitWidth());
  }
  throw Broken("cast at "+loc(I));
}

// -------------------------------------------------------------------- joins
std::string Interp::partSig(const State&s){
  std::string wsig; for(auto&w:watch){ if((size_t)w[0]>=s.objs.size()) continue; const Obj&o=*s.objs[w[0]]; for(int k=0;k<w[2];k++){ auto&c=o.cells[w[1]+k]; wsig+= c.k==Cell::Const?std::to_string(c.c)+",":"?,"; } }
  std::string r=wsig+std::to_string(s.objs.size())+";"; for(size_t i=0;i<s.objs.size();i++) if(s.objs[i]->freed) r+="f"+std::to_string(i);
  for(int id:s.part){ const Obj&o=*s.objs[id]; for(size_t i=0;i<o.cells.size();i++){ auto&c=o.cells[i]; if(c.k==Cell::Const){ r+=(char)c.c; } else if(c.k==Cell::Ptr){ r+='p'+std::to_string(c.id)+'.'+std::to_string(c.c);} else if(c.k==Cell::Sym&&!s.eqs.piv.empty()){ for(F f:tupTab[c.id]){ F g=s.eqs.red(f); r+= g==0?'0':g==1?'1':'?'; } } else r+="\x01?"; r+=','; } }
  for(auto&g:s.ghost) r+=g.first+"="+std::to_string(g.second)+";";
  return r; }
static F joinBit(const State&A,const State&B,F a,F b,std::map<std::pair<F,F>,F>&memo,F gate,bool hg){
  if(a==b) return a;
  auto it=memo.find({a,b}); if(it!=memo.end()) return it->second;
  F ra=A.eqs.red(a),rb=B.eqs.red(b); F cand[5]={a,b,0,0,0}; int n=2; if(hg){ cand[n++]=G.x(b,gate); cand[n++]=G.x(a,G.inv(gate)); cand[n++]=gate; }
  F r=-1; if(ra==rb) r=ra; for(int i=0;i<n&&r<0;i++) if(A.eqs.red(cand[i])==ra&&B.eqs.red(cand[i])==rb){ r=cand[i]; break; }
  if(r<0&&hg){ // b ^ gate&(a^b)
    F d=G.x(a,b); r=G.x(b,G.land(gate,d)); }
  if(r<0) r=G.fresh();
  memo[{a,b}]=r; return r; }

std::vector<Out> Interp::run(const std::string&n,std::vector<Val> args,State st){ return call(fn(n),std::move(args),std::move(st)); }

FnInfo&Interp::info(const Function*f){
  auto&p=fi[f]; if(p) return *p; p=std::make_unique<FnInfo>(); FnInfo&I=*p; I.f=f;
  for(auto&a:f->args()) I.num[&a]=I.n++;
  for(auto&bb:*f) for(auto&i:bb) if(!i.getType()->isVoidTy()) I.num[&i]=I.n++;
  { // reverse postorder that numbers a loop's body before what follows the loop
    DominatorTree DT(*const_cast<Function*>(f)); LoopInfo LI(DT); std::vector<const BasicBlock*> post; std::set<const BasicBlock*> vis; typedef std::vector<const BasicBlock*> BL; std::vector<std::pair<const BasicBlock*,BL>> w;
    auto enter=[&](const BasicBlock*b){ if(!vis.insert(b).second) return; BL ss(succ_begin(b),succ_end(b)); auto*L=LI.getLoopFor(b); std::stable_sort(ss.begin(),ss.end(),[&](const BasicBlock*x,const BasicBlock*y){ auto in=[&](const BasicBlock*z){ int d=0; for(auto*l=L;l;l=l->getParentLoop()) if(l->contains(z)) d++; return d; }; return in(x)>in(y); }); w.push_back({b,ss}); };
    enter(&f->getEntryBlock()); while(!w.empty()){ auto&t=w.back(); if(t.second.empty()){ post.push_back(t.first); w.pop_back(); } else { auto*n=t.second.back(); t.second.pop_back(); enter(n); } }
    int k=0; for(auto i=post.rbegin();i!=post.rend();++i) I.rpo[*i]=k++; }
  std::map<const BasicBlock*,std::set<int>> in; bool ch=true; std::vector<const BasicBlock*> order; { std::vector<std::pair<int,const BasicBlock*>> ob; for(auto&k:I.rpo) ob.push_back({k.second,k.first}); std::sort(ob.begin(),ob.end()); for(auto&k:ob) order.push_back(k.second); }
  while(ch){ ch=false; for(auto it=order.rbegin();it!=order.rend();++it){ auto*bb=*it; std::set<int> live;
      for(auto*s:successors(bb)){ for(int v:in[s]) live.insert(v); for(auto&ph:s->phis()) { live.erase(I.num[&ph]); } }
      for(auto*s:successors(bb)) for(auto&ph:s->phis()){ const Value*v=ph.getIncomingValueForBlock(bb); auto q=I.num.find(v); if(q!=I.num.end()) live.insert(q->second); }
      for(auto ii=bb->rbegin();ii!=bb->rend();++ii){ const Instruction&i=*ii; if(isa<PHINode>(i)) break; auto q=I.num.find(&i); if(q!=I.num.end()) live.erase(q->second); for(auto&o:i.operands()){ auto q2=I.num.find(o.get()); if(q2!=I.num.end()) live.insert(q2->second); } }
      for(auto&ph:bb->phis()) live.insert(I.num[&ph]);   // available after phi resolution
      if(live!=in[bb]){ in[bb]=live; ch=true; } } }
  for(auto&kv:in) I.livein[kv.first]=std::vector<int>(kv.second.begin(),kv.second.end());
  return I;
}
static std::vector<int> liveMid(FnInfo&I,const BasicBlock*bb,int idx){
  auto key=std::make_pair(bb,idx); auto it=I.livemid.find(key); if(it!=I.livemid.end()) return it->second;
  std::set<int> live; for(auto*s:successors(bb)){ std::set<int> t(I.livein[s].begin(),I.livein[s].end()); for(auto&ph:s->phis()){ t.erase(I.num[&ph]); } for(int v:t) live.insert(v); }
  for(auto*s:successors(bb)) for(auto&ph:s->phis()){ auto q=I.num.find(ph.getIncomingValueForBlock(bb)); if(q!=I.num.end()) live.insert(q->second); }
  std::vector<const Instruction*> v; for(auto&i:*bb) v.push_back(&i);
  for(int k=(int)v.size()-1;k>=idx;k--){ auto q=I.num.find(v[k]); if(q!=I.num.end()) live.erase(q->second); for(auto&o:v[k]->operands()){ auto q2=I.num.find(o.get()); if(q2!=I.num.end()) live.insert(q2->second); } }
  return I.livemid[key]=std::vector<int>(live.begin(),live.end());
}

struct Item { const BasicBlock*bb; int idx; std::vector<Val> env; State st; };
// A loop that does nothing with the integers of one array but compare and move them: whether it ends depends on their
// order alone, so running it on every weak ordering decides it.
struct OrderLoop { bool ok=false; std::set<const BasicBlock*> body; std::set<const Value*> bases; };
static std::map<const BasicBlock*,OrderLoop> orderMemo;
static const OrderLoop&orderLoop(const BasicBlock*h){
  auto q=orderMemo.find(h); if(q!=orderMemo.end()) return q->second; OrderLoop r; Function&f=*const_cast<Function*>(h->getParent()); DominatorTree DT(f); LoopInfo LI(DT);
  Loop*L=LI.getLoopFor(h); bool ok=L&&L->getHeader()==h; std::set<const Value*> mv; std::vector<const Value*> w;
  if(ok){ for(auto*b:L->blocks()){ r.body.insert(b); for(auto&i:*b){ if(isa<DbgInfoIntrinsic>(i)) continue; if(isa<CallBase>(i)) ok=false; const Value*ptr=nullptr; if(auto*l=dyn_cast<LoadInst>(&i)){ if(!l->getType()->isIntegerTy()) ok=false; ptr=l->getPointerOperand(); mv.insert(l); w.push_back(l); } if(auto*st=dyn_cast<StoreInst>(&i)) ptr=st->getPointerOperand();
        if(ptr){ while(auto*g=dyn_cast<GetElementPtrInst>(ptr)) ptr=g->getPointerOperand(); if(auto*pi=dyn_cast<Instruction>(ptr)) if(L->contains(pi)) ok=false; r.bases.insert(ptr); } } }
    while(ok&&!w.empty()){ auto*v=w.back(); w.pop_back(); for(auto*u:v->users()){ auto*i=dyn_cast<Instruction>(u); if(!i||!L->contains(i)) continue; if(isa<PHINode>(i)||isa<CastInst>(i)||(isa<SelectInst>(i)&&i->getOperand(0)!=v)){ if(!i->getType()->isIntegerTy()) ok=false; else if(mv.insert(i).second) w.push_back(i); } else if(isa<ICmpInst>(i)||isa<DbgInfoIntrinsic>(i)) {} else if(auto*st=dyn_cast<StoreInst>(i)){ if(st->getValueOperand()!=v) ok=false; } else ok=false; } }
    bool cmp=false; if(ok) for(auto*b:r.body) for(auto&i:*b){ if(auto*c=dyn_cast<ICmpInst>(&i)){ bool x=mv.count(c->getOperand(0)),y=mv.count(c->getOperand(1)); if(x!=y) ok=false; if(x&&y) cmp=true; } if(auto*st=dyn_cast<StoreInst>(&i)) if(!mv.count(st->getValueOperand())) ok=false; }
    if(!cmp||r.bases.size()!=1) ok=false; }
  r.ok=ok; return orderMemo[h]=r; }
// the same float read twice
static bool sameFloat(const Value*a,const Value*b){ if(a==b) return true; auto*x=dyn_cast<ExtractElementInst>(a),*y=dyn_cast<ExtractElementInst>(b); if(x&&y) return x->getVectorOperand()==y->getVectorOperand()&&x->getIndexOperand()==y->getIndexOperand();
  auto*p=dyn_cast<LoadInst>(a),*q=dyn_cast<LoadInst>(b); if(p&&q&&p->getPointerOperand()==q->getPointerOperand()&&p->getParent()==q->getParent()){ const Instruction*f=p->comesBefore(q)?p:q,*l=f==p?q:p; for(auto*i=f;i!=l;i=i->getNextNode()) if(i->mayWriteToMemory()) return false; return true; }
  auto*u=dyn_cast<CastInst>(a),*v=dyn_cast<CastInst>(b); return u&&v&&u->getOpcode()==v->getOpcode()&&u->getType()==v->getType()&&sameFloat(u->getOperand(0),v->getOperand(0)); }
static bool testsNaN(const Function*f){ static std::map<const Function*,bool> memo; auto q=memo.find(f); if(q!=memo.end()) return q->second; memo[f]=false; bool r=false; for(auto&b:*f) for(auto&i:b){ if(auto*c=dyn_cast<FCmpInst>(&i)){ auto p=c->getPredicate(); if(p==CmpInst::FCMP_UNO||p==CmpInst::FCMP_ORD||sameFloat(c->getOperand(0),c->getOperand(1))) r=true; } else if(auto*c=dyn_cast<CallInst>(&i)) if(auto*g=c->getCalledFunction()){ if(g->getName().starts_with("llvm.is.fpclass")||(!g->isDeclaration()&&testsNaN(g))) r=true; } } return memo[f]=r; }
static std::map<const BasicBlock*,std::vector<Item>> orderEntries; static std::set<const BasicBlock*> widenedAt;

static std::string valSig(Interp&IN,const State&s,const Val&v){
  switch(v.k){ case Val::Int:{ Val r=IN.simp(s,v); if(r.isc) return "i"+std::to_string(r.c); return "?"; }
    case Val::Ptr: return "p"+std::to_string(v.obj)+(v.isc?"+"+std::to_string((int64_t)v.c):"+?");
    case Val::Fp: { char b[40]; snprintf(b,40,"d%a",v.d); return b; }
    case Val::Agg: return "a"; default: return "u"; } }

// join B into A (same signature)
static bool joinInto(Interp&IN,State&A,std::vector<Val>*ea,const std::vector<int>*live,const State&B,const std::vector<Val>*eb){
  IN.joins++;
  std::map<std::pair<F,F>,F> memo; F gate=0; bool hg=false;
  State A0; A0.eqs=A.eqs;
  if(!(A.eqs==B.eqs)){
    // complementary single equation?
    std::vector<std::pair<uint32_t,F>> da,db; for(auto&k:A.eqs.piv){ auto it=B.eqs.piv.find(k.first); if(it==B.eqs.piv.end()||it->second!=k.second) da.push_back(k);} for(auto&k:B.eqs.piv){ auto it=A.eqs.piv.find(k.first); if(it==A.eqs.piv.end()||it->second!=k.second) db.push_back(k);} 
    if(da.size()==1&&db.size()==1&&G.x(da[0].second,db[0].second)==1){ gate=G.inv(da[0].second); hg=true; } // in A form==0 so gate=form^1 ==1 in A
    else { // any equation of A negated in B?
      for(auto&k:da){ F r=B.eqs.red(k.second); if(r==1){ gate=G.inv(k.second); hg=true; break; } } }
    Eqs E; for(auto&k:A.eqs.piv) if(B.eqs.red(k.second)==0) E.add(k.second,false);
    for(auto&k:B.eqs.piv) if(A.eqs.red(k.second)==0) E.add(k.second,false);
    State R; R.eqs=E; A.eqs=E;
  }
  State Bx; Bx.eqs=B.eqs;
  auto jb=[&](F a,F b){ return joinBit(A0,Bx,a,b,memo,gate,hg); };
  auto jv=[&](const Val&a,const Val&b)->Val{
    if(a.k==Val::Undef||b.k==Val::Undef) return Val();
    if(IN.fpmode&&(a.k==Val::FpTop||b.k==Val::FpTop||(a.k==Val::Fp&&b.k==Val::Fp&&!(a.d==b.d)))){ Val x=IN.rng(A0,a),y=IN.rng(Bx,b); return Val::R(std::min(x.lo,y.lo),std::max(x.hi,y.hi),a.k==Val::FpTop&&b.k==Val::FpTop&&a.nan==b.nan?a.nan:x.nan==y.nan?x.nan:-1); }
    if(a.k==Val::FpTop||b.k==Val::FpTop) return Val::DT();
    if(a.k==Val::Fp&&b.k==Val::Fp) return a.d==b.d?a:Val::DT();
    if(a.k==Val::Int&&b.k==Val::Int){ std::vector<F> r(a.w); for(unsigned i=0;i<a.w;i++) r[i]=jb(a.bit(i),b.bit(i)); return Val::S(r); }
    if(a.k==Val::Ptr&&b.k==Val::Ptr&&a.obj==b.obj&&a.isc&&b.isc&&a.c==b.c) return a;
    if(a.k==Val::Ptr&&b.k==Val::Ptr&&a.obj==b.obj){ std::vector<F> r(64); for(int i=0;i<64;i++){ F x=a.isc?(a.c>>i)&1:(*a.bits)[i], y=b.isc?(b.c>>i)&1:(*b.bits)[i]; r[i]=jb(x,y);} Val v=a; v.isc=false; v.bits=std::make_shared<std::vector<F>>(r); return v; }
    return Val(); };
  if(ea) for(int s:*live){ Val&a=(*ea)[s]; const Val&b=(*eb)[s];
    if(a.k==Val::Agg&&b.k==Val::Agg){ auto n=std::make_shared<std::vector<Val>>(); for(size_t i=0;i<a.agg->size();i++) n->push_back(jv((*a.agg)[i],(*b.agg)[i])); Val v; v.k=Val::Agg; v.agg=n; a=v; }
    else a=jv(a,b); }
  for(size_t o=1;o<A.objs.size();o++){ if(A.objs[o]==B.objs[o]) continue; const Obj&bo=*B.objs[o]; bool diff=false; { const Obj&ao=*A.objs[o]; for(size_t i=0;i<ao.cells.size();i++) if(!(ao.cells[i]==bo.cells[i])){ diff=true; break; } } if(!diff) continue;
    Obj&ao=IN.wobj(A,o);
    for(size_t i=0;i<ao.cells.size();i++){ Cell&x=ao.cells[i]; const Cell&y=bo.cells[i]; if(x==y) continue;
      auto isb=[](const Cell&c){ return c.k==Cell::Const||c.k==Cell::Sym; };
      if(isb(x)&&isb(y)){ std::vector<F> r(8); for(int j=0;j<8;j++){ F p= x.k==Cell::Const?(x.c>>j)&1:tupTab[x.id][j]; F q= y.k==Cell::Const?(y.c>>j)&1:tupTab[y.id][j]; r[j]=jb(p,q);} x=IN.symCell(r); }
      else { x=Cell(); x.k=Cell::Top; } } }
  return true;
}

// S := S widened by N; false if S already covers N
static bool widenInto(Interp&IN,State&S,std::vector<Val>&es,std::set<int>&open,const std::vector<int>&live,const State&N,const std::vector<Val>&en){
  bool ch=false; Eqs E; for(auto&k:S.eqs.piv) if(N.eqs.red(k.second)==0) E.add(k.second,false); if(!(E==S.eqs)){ S.eqs=E; ch=true; }
  for(int l:live){ if(open.count(l)) continue; Val&a=es[l]; const Val&b=en[l]; bool same=a.k==b.k&&a.obj==b.obj&&a.isc==b.isc&&a.c==b.c&&a.w==b.w;
    if(same&&a.k==Val::Int&&!a.isc) for(unsigned i=0;i<a.w;i++) if(N.eqs.red(a.bit(i))!=N.eqs.red(b.bit(i))) same=false;
    if(same&&a.k==Val::Ptr&&!a.isc) same=false; if(same&&a.k==Val::Fp) same=a.d==b.d||(std::isnan(a.d)&&std::isnan(b.d)); if(same&&a.k==Val::FpTop) same=a.lo<=b.lo&&a.hi>=b.hi&&(a.nan==b.nan||a.nan==-1); if(a.k==Val::Agg) same=false;
    if(same) continue; ch=true; open.insert(l); if(a.k==Val::Int) a=IN.freshInt(a.w); else if(a.k==Val::FpTop||a.k==Val::Fp) { a=Val::DT(); } else if(a.k==Val::Undef) {} else throw Broken("widening of a live pointer"); }
  if(S.objs.size()!=N.objs.size()) throw Broken("allocation in an uncounted loop");
  for(size_t o=1;o<S.objs.size();o++){ if(S.objs[o]==N.objs[o]) continue; const Obj&no=*N.objs[o]; bool d=false; { const Obj&so=*S.objs[o]; for(size_t i=0;i<so.cells.size();i++) if(!(so.cells[i]==no.cells[i])&&so.cells[i].k!=Cell::Top){ d=true; break; } } if(!d) continue;
    Obj&so=IN.wobj(S,o); for(size_t i=0;i<so.cells.size();i++) if(!(so.cells[i]==no.cells[i])&&so.cells[i].k!=Cell::Top){ if(so.cells[i].k==Cell::Ptr||no.cells[i].k==Cell::Ptr) throw Broken("widening of a stored pointer"); so.cells[i]=Cell(); so.cells[i].k=Cell::Top; ch=true; } }
  return ch; }
std::vector<Out> Interp::call(const Function*f,std::vector<Val> args,State st0){ return exec(f,args,std::move(st0),nullptr,nullptr); }
std::vector<std::array<std::string,2>> Interp::dataLoops(){
  std::vector<std::array<std::string,2>> res; for(auto*h:widenedAt){ std::string at=loc(&*h->getFirstNonPHIOrDbg()); auto&L=orderLoop(h); std::string v="not decided"; const Function*f=h->getParent();
    if(L.ok&&orderEntries.count(h)){ v="ends"; std::set<size_t> sizes; for(auto&e:orderEntries[h]){ Val p=e.env[info(f).num[*L.bases.begin()]]; if(p.k!=Val::Ptr||!p.isc||p.c||!p.obj){ v="not decided"; break; } const Obj&o=*e.st.objs[p.obj]; size_t n=o.size/4; if(o.size%4||n>5||n<1){ v="not decided"; break; } if(!sizes.insert(n).second) continue;
        uint64_t tot=1; for(size_t i=0;i<n;i++) tot*=n; for(uint64_t k=0;k<tot&&v=="ends";k++){ Item it=e; uint64_t x=k; std::string vs; for(size_t i=0;i<n;i++,x/=n){ storeAt(it.st,p.obj,4*i,Val::I(32,x%n),Type::getInt32Ty(M->getContext())); vs+=(i?",":"")+std::to_string(x%n); } loopRuns++; std::vector<Out> r=exec(f,{},State(),&it,&L.body); if(r.empty()) v="never ends when the values are ordered like ("+vs+")"; } } }
    res.push_back({at,v}); }
  return res; }
std::vector<Out> Interp::exec(const Function*f,std::vector<Val> args,State st0,const Item*start,const std::set<const BasicBlock*>*body){
  if(f->isDeclaration()) throw Broken("call of undefined function "+f->getName().str());
  if(stack.size()>60) throw Broken("recursion");
  reached.insert(f);
  stack.push_back(f); FnInfo&I=info(f);
  std::map<std::pair<int,int>,std::vector<Item>> wl; std::vector<Out> outs;
  if(start) wl[{I.rpo.at(start->bb),start->idx}].push_back(*start); else { Item it; it.bb=&f->getEntryBlock(); it.idx=0; it.env.resize(I.n); for(unsigned i=0;i<f->arg_size();i++) it.env[I.num[f->getArg(i)]]=args[i]; it.st=std::move(st0); wl[{0,0}].push_back(std::move(it)); }
  int turns=0; struct Seen { int n=0; bool has=false; State st; std::vector<Val> env; std::set<int> open; }; std::map<std::pair<const BasicBlock*,std::string>,Seen> seen;
  auto push=[&](Item&&it){ int r=I.rpo.at(it.bb); wl[{r,it.idx}].push_back(std::move(it)); };
  while(!wl.empty()){
    auto wit=wl.begin(); std::vector<Item> items=std::move(wit->second); auto key=wit->first; wl.erase(wit);
    if(items.size()>1){
      const std::vector<int> live= key.second==0? I.livein[items[0].bb] : liveMid(I,items[0].bb,key.second);
      std::map<std::string,Item> g; 
      for(auto&it:items){ std::string s=partSig(it.st); for(int l:live) s+= fpmode&&I.floatOnly().count(l)?"|*":"|"+valSig(*this,it.st,it.env[l]); auto q=g.find(s); if(q==g.end()) g.emplace(s,std::move(it)); else joinInto(*this,q->second.st,&q->second.env,&live,it.st,&it.env); }
      items.clear(); for(auto&kv:g) items.push_back(std::move(kv.second));
      if(items.size()>maxitems) throw Broken("too many partitions at "+f->getName().str());
    }
    if(start&&(!outs.empty()||++turns>20000)){ stack.pop_back(); return outs; }
    if(fpmode&&!start&&key.second==0&&I.heads().count(items[0].bb)){
      const std::vector<int> live=I.livein[items[0].bb]; std::vector<Item> keep;
      for(auto&it:items){ std::string s=partSig(it.st); for(int l:live) s+= fpmode&&I.floatOnly().count(l)?"|*":"|"+valSig(*this,it.st,it.env[l]); auto&v=seen[{items[0].bb,s}]; if(++v.n<=40){ keep.push_back(std::move(it)); continue; }
        if(!v.has){ widenedAt.insert(it.bb); v.has=true; v.st=it.st; v.env=it.env; keep.push_back(std::move(it)); continue; }
        if(widenInto(*this,v.st,v.env,v.open,live,it.st,it.env)){ Item w; w.bb=it.bb; w.idx=it.idx; w.env=v.env; w.st=v.st; keep.push_back(std::move(w)); } }
      items=std::move(keep); }
    for(auto&it:items){
      Item cur=std::move(it);
      const BasicBlock*bb=cur.bb; auto ii=bb->begin(); std::advance(ii,cur.idx);
      bool done=false;
      auto ev=[&](const Value*v)->Val{ if(auto*c=dyn_cast<Constant>(v)) return constant(cur.st,c); auto q=I.num.find(v); if(q==I.num.end()) return Val(); return cur.env[q->second]; };
      auto go=[&](Item&&src,const BasicBlock*to,const BasicBlock*from,bool direct)->bool{
        // resolve phis
        std::vector<std::pair<int,Val>> pv; for(auto&ph:to->phis()){ const Value*v=ph.getIncomingValueForBlock(from); Val x; if(auto*c=dyn_cast<Constant>(v)) x=constant(src.st,c); else x=src.env[I.num[v]]; pv.push_back({I.num[&ph],x}); }
        for(auto&p:pv) src.env[p.first]=p.second;
        src.bb=to; src.idx=0; for(auto&i:*to){ if(!isa<PHINode>(i)) break; src.idx++; }
        src.idx=0; (void)direct; if(body&&!body->count(to)){ Out o; outs.push_back(o); return true; }
        if(fpmode&&!start&&I.rpo.at(from)<I.rpo.at(to)&&I.heads().count(to)&&orderEntries[to].size()<4&&orderLoop(to).ok) orderEntries[to].push_back(src);
        push(std::move(src)); return true; };
      while(!done){
        if((++steps&0xfff)==0&&maxtime&&difftime(time(nullptr),started)>maxtime) throw Broken("time budget exhausted in "+f->getName().str()); if(steps>maxsteps) throw Broken("step budget exhausted in "+f->getName().str());
        const Instruction*in=&*ii; int slot=-1; { if(!in->getType()->isVoidTy()) slot=I.num[in]; }
        // a NaN test of an untracked float: give the tested value (and where it was read from) a form that is 1 iff NaN
        std::function<void(const Value*,F)> tagNaN=[&](const Value*v,F f){ auto q=I.num.find(v); if(q==I.num.end()||isa<Constant>(v)) return; Val&x=cur.env[q->second]; if(x.k!=Val::FpTop||x.nan>=0) return; x.nan=f;
          if(auto*e=dyn_cast<ExtractElementInst>(v)){ auto qa=I.num.find(e->getVectorOperand()); auto*ci=dyn_cast<ConstantInt>(e->getIndexOperand()); if(qa!=I.num.end()&&ci){ Val&g=cur.env[qa->second]; uint64_t n=ci->getZExtValue(); if(g.k==Val::Agg&&n<g.agg->size()&&(*g.agg)[n].k==Val::FpTop&&(*g.agg)[n].nan<0){ auto na=std::make_shared<std::vector<Val>>(*g.agg); (*na)[n].nan=f; g.agg=na; } } }
          else if(auto*c=dyn_cast<CastInst>(v)) tagNaN(c->getOperand(0),f); };
        auto askNaN=[&](const Value*v){ if(!fpmode) return; Val x=ev(v); if(x.k==Val::FpTop&&x.nan<0) tagNaN(v,G.fresh()); };
        auto set=[&](Val v){ cur.env[slot]=std::move(v); };
        // an element access outside the declared array, even if it stays inside the enclosing object
        auto inArray=[&](const Value*v)->bool{ auto*g=dyn_cast<GetElementPtrInst>(v); if(!g||g->getNumIndices()<2) return true;
          Type*t=g->getSourceElementType(); for(unsigned k=2;k<g->getNumOperands();k++){ if(auto*st=dyn_cast<StructType>(t)){ auto*c=dyn_cast<ConstantInt>(g->getOperand(k)); if(!c) return true; t=st->getElementType(c->getZExtValue()); continue; }
            auto*at=dyn_cast<ArrayType>(t); if(!at) return true; t=at->getElementType(); uint64_t n=at->getNumElements(); if(n<2) continue; Val ix=simp(cur.st,ev(g->getOperand(k))); if(ix.k!=Val::Int||!ix.isc) continue; int64_t i=ix.sc(); if(i<0||(uint64_t)i>=n){ alarm("array-bounds",in,"element "+std::to_string(i)+" of an array of "+std::to_string(n)); return false; } }
          return true; };
        switch(in->getOpcode()){
          case Instruction::PHI: break;
          case Instruction::Alloca: { auto*a=cast<AllocaInst>(in); Val n=ev(a->getArraySize()); n=simp(cur.st,n); if(!n.isc) throw Broken("symbolic alloca at "+loc(in)); uint64_t es=DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); int64_t cnt=n.sc(); if(cnt<0||cnt>(1<<26)){ alarm("bad-alloca",in,"size "+std::to_string(cnt)); cnt=0; } std::string nm=a->getName().str(); if(nm.empty()||nm=="vla"||nm.rfind("vla",0)==0) nm="local array"; set(Val::P(newobj(cur.st,nm+"@"+f->getName().str(),es*cnt,Obj::Stack),0)); break; }
          case Instruction::Load: { if(!inArray(in->getOperand(0))){ done=true; break; } Val p=ev(in->getOperand(0)); set(load(cur.st,p,in->getType(),in)); break; }
          case Instruction::Store: { if(!inArray(in->getOperand(1))){ done=true; break; } Val v=ev(in->getOperand(0)); Val p=ev(in->getOperand(1)); store(cur.st,p,v,in->getOperand(0)->getType(),in); break; }
          case Instruction::GetElementPtr: {
            auto*g=cast<GetElementPtrInst>(in); Val p=ev(g->getPointerOperand());
            if(p.k!=Val::Ptr){ set(Val()); break; }
            int64_t off=0; Val sym; bool hs=false;
            for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Val ix=simp(cur.st,ev(gi.getOperand()));
              if(auto*stt=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(stt)->getElementOffset(ix.c); continue; }
              uint64_t es=DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
              if(ix.k==Val::Undef){ alarm("uninit-index",in,""); ix=freshInt(64); }
              if(ix.isc){ off+=ix.sc()*(int64_t)es; continue; }
              std::vector<F> e(64); for(int i=0;i<64;i++) e[i]=ix.bit(std::min<unsigned>(i,ix.w-1));
              Val m=Val::S(e); // times es
              Val acc=Val::I(64,0); for(int i=0;i<63;i++) if(es>>i&1){ std::vector<F> r(64,0); for(int j=i;j<64;j++) r[j]=m.bit(j-i); acc=addv(acc,Val::S(r),0); }
              if(!hs){ sym=acc; hs=true; } else sym=addv(sym,acc,0); }
            if(!hs&&p.isc){ p.c+=off; set(p); break; }
            Val base= p.isc?Val::I(64,p.c+off): addv(Val::S(*p.bits),Val::I(64,off),0);
            Val tot= hs?addv(base,sym,0):base; tot=simp(cur.st,tot);
            if(tot.isc){ set(Val::P(p.obj,tot.c)); } else { Val q=p; q.isc=false; q.bits=tot.bits; set(q); }
            break; }
          case Instruction::ICmp: { auto*c=cast<ICmpInst>(in); set(icmp(cur.st,c->getPredicate(),ev(c->getOperand(0)),ev(c->getOperand(1)),in)); break; }
          case Instruction::FCmp: { auto*c=cast<FCmpInst>(in); auto prd=c->getPredicate(); const Value*o0=c->getOperand(0),*o1=c->getOperand(1); if(fpmode&&sameFloat(o0,o1)){ o1=o0; if(prd==CmpInst::FCMP_UNE) prd=CmpInst::FCMP_UNO; else if(prd==CmpInst::FCMP_OEQ) prd=CmpInst::FCMP_ORD; } if(prd==CmpInst::FCMP_UNO||prd==CmpInst::FCMP_ORD){ askNaN(o0); askNaN(o1); } Val a=ev(o0),b=ev(o1); if(a.k==Val::Fp&&b.k==Val::Fp){ bool un=std::isnan(a.d)||std::isnan(b.d); bool r; switch(prd){ case CmpInst::FCMP_OEQ: r=!un&&a.d==b.d; break; case CmpInst::FCMP_OGT: r=!un&&a.d>b.d; break; case CmpInst::FCMP_OGE: r=!un&&a.d>=b.d; break; case CmpInst::FCMP_OLT: r=!un&&a.d<b.d; break; case CmpInst::FCMP_OLE: r=!un&&a.d<=b.d; break; case CmpInst::FCMP_ONE: r=!un&&a.d!=b.d; break; case CmpInst::FCMP_UNE: r=un||a.d!=b.d; break; case CmpInst::FCMP_UEQ: r=un||a.d==b.d; break; case CmpInst::FCMP_ORD: r=!un; break; case CmpInst::FCMP_UNO: r=un; break; case CmpInst::FCMP_UGT: r=un||a.d>b.d; break; case CmpInst::FCMP_UGE: r=un||a.d>=b.d; break; case CmpInst::FCMP_ULT: r=un||a.d<b.d; break; case CmpInst::FCMP_ULE: r=un||a.d<=b.d; break; default: throw Broken("fcmp"); } set(Val::I(1,r)); } else if(fpmode){ Val x=rng(cur.st,a),y=rng(cur.st,b); auto pr=prd; F nx=x.nan<0?G.fresh():x.nan, ny= o0==o1?nx:y.nan<0?G.fresh():y.nan; F un=G.lor(nx,ny); 
              if(pr==CmpInst::FCMP_UNO){ set(Val::S({un})); break; } if(pr==CmpInst::FCMP_ORD){ set(Val::S({G.inv(un)})); break; }
              int r=-1; bool lt=x.hi<y.lo, gt=x.lo>y.hi, le=x.hi<=y.lo, ge=x.lo>=y.hi; switch(pr){ case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r=lt?1:ge?0:-1; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r=le?1:gt?0:-1; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r=gt?1:le?0:-1; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r=ge?1:lt?0:-1; break; case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r=(lt||gt)?0:-1; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r=(lt||gt)?1:-1; break; default: break; }
              if(r<0) set(freshInt(1)); else { bool ord=CmpInst::isOrdered(pr); if(un==0||(ord?r==0:r==1)) set(Val::I(1,r)); else set(Val::S({ord?G.inv(un):un})); } }
            else set(freshInt(1)); break; }
          case Instruction::FNeg: { Val a=ev(in->getOperand(0)); set(a.k==Val::Fp?Val::D(-a.d):Val::DT()); break; }
          case Instruction::Select: { Val c=simp(cur.st,ev(in->getOperand(0))); Val a=ev(in->getOperand(1)),b=ev(in->getOperand(2));
            if(c.k==Val::Undef) c=freshInt(1);
            if(c.isc){ set(c.c?a:b); break; }
            if(a.k==Val::Int&&b.k==Val::Int){ set(select(cur.st,c,simp(cur.st,a),simp(cur.st,b))); break; }
            // fork on the condition
            { F g=c.bit(0); forks++; Item o=cur; Item t2=std::move(cur); t2.st.eqs.add(g,true); o.st.eqs.add(g,false); t2.idx=o.idx=std::distance(bb->begin(),ii)+1; t2.bb=o.bb=bb; t2.env[slot]=a; o.env[slot]=b; if(!t2.st.eqs.bad) push(std::move(t2)); if(!o.st.eqs.bad) push(std::move(o)); done=true; continue; }
          }
          case Instruction::ExtractValue: { auto*e=cast<ExtractValueInst>(in); Val a=ev(e->getAggregateOperand()); for(unsigned i:e->indices()){ if(a.k!=Val::Agg) throw Broken("extractvalue"); Val t=(*a.agg)[i]; a=t; } set(a); break; }
          case Instruction::InsertValue: { auto*e=cast<InsertValueInst>(in); Val a=ev(e->getAggregateOperand()); if(a.k!=Val::Agg||e->getNumIndices()!=1) throw Broken("insertvalue"); auto n=std::make_shared<std::vector<Val>>(*a.agg); (*n)[e->getIndices()[0]]=ev(e->getInsertedValueOperand()); Val v; v.k=Val::Agg; v.agg=n; set(v); break; }
          case Instruction::ExtractElement: { Val a=ev(in->getOperand(0)),x=ev(in->getOperand(1)); if(a.k!=Val::Agg||!x.isc) throw Broken("extractelement"); set((*a.agg)[x.c]); break; }
          case Instruction::InsertElement: { Val a=ev(in->getOperand(0)),x=ev(in->getOperand(2)); auto n=std::make_shared<std::vector<Val>>(); if(a.k==Val::Agg) *n=*a.agg; else n->resize(cast<FixedVectorType>(in->getType())->getNumElements()); (*n)[x.c]=ev(in->getOperand(1)); Val v; v.k=Val::Agg; v.agg=n; set(v); break; }
          case Instruction::Br: { auto*b=cast<BranchInst>(in); done=true;
            if(b->isUnconditional()){ go(std::move(cur),b->getSuccessor(0),bb,true); break; }
            Val c=simp(cur.st,ev(b->getCondition())); if(c.k==Val::Undef){ alarm("uninit-branch",in,""); c=freshInt(1); }
            if(c.isc){ go(std::move(cur),b->getSuccessor(c.c?0:1),bb,true); break; }
            { forks++; F g=c.bit(0); Item o=cur; cur.st.eqs.add(g,true); o.st.eqs.add(g,false); if(!cur.st.eqs.bad) go(std::move(cur),b->getSuccessor(0),bb,false); if(!o.st.eqs.bad) go(std::move(o),b->getSuccessor(1),bb,false); }
            break; }
          case Instruction::Switch: { auto*sw=cast<SwitchInst>(in); done=true; Val c=simp(cur.st,ev(sw->getCondition())); if(c.k==Val::Undef){ alarm("uninit-branch",in,""); c=freshInt(sw->getCondition()->getType()->getIntegerBitWidth()); }
            if(c.isc){ const BasicBlock*d=sw->getDefaultDest(); for(auto&cs:sw->cases()) if(cs.getCaseValue()->getZExtValue()==c.c) d=cs.getCaseSuccessor(); go(std::move(cur),d,bb,true); break; }
            forks++; std::map<const BasicBlock*,std::vector<uint64_t>> grp; for(auto&cs:sw->cases()) grp[cs.getCaseSuccessor()].push_back(cs.getCaseValue()->getZExtValue());
            for(auto&cs:sw->cases()){ uint64_t k=cs.getCaseValue()->getZExtValue(); auto&gk=grp[cs.getCaseSuccessor()];
              if(gk.size()>groupcases){ if(k!=gk[0]) continue; // many values, one target: the affine hull of the values
                Item o=cur; std::vector<uint64_t> d; for(uint64_t v:gk){ uint64_t r=v^gk[0]; for(uint64_t e:d) if((r^e)<r) r^=e; if(r){ d.push_back(r); std::sort(d.rbegin(),d.rend()); } }
                // every linear functional of the bits that is constant on the hull
                std::vector<uint64_t> fn; for(unsigned i=0;i<c.w;i++) fn.push_back(1ull<<i);
                for(uint64_t e:d){ int pv=-1; for(size_t i=0;i<fn.size();i++) if(__builtin_parityll(fn[i]&e)){ pv=i; break; } if(pv<0) continue; uint64_t p=fn[pv]; fn.erase(fn.begin()+pv); for(auto&q:fn) if(__builtin_parityll(q&e)) q^=p; }
                for(uint64_t q:fn){ F f=0; for(unsigned i=0;i<c.w;i++) if((q>>i)&1) f=G.x(f,c.bit(i)); o.st.eqs.add(f,__builtin_parityll(q&gk[0])); }
                if(!o.st.eqs.bad) go(std::move(o),cs.getCaseSuccessor(),bb,false); continue; }
              Item o=cur; for(unsigned i=0;i<c.w;i++) o.st.eqs.add(c.bit(i),(k>>i)&1); if(!o.st.eqs.bad) go(std::move(o),cs.getCaseSuccessor(),bb,false); }
            go(std::move(cur),sw->getDefaultDest(),bb,false); break; }
          case Instruction::FPToSI: case Instruction::FPToUI: { Val v=ev(in->getOperand(0)); if(fpmode&&v.k==Val::FpTop){ Val x=rng(cur.st,v); double lo=trunc(x.lo),hi=trunc(x.hi); if(x.nan==0&&std::isfinite(lo)&&std::isfinite(hi)&&hi-lo<=256){ unsigned w=in->getType()->getIntegerBitWidth(); if(lo==hi){ set(Val::I(w,(uint64_t)(int64_t)lo)); break; }
              int nidx=std::distance(bb->begin(),ii)+1; for(double d=lo;d<=hi;d+=1){ Item o=cur; o.bb=bb; o.idx=nidx; o.env[slot]=Val::I(w,(uint64_t)(int64_t)d); push(std::move(o)); } forks++; done=true; break; } }
            set(castOp(cur.st,in,in->getOpcode(),v,in->getType(),in->getOperand(0)->getType())); break; }
          case Instruction::Ret: { done=true; Out o; if(in->getNumOperands()) o.ret=simp(cur.st,ev(in->getOperand(0))); o.st=std::move(cur.st); outs.push_back(std::move(o)); break; }
          case Instruction::Unreachable: done=true; break;
          case Instruction::Call: {
            auto*CB=cast<CallBase>(in); 
            if(isa<DbgInfoIntrinsic>(CB)) break;
            const Function*cf=CB->getCalledFunction(); 
            if(!cf){ Val p=ev(CB->getCalledOperand()); if(p.k==Val::Ptr&&p.obj&&robj(cur.st,p.obj).fn) cf=robj(cur.st,p.obj).fn; else throw Broken("indirect call at "+loc(in)); }
            if(cf->getName().starts_with("llvm.is.fpclass")) askNaN(CB->getArgOperand(0));
            if(fpmode&&!cf->isDeclaration()&&testsNaN(cf)) for(auto&a:CB->args()){ auto q=I.num.find(a.get()); if(q==I.num.end()) continue; Val&x=cur.env[q->second]; if(x.k==Val::FpTop) askNaN(a.get()); else if(x.k==Val::Agg){ auto na=std::make_shared<std::vector<Val>>(*x.agg); for(auto&e:*na) if(e.k==Val::FpTop&&e.nan<0) e.nan=G.fresh(); x.agg=na; } }
            std::vector<Val> av; for(auto&a:CB->args()){ if(a->getType()->isMetadataTy()){ av.push_back(Val()); continue;} Val v=ev(a.get()); av.push_back(simp(cur.st,v)); }
            std::string nm=cf->getName().str(); std::vector<Out> res; bool handled=false;
            auto sit=stubs.find(nm);
            if(sit!=stubs.end()){ handled=sit->second(*this,CB,av,cur.st,res); }
            if(!handled){
              if(cf->isDeclaration()){ Val r; std::vector<Out> multi; Out o; if(!libcall(CB,nm,av,cur.st,r,&multi)){ done=true; break; } if(slot>=0) set(r); break; }
              size_t nobj=cur.st.objs.size(); (void)nobj;
              res=call(cf,av,cur.st);
            }
            int nidx=std::distance(bb->begin(),ii)+1;
            if(res.empty()){ done=true; break; }
            if(res.size()==1){ cur.st=std::move(res[0].st); if(slot>=0) set(res[0].ret); break; }
            for(auto&o:res){ Item x; x.bb=bb; x.idx=nidx; x.env=cur.env; x.st=std::move(o.st); if(slot>=0) x.env[slot]=o.ret; push(std::move(x)); }
            done=true; break; }
          default:
            if(in->isCast()||in->getOpcode()==Instruction::Freeze){ set(castOp(cur.st,in,in->getOpcode(),ev(in->getOperand(0)),in->getType(),in->getOperand(0)->getType())); break; }
            if(in->isBinaryOp()){ set(binop(cur.st,in,in->getOpcode(),ev(in->getOperand(0)),ev(in->getOperand(1)))); break; }
            { std::string q; raw_string_ostream os(q); in->print(os); throw Broken("unsupported instruction "+os.str()); }
        }
        if(!done) ++ii;
      }
    }
  }
  stack.pop_back();
  // merge exits with the same signature
  if(outs.size()>1){ std::map<std::string,Out> g; std::vector<int> lv={0}; for(auto&o:outs){ std::string s=partSig(o.st)+"|"+valSig(*this,o.st,o.ret); auto q=g.find(s); if(q==g.end()) g.emplace(s,std::move(o)); else { std::vector<Val> ea={q->second.ret},eb={o.ret}; joinInto(*this,q->second.st,&ea,&lv,o.st,&eb); q->second.ret=ea[0]; } } outs.clear(); for(auto&kv:g) outs.push_back(std::move(kv.second)); }
  // stack objects of this frame are dead now: drop contents lazily (ids stay valid)
  return outs;
}

// ------------------------------------------------------------ library model
static std::string cstr(Interp&IN,State&s,const Val&p){ std::string r; if(p.k!=Val::Ptr||!p.isc||!p.obj) throw Broken("string arg"); const Obj&o=IN.robj(s,p.obj); for(uint64_t i=p.c;i<o.size;i++){ if(o.cells[i].k!=Cell::Const) throw Broken("non-constant string"); if(!o.cells[i].c) return r; r+=o.cells[i].c; } throw Broken("unterminated string"); }
static bool cellMayBeZero(const Cell&c){ if(c.k==Cell::Const) return c.c==0; if(c.k==Cell::Sym){ const auto&b=tupTab[c.id]; for(F f:b) if(f==1) return false; return nonzeroTuples.count(b)==0; } return true; }

bool Interp::libcall(const CallBase*CB,const std::string&n,std::vector<Val>&a,State&st,Val&ret,std::vector<Out>*multi){
  auto is=[&](const char*p){ return n==p; };
  auto intr=[&](const char*p){ return n.rfind(p,0)==0; };
  Type*rt=CB->getType();
  auto wantc=[&](int i)->uint64_t{ if(a[i].k!=Val::Int||!a[i].isc) throw Broken("symbolic length in "+n+" at "+loc(CB)); return a[i].c; };
  if(intr("llvm.lifetime")||intr("llvm.dbg")||intr("llvm.assume")||intr("llvm.experimental")) return true;
  if(intr("llvm.stacksave")){ ret=Val::P(0,0); return true; } if(intr("llvm.stackrestore")) return true;
  if(intr("llvm.memcpy")||intr("llvm.memmove")||is("memcpy")||is("memmove")){
    uint64_t len=wantc(2); ret=a[0]; if(!len) return true; 
    if(!check(st,a[1],len,false,CB)||!check(st,a[0],len,true,CB)) return true;
    if(!a[0].isc||!a[1].isc) throw Broken("symbolic memcpy");
    std::vector<Cell> t(robj(st,a[1].obj).cells.begin()+a[1].c,robj(st,a[1].obj).cells.begin()+a[1].c+len); auto&o=wobj(st,a[0].obj); for(uint64_t i=0;i<len;i++) o.cells[a[0].c+i]=t[i]; return true; }
  if(intr("llvm.memset")||is("memset")){ uint64_t len=wantc(2); ret=a[0]; if(!len) return true; if(!check(st,a[0],len,true,CB)) return true; Cell c; std::vector<F> b(8); for(int i=0;i<8;i++) b[i]=a[1].bit(i); c=symCell(b); auto&o=wobj(st,a[0].obj); for(uint64_t i=0;i<len;i++) o.cells[a[0].c+i]=c; return true; }
  if(is("malloc")||is("calloc")){ uint64_t sz= is("malloc")?wantc(0):wantc(0)*wantc(1); int id=newobj(st,"heap@"+loc(CB),sz,Obj::Heap); if(is("calloc")){ for(auto&c:wobj(st,id).cells) c.k=Cell::Const; } ret=Val::P(id,0); return true; }
  if(is("free")){ if(a[0].k!=Val::Ptr){ alarm("bad-free",CB,"uninitialised pointer"); return true; } if(a[0].obj==0) return true; const Obj&o=robj(st,a[0].obj); if(o.kind!=Obj::Heap||!a[0].isc||a[0].c){ alarm("bad-free",CB,o.name); return true; } if(o.freed){ alarm("double-free",CB,o.name); return true; } wobj(st,a[0].obj).freed=true; return true; }
  if(is("fprintf")||is("printf")||is("puts")||is("fputs")||is("fputc")||is("putc")||is("putchar")||is("fflush")||is("perror")||is("fwrite")||is("vfprintf")){ ret= rt->isVoidTy()?Val():rt->isIntegerTy()?freshInt(rt->getIntegerBitWidth()):Val(); return true; }
  if(is("__assert_fail")){ alarm("assert",CB,"assertion can fail: "+cstr(*this,st,a[0])); return false; }
  if(is("abort")||is("exit")||is("__assert_rtn")){ alarm("abort",CB,n); return false; }
  if(is("strlen")){ uint64_t i; if(a[0].k!=Val::Ptr||!a[0].isc){ throw Broken("strlen arg"); } bool exact=true; const Obj&o=robj(st,a[0].obj); for(i=a[0].c;i<o.size;i++){ if(o.cells[i].k==Cell::Undef) alarm("uninit-read",CB,o.name+" offset "+std::to_string(i)); if(o.cells[i].k==Cell::Const&&o.cells[i].c==0) break; if(cellMayBeZero(o.cells[i])) exact=false; }
    if(i>=o.size){ alarm("oob-read",CB,"strlen of unterminated "+o.name); ret=freshInt(64); return true; }
    uint64_t len=i-a[0].c; if(exact){ ret=Val::I(64,len); return true; } std::vector<F> b(64,0); for(int k=0;k<64&&(len>>k);k++) b[k]=G.fresh(); ret=Val::S(b); return true; }
  auto findnul=[&](const Val&p)->int64_t{ const Obj&o=robj(st,p.obj); for(uint64_t i=p.c;i<o.size;i++){ if(o.cells[i].k==Cell::Const&&o.cells[i].c==0) return i; if(cellMayBeZero(o.cells[i])) throw Broken("string of unknown length in "+n+" at "+loc(CB)); } return -1; };
  if(is("strcat")||is("strcpy")||is("strncat")||is("strncpy")||is("stpcpy")){
    if(!check(st,a[0],1,true,CB)||!check(st,a[1],1,false,CB)){ ret=a[0]; return true; }
    int64_t s0=findnul(a[1]); if(s0<0){ alarm("oob-read",CB,"unterminated "+robj(st,a[1].obj).name); ret=a[0]; return true; }
    int64_t d0=a[0].c; if(n.find("cat")!=std::string::npos){ d0=findnul(a[0]); if(d0<0){ alarm("oob-read",CB,"unterminated "+robj(st,a[0].obj).name); ret=a[0]; return true; } }
    uint64_t len=s0-a[1].c; if(is("strncat")) len=std::min<uint64_t>(len,wantc(2));
    std::vector<Cell> t(robj(st,a[1].obj).cells.begin()+a[1].c,robj(st,a[1].obj).cells.begin()+a[1].c+len); Cell z; z.k=Cell::Const; t.push_back(z);
    if(is("strncpy")){ uint64_t m=wantc(2); if(t.size()>m) t.resize(m); while(t.size()<m) t.push_back(z); }
    if(!check(st,Val::P(a[0].obj,d0),t.size(),true,CB)){ ret=a[0]; return true; }
    auto&o=wobj(st,a[0].obj); for(size_t i=0;i<t.size();i++) o.cells[d0+i]=t[i]; ret= is("stpcpy")?Val::P(a[0].obj,d0+len):a[0]; return true; }
  if(is("sprintf")||is("snprintf")||is("__sprintf_chk")||is("__snprintf_chk")){
    int fi= is("sprintf")?1: is("snprintf")?2: is("__sprintf_chk")?3:4; std::string fmt=cstr(*this,st,a[fi]); size_t ai=fi+1; std::vector<Cell> out;
    auto pc=[&](uint8_t c){ Cell x; x.k=Cell::Const; x.c=c; out.push_back(x); };
    for(size_t i=0;i<fmt.size();i++){ if(fmt[i]!='%'){ pc(fmt[i]); continue; } if(fmt[i+1]=='%'){ pc('%'); i++; continue; }
      size_t j=i+1; while(j<fmt.size()&&!isalpha((unsigned char)fmt[j])) j++; while(j<fmt.size()&&(fmt[j]=='h'||fmt[j]=='l'||fmt[j]=='z')) j++; std::string spec=fmt.substr(i,j-i+1); char cv=fmt[j]; Val v=a[ai++]; i=j;
      if(cv=='s'){ int64_t e=findnul(v); if(e<0){ alarm("oob-read",CB,"unterminated string"); break; } for(int64_t q=v.c;q<e;q++) out.push_back(robj(st,v.obj).cells[q]); continue; }
      if(v.k==Val::Int&&v.isc&&cv!='f'){ std::string s2; for(char ch:spec) if(ch!='h'&&ch!='l'&&ch!='z') s2+=ch; char b[64]; snprintf(b,64,s2.c_str(),(int)v.c); for(char*q=b;*q;q++) pc(*q); continue; }
      if(cv=='c'){ std::vector<F> b(8); for(int q=0;q<8;q++) b[q]=v.bit(q); out.push_back(symCell(b)); continue; }
      if((cv=='X'||cv=='x')&&v.k==Val::Int){ std::string mid; for(char ch:spec.substr(1,spec.size()-2)) if(ch!='h'&&ch!='l') mid+=ch; if(mid.size()!=2||mid[0]!='0') throw Broken("hex format "+spec); unsigned wd=mid[1]-'0'; if(umax(v)>>(4*wd)) throw Broken("hex overflow"); std::vector<uint64_t> tab(16); for(int q=0;q<16;q++) tab[q]= cv=='X'?"0123456789ABCDEF"[q]:"0123456789abcdef"[q];
        for(int q=wd-1;q>=0;q--){ std::vector<F> ix; std::vector<uint64_t> tt; // only non-constant bits index the table
          unsigned base=0; std::vector<int> ps; for(int r=0;r<4;r++){ F f=v.bit(q*4+r); if(f>1){ ix.push_back(f); ps.push_back(r);} else if(f) base|=1<<r; }
          for(size_t x=0;x<(1ull<<ix.size());x++){ unsigned k=base; for(size_t r=0;r<ix.size();r++) if(x>>r&1) k|=1<<ps[r]; tt.push_back(tab[k]); }
          out.push_back(symCell(tableFn(tt,8,ix))); } continue; }
      throw Broken("format "+spec+" at "+loc(CB)); }
    uint64_t full=out.size(); 
    if(fi==2||fi==4){ uint64_t m=wantc(1); if(m==0){ ret=Val::I(32,full); return true; } if(out.size()>m-1) out.resize(m-1); }
    Cell z; z.k=Cell::Const; out.push_back(z);
    if(!check(st,a[0],out.size(),true,CB)){ ret=Val::I(32,full); return true; } auto&o=wobj(st,a[0].obj); for(size_t q=0;q<out.size();q++) o.cells[a[0].c+q]=out[q]; ret=Val::I(32,full); return true; }
  if(is("toupper")||is("tolower")||is("isxdigit")||is("isdigit")||is("isalpha")){ if(a[0].isc){ int c=(int)a[0].sc(); ret=Val::I(32, is("toupper")?toupper(c):is("tolower")?tolower(c):is("isxdigit")?!!isxdigit(c):is("isdigit")?!!isdigit(c):!!isalpha(c)); } else ret=freshInt(32); return true; }
  if(intr("llvm.ctpop")){ if(a[0].isc){ ret=Val::I(a[0].w,__builtin_popcountll(a[0].c)); return true; } Val acc=Val::I(a[0].w,0); for(unsigned i=0;i<a[0].w;i++){ std::vector<F> r(a[0].w,0); r[0]=a[0].bit(i); acc=addv(acc,Val::S(r),0);} ret=acc; return true; }
  if(intr("llvm.umin")||intr("llvm.umax")||intr("llvm.smin")||intr("llvm.smax")){ CmpInst::Predicate p= intr("llvm.umin")?CmpInst::ICMP_ULT:intr("llvm.umax")?CmpInst::ICMP_UGT:intr("llvm.smin")?CmpInst::ICMP_SLT:CmpInst::ICMP_SGT; Val c=icmp(st,p,a[0],a[1],CB); ret= c.isc?(c.c?a[0]:a[1]):select(st,c,a[0],a[1]); return true; }
  if(intr("llvm.abs")){ if(a[0].isc){ int64_t v=a[0].sc(); ret=Val::I(a[0].w,v<0?-v:v);} else ret=freshInt(a[0].w); return true; }
  if(is("abs")){ if(a[0].isc){ int64_t v=a[0].sc(); ret=Val::I(32,v<0?-v:v);} else ret=freshInt(32); return true; }
  if(is("__ctype_b_loc")) throw Broken("ctype table");
  if(intr("llvm.is.fpclass")&&fpmode&&a[0].k==Val::FpTop&&a[1].c==3){ Val x=rng(st,a[0]); ret=x.nan<0?freshInt(1):Val::S({x.nan}); return true; }
  if(intr("llvm.is.fpclass")){ ret= a[0].k==Val::Fp?Val::I(1,(a[1].c==3)?std::isnan(a[0].d):0):freshInt(1); return true; }
  if(rt->isFloatingPointTy()){
    bool fl=rt->isFloatTy(); std::string b=n; if(intr("llvm.")){ b=n.substr(5); b=b.substr(0,b.find('.')); } else if(fl&&b.size()&&b.back()=='f'&&b!="erf") b.pop_back();
    bool allc=true; for(auto&v:a) if(v.k!=Val::Fp&&v.k!=Val::Int) allc=false;
    static const std::set<std::string> known={"floor","ceil","log2","log10","log","pow","cos","sin","sqrt","fabs","atan2","exp","rint","round","trunc","fmuladd","fma","tan","atan","cexp","fmod","nearbyint","fmax","fmin","maxnum","minnum","ldexp","hypot"};
    if(!known.count(b)) throw Broken("unmodelled function "+n);
    if(!allc&&fpmode){ auto ok=[&](const Val&x){ return std::isfinite(x.lo)&&std::isfinite(x.hi); }; Val x=rng(st,a[0]);
      if(b=="atan2"||b=="atan"){ double m= b=="atan"?(fl?1.57079637050628662109375:M_PI_2):(fl?3.1415927410125732421875:M_PI); F nn=x.nan==0?0:-1; if(b=="atan2"&&rng(st,a[1]).nan!=0) nn=-1; ret=Val::R(-m,m,nn); return true; }
      if(b=="sin"||b=="cos"){ ret=Val::R(-1,1,ok(x)&&x.nan==0?0:-1); return true; }
      if(b=="floor"){ ret=Val::R(floor(x.lo),floor(x.hi),x.nan); return true; } if(b=="ceil"){ ret=Val::R(ceil(x.lo),ceil(x.hi),x.nan); return true; } if(b=="trunc"){ ret=Val::R(trunc(x.lo),trunc(x.hi),x.nan); return true; } if(b=="round"){ ret=Val::R(round(x.lo),round(x.hi),x.nan); return true; } if(b=="rint"||b=="nearbyint"){ ret=Val::R(rint(x.lo),rint(x.hi),x.nan); return true; }
      if(b=="fabs"){ double m=std::max(fabs(x.lo),fabs(x.hi)); ret=Val::R(x.lo<=0&&x.hi>=0?0:std::min(fabs(x.lo),fabs(x.hi)),m,x.nan); return true; } }
    if(!allc){ ret=Val::DT(); return true; }
    auto D=[&](int i){ return a[i].k==Val::Fp?a[i].d:(double)a[i].sc(); }; double r;
    if(b=="floor") r=floor(D(0)); else if(b=="ceil") r=ceil(D(0)); else if(b=="log2") r=fl?log2f(D(0)):log2(D(0)); else if(b=="log10") r=fl?log10f(D(0)):log10(D(0)); else if(b=="log") r=fl?logf(D(0)):log(D(0)); else if(b=="pow") r=fl?powf(D(0),D(1)):pow(D(0),D(1)); else if(b=="cos") r=fl?cosf(D(0)):cos(D(0)); else if(b=="sin") r=fl?sinf(D(0)):sin(D(0)); else if(b=="sqrt") r=fl?sqrtf(D(0)):sqrt(D(0)); else if(b=="fabs") r=fabs(D(0)); else if(b=="atan2") r=fl?atan2f(D(0),D(1)):atan2(D(0),D(1)); else if(b=="exp") r=fl?expf(D(0)):exp(D(0)); else if(b=="rint"||b=="nearbyint") r=rint(D(0)); else if(b=="round") r=round(D(0)); else if(b=="trunc") r=trunc(D(0)); else if(b=="fmuladd"||b=="fma"){ r= fl? (double)((float)((float)D(0)*(float)D(1))+(float)D(2)) : D(0)*D(1)+D(2);} else if(b=="tan") r=tan(D(0)); else if(b=="atan") r=atan(D(0)); else if(b=="fmod") r=fmod(D(0),D(1)); else if(b=="fmax"||b=="maxnum") r=fmax(D(0),D(1)); else if(b=="fmin"||b=="minnum") r=fmin(D(0),D(1)); else if(b=="ldexp") r=ldexp(D(0),(int)D(1)); else if(b=="hypot") r=hypot(D(0),D(1)); else throw Broken("unmodelled function "+n);
    ret=Val::D(fl?(double)(float)r:r); return true; }
  throw Broken("unmodelled external function "+n+" at "+loc(CB));
}
