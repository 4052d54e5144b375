// Constant tables and the functions beside them, as data: every global with debug information is printed field by field, the
// layouts of all structures, and the results of listed functions on listed values.  The comparison is in checks/P13.py.
static std::string tyName(DIType*t){ std::string r; while(auto*d=dyn_cast_or_null<DIDerivedType>(t)){ if(d->getTag()==dwarf::DW_TAG_pointer_type) r+="*"; else if(d->getTag()==dwarf::DW_TAG_typedef) { t=d->getBaseType(); continue; } t=d->getBaseType(); } return (t?t->getName().str():"void")+r; }
static DIType*peel(DIType*t){ while(auto*d=dyn_cast_or_null<DIDerivedType>(t)){ auto g=d->getTag(); if(g==dwarf::DW_TAG_typedef||g==dwarf::DW_TAG_const_type||g==dwarf::DW_TAG_volatile_type||g==dwarf::DW_TAG_member) t=d->getBaseType(); else break; } return t; }
static std::string symOf(Interp&I,State&s,const Val&p){ std::string n; for(auto&g:I.gobj) if(g.second==p.obj) n=g.first->getName().str(); return n; }
static std::string dumpTy(Interp&I,State&s,int obj,int64_t off,DIType*t0,int depth){ DIType*t=peel(t0); if(!t||depth>12) return "null";
  auto intAt=[&](uint64_t n,bool sg)->std::string{ bool k; if(n==0||n>8) return "null"; Val v=I.simp(s,I.loadAt(s,obj,off,Type::getIntNTy(I.M->getContext(),n*8))); k=v.k==Val::Int&&v.isc; return k?(sg?std::to_string(v.sc()):std::to_string(v.c)):"null"; };
  if(auto*b=dyn_cast<DIBasicType>(t)){ if(b->getEncoding()==dwarf::DW_ATE_float) return "\"float\""; bool sg=b->getEncoding()==dwarf::DW_ATE_signed||b->getEncoding()==dwarf::DW_ATE_signed_char; return intAt(b->getSizeInBits()/8,sg); }
  if(auto*d=dyn_cast<DIDerivedType>(t)){ if(d->getTag()!=dwarf::DW_TAG_pointer_type) return "null"; Val p=getPtr(I,s,obj,off); if(p.k!=Val::Ptr||!p.isc) return "\"?\""; if(!p.obj) return "null"; auto&o=I.robj(s,p.obj); if(o.fn) return "{\"fn\":"+js(o.fn->getName().str())+"}";
    DIType*b=peel(d->getBaseType()); if(auto*c=dyn_cast_or_null<DIBasicType>(b)) if(c->getSizeInBits()==8&&(c->getEncoding()==dwarf::DW_ATE_signed_char)){ std::string r; for(uint64_t i=p.c;i<o.size&&o.cells[i].k==Cell::Const&&o.cells[i].c;i++) r+=(char)o.cells[i].c; return "{\"s\":"+js(r)+"}"; }
    return "{\"to\":"+js(symOf(I,s,p))+",\"off\":"+std::to_string((int64_t)p.c)+"}"; }
  if(auto*c=dyn_cast<DICompositeType>(t)){ uint64_t sz=c->getSizeInBits()/8; if(c->getTag()==dwarf::DW_TAG_enumeration_type) return intAt(sz,true);
    if(c->getTag()==dwarf::DW_TAG_array_type){ DIType*e=c->getBaseType(); uint64_t es=0; { DIType*q=peel(e); if(auto*d=dyn_cast_or_null<DIDerivedType>(q)) es=8; else es=q?q->getSizeInBits()/8:0; } if(!es) return "null"; std::string r="["; for(uint64_t i=0;i<sz/es;i++){ if(i) r+=","; r+=dumpTy(I,s,obj,off+i*es,e,depth+1); } return r+"]"; }
    std::string r="{"; bool first=true; for(auto*e:c->getElements()) if(auto*d=dyn_cast<DIDerivedType>(e)) if(d->getTag()==dwarf::DW_TAG_member){ if(!first) r+=","; first=false; r+=js(d->getName().str())+":"+dumpTy(I,s,obj,off+d->getOffsetInBits()/8,d->getBaseType(),depth+1); } return r+"}"; }
  return "null"; }
static void layout(DICompositeType*c,uint64_t base,const std::string&pre,std::string&out,bool&first,int depth){ for(auto*e:c->getElements()) if(auto*d=dyn_cast<DIDerivedType>(e)) if(d->getTag()==dwarf::DW_TAG_member){ std::string n=pre+d->getName().str(); uint64_t off=base+d->getOffsetInBits()/8;
    DIType*b=peel(d->getBaseType()); bool ptr=false; if(auto*q=dyn_cast_or_null<DIDerivedType>(b)) if(q->getTag()==dwarf::DW_TAG_pointer_type) ptr=true; if(!first) out+=","; first=false; 
    std::string tn=tyName(d->getBaseType()); bool real=false; if(auto*bt=dyn_cast_or_null<DIBasicType>(b)) real=bt->getEncoding()==dwarf::DW_ATE_float;
    out+="{\"name\":"+js(n)+",\"off\":"+std::to_string(off)+",\"size\":"+std::to_string(d->getSizeInBits()/8)+",\"type\":"+js(tn)+",\"ptr\":"+(ptr?"true":"false")+"}";
    if(auto*u=dyn_cast_or_null<DICompositeType>(b)) if(depth<4&&(u->getTag()==dwarf::DW_TAG_union_type||(u->getTag()==dwarf::DW_TAG_structure_type&&d->getName().empty()))) layout(u,off,d->getName().empty()?pre:n+".",out,first,depth+1); } }
// is the number read through the second argument used in comparisons with constants only?
static void critical(Function*f,std::set<int64_t>&cs,int depth){ for(auto&B:*f) for(auto&In:B){ for(auto&op:In.operands()) if(auto*c=dyn_cast<ConstantInt>(op)) if(c->getBitWidth()<=64) cs.insert(c->getSExtValue()); if(auto*cb=dyn_cast<CallBase>(&In)) if(auto*g=cb->getCalledFunction()) if(!g->isDeclaration()&&depth<4&&g!=f) critical(g,cs,depth+1); } }
static bool onlyCompared(Value*v,int depth){ if(depth>6) return false; for(auto*u:v->users()){ if(auto*ic=dyn_cast<ICmpInst>(u)){ Value*o=ic->getOperand(0)==v?ic->getOperand(1):ic->getOperand(0); if(!isa<ConstantInt>(o)) return false; } else if(isa<SExtInst>(u)||isa<ZExtInst>(u)){ if(!onlyCompared(u,depth+1)) return false; } else if(auto*cb=dyn_cast<CallBase>(u)){ auto*g=cb->getCalledFunction(); if(!g||(g->isDeclaration()&&!g->isIntrinsic())) return false; if(g->isIntrinsic()) continue; for(unsigned i=0;i<cb->arg_size();i++) if(cb->getArgOperand(i)==v&&!onlyCompared(g->getArg(i),depth+1)) return false; } else return false; } return true; }
static int sc_tables(Interp&I){
  State s=I.init; Module&M=*I.M;
  if(os("eval","").empty()){
    for(auto&g:M.globals()){ if(!I.gobj.count(&g)||g.isDeclaration()) continue; SmallVector<DIGlobalVariableExpression*,2> d; g.getDebugInfo(d); if(d.empty()) continue; auto*v=d[0]->getVariable(); 
      printf("{\"global\":%s,\"source\":%s,\"line\":%u,\"type\":%s,\"value\":%s}\n",js(g.getName().str()).c_str(),js(v->getFilename().str()).c_str(),v->getLine(),js(tyName(v->getType())).c_str(),dumpTy(I,s,I.gobj[&g],0,v->getType(),0).c_str()); }
    DebugInfoFinder F_; F_.processModule(M); std::set<std::string> seen; for(auto*T:F_.types()) if(auto*c=dyn_cast<DICompositeType>(T)){ if(c->getTag()!=dwarf::DW_TAG_structure_type||!c->getElements().size()||c->getName().empty()||!seen.insert(c->getName().str()).second) continue; std::string o="["; bool first=true; layout(c,0,"",o,first,0); printf("{\"struct\":%s,\"size\":%llu,\"fields\":%s]}\n",js(c->getName().str()).c_str(),(unsigned long long)c->getSizeInBits()/8,o.c_str()); }
    for(auto*T:F_.types()) if(auto*c=dyn_cast<DICompositeType>(T)) if(c->getTag()==dwarf::DW_TAG_enumeration_type&&!c->getName().empty()){ std::string o; for(auto*e:c->getElements()) if(auto*x=dyn_cast<DIEnumerator>(e)){ if(!o.empty()) o+=","; o+=js(x->getName().str())+":"+std::to_string(x->getValue().getSExtValue()); } printf("{\"enum\":%s,\"values\":{%s}}\n",js(c->getName().str()).c_str(),o.c_str()); }
    for(auto&f:M) if(!f.isDeclaration()){ std::set<int64_t> cs; if(f.getName().contains("constraint")&&f.arg_size()>=2){ critical(&f,cs,0); bool simple=true; for(auto*u:f.getArg(1)->users()) if(auto*l=dyn_cast<LoadInst>(u)) if(!onlyCompared(l,0)) simple=false; std::string o; for(auto c:cs){ if(!o.empty()) o+=","; o+=std::to_string(c); } auto*sp=f.getSubprogram(); printf("{\"function\":%s,\"constants\":[%s],\"compared\":%s,\"line\":%u,\"source\":%s}\n",js(f.getName().str()).c_str(),o.c_str(),simple?"true":"false",sp?sp->getLine():0,js(sp?sp->getFilename().str():"").c_str()); } }
    return finish(I); }
  // evaluation of listed functions
  // the generic validation functions of the run-time check the elements: not the subject here
  for(auto&g:M) { std::string n=g.getName().str(); if(n.size()>11&&n.compare(n.size()-11,11,"_constraint")==0&&n.rfind("memb_",0)!=0) I.stubs[n]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ Out o; o.st=std::move(st); o.ret=Val::I(32,0); r.push_back(std::move(o)); return true; }; }
  FILE*ef=fopen(os("eval","").c_str(),"r"); if(!ef) throw Broken("eval list"); char fnn[300],kind[32]; long a,b; int td=0; if(auto*g=M.getNamedValue("asn_DEF_Telemetry")) if(I.gobj.count(g)) td=I.gobj[g];
  while(fscanf(ef,"%299s %31s %ld %ld",fnn,kind,&a,&b)==4){ std::string k=kind; State t=s; Function*f=M.getFunction(fnn); if(!f||f->isDeclaration()){ printf("{\"call\":%s,\"kind\":%s,\"a\":%ld,\"b\":%ld,\"ret\":\"undefined\"}\n",js(fnn).c_str(),js(k).c_str(),a,b); continue; } I.ctx=std::string(fnn)+" "+k+" "+std::to_string(a)+" "+std::to_string(b); std::vector<Val> args;
    if(k=="call") args={Val::I(f->getArg(0)->getType()->getIntegerBitWidth(),a)};
    else { int sp=0; if(k=="long"){ sp=mkbuf(I,t,"value",8); setInt(I,t,sp,0,8,a); }
      else if(k=="str"){ auto fl=fieldsOf(M,"OCTET_STRING"); uint64_t sz=0; for(auto&x:fl) sz=std::max(sz,x.second.first+x.second.second); sp=mkbuf(I,t,"string",sz); int bf=mkbuf(I,t,"characters",a+1); auto&o=I.wobj(t,bf); for(long i=0;i<=a;i++){ o.cells[i].k=Cell::Const; o.cells[i].c= i<a?(uint8_t)b:0; } I.storeAt(t,sp,fl["buf"].first,Val::P(bf,0),PointerType::getUnqual(M.getContext())); setInt(I,t,sp,fl["size"].first,8,a); }
      else { sp=mkbuf(I,t,"list",64); for(int i=0;i<64;i+=8) setInt(I,t,sp,i,8,0); setInt(I,t,sp,8,4,a); }
      args={Val::P(td,0),Val::P(sp,0),Val::P(0,0),Val::P(0,0)}; args.resize(f->arg_size()); }
    std::set<std::string> rs; for(auto&o:I.run(fnn,args,t)){ Val r=I.simp(o.st,o.ret); rs.insert(r.k==Val::Int&&r.isc?std::to_string(r.sc()):"?"); } std::string r; for(auto&x:rs){ if(!r.empty()) r+="|"; r+=x; }
    printf("{\"call\":%s,\"kind\":%s,\"a\":%ld,\"b\":%ld,\"ret\":%s}\n",js(fnn).c_str(),js(k).c_str(),a,b,js(r).c_str()); }
  fclose(ef); return finish(I); }
