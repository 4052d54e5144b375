// ============================================================ demodulator core
// Every float the modem keeps between calls is unknown (any value, infinities and NaN included); the integer state is
// closed under calls, starting from the opened modem.
struct Mem { uint64_t off; const DIType*t; std::string name; };
static const DIType*strip(const DIType*t){ while(auto*d=dyn_cast_or_null<DIDerivedType>(t)){ if(d->getTag()==dwarf::DW_TAG_pointer_type||d->getTag()==dwarf::DW_TAG_member) break; t=d->getBaseType(); } return t; }
static const DICompositeType*structNamed(Module&M,const std::string&n){ static std::map<std::string,const DICompositeType*> memo; if(memo.count(n)) return memo[n]; DebugInfoFinder F_; F_.processModule(M); for(auto*T:F_.types()) if(auto*c=dyn_cast<DICompositeType>(T)) if(c->getName()==n&&c->getTag()==dwarf::DW_TAG_structure_type&&c->getElements().size()) return memo[n]=c; throw Broken("struct "+n+" not found in debug info"); }
// scalar leaves of a type
static void leaves(const DIType*t0,uint64_t off,const std::string&nm,std::vector<Mem>&out){
  const DIType*t=strip(t0); if(!t) return;
  if(auto*c=dyn_cast<DICompositeType>(t)){
    if(c->getTag()==dwarf::DW_TAG_structure_type){ for(auto*e:c->getElements()) if(auto*d=dyn_cast<DIDerivedType>(e)) leaves(d->getBaseType(),off+d->getOffsetInBits()/8,nm+(nm.empty()?"":".")+d->getName().str(),out); return; }
    if(c->getTag()==dwarf::DW_TAG_array_type){ uint64_t n=1; for(auto*e:c->getElements()) if(auto*s=dyn_cast<DISubrange>(e)){ auto ci=s->getCount(); if(auto*k=ci.dyn_cast<ConstantInt*>()) n*=k->getZExtValue(); } const DIType*b=strip(c->getBaseType()); uint64_t sz=b?b->getSizeInBits()/8:0; for(uint64_t i=0;i<n;i++) leaves(c->getBaseType(),off+i*sz,nm+"["+std::to_string(i)+"]",out); return; }
  }
  out.push_back({off,t,nm}); }
static bool isFloatT(const DIType*t){ auto*b=dyn_cast<DIBasicType>(t); return b&&b->getEncoding()==dwarf::DW_ATE_float; }
static bool isIntT(const DIType*t){ auto*b=dyn_cast<DIBasicType>(t); if(b) return b->getEncoding()!=dwarf::DW_ATE_float; auto*c=dyn_cast<DICompositeType>(t); return c&&c->getTag()==dwarf::DW_TAG_enumeration_type; }
static bool floatPtr(const DIType*t){ auto*d=dyn_cast<DIDerivedType>(t); if(!d||d->getTag()!=dwarf::DW_TAG_pointer_type||!d->getBaseType()) return false; std::vector<Mem> l; leaves(d->getBaseType(),0,"",l); if(l.empty()) return false; for(auto&m:l) if(!isFloatT(m.t)) return false; return true; }
static void anyFloats(Interp&I,State&s,int obj,uint64_t base,const DIType*t){ std::vector<Mem> l; leaves(t,base,"",l);
  for(auto&m:l){ if(isFloatT(m.t)){ for(unsigned i=0;i<m.t->getSizeInBits()/8;i++){ auto&c=I.wobj(s,obj).cells[m.off+i]; c=Cell(); c.k=Cell::Top; } }
    else if(floatPtr(m.t)){ Val p=getPtr(I,s,obj,m.off); if(p.k==Val::Ptr&&p.obj&&p.isc) for(auto&c:I.wobj(s,p.obj).cells){ c=Cell(); c.k=Cell::Top; } } } }
static int sc_dsp(Interp&I){
  Api A(I); I.fpmode=true; int mode=oi("mode",0),Rs=oi("Rs",100),ts=oi("ts",-1),Fs=oi("Fs",1600),P=oi("P",8);
  auto opened=openModem(I,mode,Rs,ts,Fs,P); if(opened.size()!=1) throw Broken("open outcomes"); State base=opened[0].first; int h=opened[0].second;
  std::string cfg="mode "+std::to_string(mode)+" Rs "+std::to_string(Rs)+" spacing "+std::to_string(ts)+" Fs "+std::to_string(Fs)+" P "+std::to_string(P); 
  if(oi("lo",-99999)>-99999){ auto r=I.run("horus_set_freq_est_limits",{Val::P(h,0),Val::D(oi("lo",0)),Val::D(oi("hi",0))},base); if(r.size()!=1) throw Broken("limits"); base=r[0].st; cfg+=" limits "+std::to_string(oi("lo",0))+".."+std::to_string(oi("hi",0)); }
  Val fk=A.getp(base,h,"fsk"); if(fk.k!=Val::Ptr||!fk.obj||!fk.isc) throw Broken("fsk"); auto*FT=structNamed(*I.M,"FSK"); std::vector<Mem> fl; leaves(FT,0,"",fl);
  auto fields=A.K; auto stp=fields.at("stats"); 
  auto ints=[&](State&s,bool&known,std::string&bad){ std::vector<int64_t> r; known=true; for(auto&m:fl) if(isIntT(m.t)){ bool k; int64_t v=getInt(I,s,fk.obj,fk.c+m.off,m.t->getSizeInBits()/8,&k); if(!k){ known=false; bad=m.name; } r.push_back(v); } return r; };
  auto geK=[&](State&s,const char*f){ auto a=A.K.at(f); return getInt(I,s,fk.obj,fk.c+a.first,a.second); };
  int cap=callInt(I,base,"horus_get_max_demod_in",{Val::P(h,0)}); int Nb=geK(base,"Nbits"); 
  for(auto&m:fl) if(isIntT(m.t)) I.watch.push_back({fk.obj,(int)(fk.c+m.off),(int)m.t->getSizeInBits()/8});
  std::vector<State> work={base}; std::set<std::vector<int64_t>> done; int rounds=0; std::set<int64_t> nins;
  while(!work.empty()){ State s=work.back(); work.pop_back(); bool k; std::string bad; auto key=ints(s,k,bad); if(!k){ ob(false,"modem-state",cfg+": integer modem state '"+bad+"' is not determined after a block"); continue; } if(done.count(key)) continue; done.insert(key); if(++rounds>12){ ob(false,"modem-state",cfg+": the integer state of the modem does not settle after 12 blocks"); break; }
    anyFloats(I,s,fk.obj,fk.c,FT); { Val st=getPtr(I,s,fk.obj,fk.c+stp.first); if(st.k==Val::Ptr&&st.obj&&st.isc) anyFloats(I,s,st.obj,st.c,structNamed(*I.M,"MODEM_STATS")); }
    int nin=geK(s,"nin"); nins.insert(nin); I.ctx=cfg+", block of "+std::to_string(nin)+" samples";
    auto nq=I.run("horus_nin",{Val::P(h,0)},s); bool okn=nq.size()==1&&nq[0].ret.isc&&nq[0].ret.sc()>0&&nq[0].ret.sc()<=cap; ob(okn,"nin",I.ctx+": number of samples to supply next is not valid (positive, at most the reported maximum)"); if(!okn) continue; s=nq[0].st; int ask=nq[0].ret.sc();
    int in=mkbuf(I,s,"block of samples (as many as asked for)",8*(size_t)ask), bits=mkbuf(I,s,"bits of one block",Nb), sd=mkbuf(I,s,"soft bits of one block",4*(size_t)Nb);
    for(auto&c:I.wobj(s,in).cells) c.k=Cell::Top; for(auto&c:I.wobj(s,bits).cells) c.k=Cell::Const; for(auto&c:I.wobj(s,sd).cells) c.k=Cell::Const; size_t n0=s.objs.size();
    auto outs=I.run("fsk_demod_core",{fk,Val::P(bits,0),Val::P(sd,0),Val::P(in,0)},s); ob(!outs.empty(),"returns",I.ctx+": the demodulator has no normal return");
    for(auto&o:outs){ int badb=0; for(int i=0;i<Nb;i++){ nob++; auto b=I.cellBits(o.st,bits,i); for(int q=1;q<8;q++) if(o.st.eqs.red(b[q])!=0){ badb++; break; } } ob(!badb,"bits",I.ctx+": an output bit can be something other than 0 or 1");
      for(size_t i=n0;i<o.st.objs.size();i++) if(o.st.objs[i]->kind==Obj::Heap&&!o.st.objs[i]->freed&&o.st.objs[i]->name.rfind("heap@",0)==0) ob(false,"block-leak",I.ctx+": storage allocated during the block is still held: "+o.st.objs[i]->name);
      o.st.objs.resize(n0); work.push_back(o.st); }
  }
  for(auto&d:I.dataLoops()){ info("loop whose turns depend on the data: "+d[0],d[1]); ob(d[1].rfind("never",0)!=0,"endless-loop",cfg+": the loop at "+d[0]+" "+d[1]); } nob+=I.loopRuns;
  std::string ns; for(auto n:nins) ns+=(ns.empty()?"":",")+std::to_string(n); info("samples asked for ("+cfg+")",ns); info("integer states",std::to_string(rounds));
  return finish(I); }
